"""C16 Editing and storing trajectories loses, adds and reorders no samples."""
import copy
import os

import numpy as np

from dmpbbo.dmps.Trajectory import Trajectory
from mon import gen

RULE = ("A case is a trajectory (1-5 dimensions, uniform or jittered times, any start time, with or without misc) "
        "and a random sequence of edits (append, prepend, crop by index or time, pads, start time, misc, recomputed "
        "derivatives, copies, round trips), shadowed by a model that holds each sample with a unique identity. "
        "Non-trivial if at least two edits changed the samples. Distinct by parameters and edits.")
ASSUMPTIONS = ["parts that are joined agree in their dimensions and in having misc variables",
               "a join is as wide as the mean time step of either part",
               "crops leave at least three samples, and crop times overlap the trajectory"]
QUICK = 4
required = ["samples-kept", "rows-together", "times-increase", "join-width", "argument-untouched", "crop-by-time", "derived",
            "round-trip-matrix", "round-trip-dataframe", "round-trip-text", "derivatives-central", "filter"]


class Model:
    """Samples as rows of arrays; the reference for every edit."""

    def __init__(self, ts, ys, yds, ydds, misc):
        self.ts, self.ys, self.yds, self.ydds, self.misc = (None if a is None else np.array(a, dtype=float) for a in (ts, ys, yds, ydds, misc))

    def join(self, other):
        for a in ("ys", "yds", "ydds", "misc"):
            u, v = getattr(self, a), getattr(other, a)
            setattr(self, a, None if u is None else np.concatenate((u, v)))

    def pick(self, mask):
        for a in ("ts", "ys", "yds", "ydds", "misc"):
            u = getattr(self, a)
            setattr(self, a, None if u is None else u[mask])


def central(xs, dt):
    r = np.empty_like(xs)
    r[1:-1] = (xs[2:] - xs[:-2]) / (2 * dt)
    r[0], r[-1] = r[1], r[-2]
    return r


def fresh(rng, D, M, n=None):
    n = n or int(rng.integers(3, 40))
    dt = float(gen.choice(rng, [0.01, 0.1, rng.uniform(0.005, 0.3)]))
    ts = np.arange(n) * dt
    if gen.chance(rng):
        ts = ts + np.concatenate(([0.0], rng.uniform(-0.3, 0.3, n - 1) * dt))
    ts = ts + float(gen.choice(rng, [0.0, 0.0, rng.uniform(-5, 5), rng.uniform(0, 20)]))
    ys, yds, ydds = (rng.uniform(-3, 3, (n, D)) for _ in range(3))
    misc = rng.uniform(-9, 9, (n, M)) if M else None
    return ts, ys, yds, ydds, misc


def make(rng, D, M, n=None):
    a = fresh(rng, D, M, n)
    return Trajectory(*[None if x is None else x.copy() for x in a]), Model(*a)


def judge(mon, t, m, what, M):
    n = m.ys.shape[0]
    mon.must("samples-kept", t.length == n and t.ts.shape == (n,) and t.ys.shape == m.ys.shape, f"{what}: {t.length} samples instead of {n}", shape=t.ys.shape)
    for a, w in ((t.ys, m.ys), (t.yds, m.yds), (t.ydds, m.ydds)):
        mon.equal("rows-together", a, w, f"{what}: samples")
    if M:
        mon.must("rows-together", t.has_misc(), f"{what}: misc lost")
        mon.equal("rows-together", t.misc, m.misc, f"{what}: misc")
    else:
        mon.ok("rows-together", not t.has_misc(), f"{what}: misc appeared")
    mon.ok("times-increase", np.all(np.diff(t.ts) > 0), f"{what}: times", ts=t.ts)
    mon.close("times-kept", t.ts, m.ts, rtol=0, atol=1e-9 * gen.scale(m.ts), msg=f"{what}: times")
    # derived quantities always describe the current samples
    mon.close("derived", t.duration, t.ts[-1] - t.ts[0], rtol=1e-12, atol=1e-12, msg=f"{what}: duration")
    mon.close("derived", t.dt_mean, np.mean(np.diff(t.ts)), rtol=1e-9, atol=0, msg=f"{what}: mean time step")
    mon.ok("derived", t.dim == m.ys.shape[1] and t.dim_misc == M and t.length == n, f"{what}: dimensions")
    mon.equal("derived", t.y_init, m.ys[0], f"{what}: y_init")
    mon.equal("derived", t.y_final, m.ys[-1], f"{what}: y_final")
    mon.close("derived", t.get_range_per_dim(), m.ys.max(axis=0) - m.ys.min(axis=0), rtol=1e-12, atol=1e-12, msg=f"{what}: ranges")
    mon.close("derivatives-central", t.yddds(), central(m.ydds, np.mean(np.diff(m.ts))), rtol=1e-7, atol=1e-7 * gen.scale(t.yddds()), msg=f"{what}: jerks")


def width(mon, w, dts, what):
    mon.ok("join-width", any(abs(w - d) <= 1e-6 * d + 1e-9 for d in dts), f"{what}: join is not one time step wide", width=w, steps=dts)


def edits(rng, mon):
    D = gen.dims(rng, 2)
    M = int(gen.choice(rng, [0, 0, 1, 2, 3]))
    t, m = make(rng, D, M)
    hist = []
    mon.describe(n_dims=D, n_misc=M, n=t.length, dt=t.dt_mean, start=t.ts[0])
    judge(mon, t, m, "new", M)
    changed = 0
    for _ in range(int(rng.integers(2, 10))):
        op = gen.choice(rng, ["append", "prepend", "crop-index", "crop-time", "crop-time", "pad_front", "pad_end", "zero", "misc",
                              "derivatives", "copy", "matrix", "text", "dataframe", "self"])
        if t.length > 600 and op in ("append", "prepend", "pad_front", "pad_end", "self"):
            op = "crop-index"
        if t.length < 5 and op.startswith("crop"):
            op = "append"
        hist.append(op)
        w = f"after {op}"
        old = m.ts.copy()
        dt = np.mean(np.diff(old))
        if op in ("append", "prepend", "self"):
            o, om = make(rng, D, M, n=int(rng.integers(3, 30))) if op != "self" else (t, copy.deepcopy(m))
            if op == "self":
                op = gen.choice(rng, ["append", "prepend"])
                getattr(t, op)(o)
            else:
                with mon.untouched("argument-untouched", o, msg=op):
                    getattr(t, op)(o)
            no, nn = om.ts.size, old.size
            mon.must("samples-kept", t.length == no + nn, f"{w}: {t.length} samples instead of {no + nn}")
            first, second = (old, om.ts) if op == "append" else (om.ts, old)
            k = first.size
            width(mon, t.ts[k] - t.ts[k - 1], [dt, np.mean(np.diff(om.ts))], w)
            mon.close("times-kept", np.diff(t.ts[:k]), np.diff(first), rtol=0, atol=1e-9 * gen.scale(t.ts), msg=f"{w}: steps of the first part")
            mon.close("times-kept", np.diff(t.ts[k:]), np.diff(second), rtol=0, atol=1e-9 * gen.scale(t.ts), msg=f"{w}: steps of the second part")
            if op == "append":
                mon.close("times-kept", t.ts[:k], old, rtol=0, atol=1e-12, msg=f"{w}: own times")
                m.join(om)
            else:
                om.join(m)
                m = om
            m.ts = np.array(t.ts)
            changed += 1
            if o is not t:
                # what happens to the argument later is none of the trajectory's business
                o.crop(0, 2)
                o.set_start_time_to_zero()
        elif op in ("pad_front", "pad_end"):
            k = int(gen.choice(rng, [2, 5, int(rng.integers(2, 30))]))
            getattr(t, op)(k) if gen.chance(rng) else getattr(t, op)(n_padding=k)
            mon.must("samples-kept", t.length == old.size + k, f"{w}: {t.length} samples instead of {old.size + k}")
            i = 0 if op == "pad_front" else -1
            z = np.zeros((k, D))
            pad = Model(np.arange(k), np.tile(m.ys[i], (k, 1)), z, z, None if not M else np.tile(m.misc[i], (k, 1)))
            mon.close("join-width", np.diff(t.ts[:k + 1] if i == 0 else t.ts[-k - 1:]), np.full(k, dt), rtol=1e-6, atol=1e-9, msg=f"{w}: padded times")
            if i == 0:
                pad.join(m)
                m = pad
                m.ts = np.array(t.ts)
                mon.close("times-kept", np.diff(t.ts[k:]), np.diff(old), rtol=0, atol=1e-9 * gen.scale(t.ts), msg=f"{w}: own steps")
            else:
                mon.close("times-kept", t.ts[:-k], old, rtol=0, atol=1e-12, msg=f"{w}: own times")
                m.join(pad)
                m.ts = np.array(t.ts)
            changed += 1
        elif op == "crop-index":
            n = t.length
            a = int(rng.integers(0, n - 3))
            b = int(rng.integers(a + 3, n + 1))
            if gen.chance(rng, 0.2):
                b = n
            t.crop(a, b) if gen.chance(rng) else t.crop(a, b, as_times=False)
            m.pick(np.arange(n)[a:b])
            w += f" [{a}:{b}]"
            changed += 1
        elif op == "crop-time":
            n = t.length
            a = int(rng.integers(0, n - 3))
            b = int(rng.integers(a + 3, n))
            on = lambda i: float(old[i])  # noqa: E731
            off = lambda i: float(old[i] - rng.uniform(0.2, 0.8) * (old[i] - old[i - 1]))  # noqa: E731
            if gen.chance(rng, 0.1):
                out = gen.choice(rng, [(old[-1] + 0.5, old[-1] + 1.5), (old[0] - 2.0, old[0] - 0.3)])
                t.crop(float(out[0]), float(out[1]), True)
                mon.equal("crop-by-time", t.ts, old, "times after a crop that lies completely outside of the trajectory")
                judge(mon, t, m, w + " outside", M)
            if gen.chance(rng, 0.1):
                mon.raises("rejects-empty-crop", ValueError, lambda: t.crop(on(b), on(a), True), "crop that ends before it starts")
                mon.raises("rejects-empty-crop", ValueError, lambda: t.crop(b, a), "crop that ends before it starts")
                mon.raises("rejects-empty-crop", ValueError, lambda: t.crop(b, b), "crop that ends where it starts")
                mon.raises("rejects-empty-crop", ValueError, lambda: t.crop(on(b), on(b), True), "crop that ends when it starts")
                judge(mon, t, m, w + " refused", M)
            start = gen.choice(rng, [on(a), off(max(a, 1)), old[0] - 1.0, float(old[0])])
            end = gen.choice(rng, [on(b), off(b), float(old[-1]), old[-1] + 1.0])
            mask = (old >= start) & (old < end)
            if mask.sum() < 3:
                hist.pop()
                continue
            t.crop(start, end, as_times=True) if gen.chance(rng) else t.crop(start, end, True)
            mon.ok("crop-by-time", t.length == mask.sum() and np.array_equal(t.ts, old[mask]), f"crop to [{start}, {end})", got=t.ts, expected=old[mask])
            m.pick(mask)
            changed += 1
        elif op == "zero":
            t.set_start_time_to_zero()
            m.ts = m.ts - m.ts[0]
        elif op == "misc":
            M = int(rng.integers(1, 4))
            x = rng.normal(size=(t.length, M))
            t.misc = x[:, 0].copy() if M == 1 and gen.chance(rng) else x.copy()
            m.misc = x
            bad = rng.normal(size=(t.length + 1, M))
            mon.raises("rejects-wrong-length", ValueError, lambda: setattr(t, "misc", bad), "misc of another length")
        elif op == "derivatives":
            t.recompute_derivatives()
            d = np.mean(np.diff(m.ts))
            m.yds = central(m.ys, d)
            m.ydds = central(m.yds, d)
            mon.close("derivatives-central", t.yds, m.yds, rtol=1e-7, atol=1e-7 * gen.scale(m.yds), msg="velocities")
            mon.close("derivatives-central", t.ydds, m.ydds, rtol=1e-7, atol=1e-7 * gen.scale(m.ydds), msg="accelerations")
            m.yds, m.ydds = np.array(t.yds), np.array(t.ydds)
        elif op == "copy":
            o = t
            t = copy.deepcopy(t)
            o.crop(0, 3)
            o.set_start_time_to_zero()
        elif op == "matrix":
            x = t.as_matrix()
            want = np.column_stack([m.ts, m.ys, m.yds, m.ydds] + ([m.misc] if M else []))
            mon.equal("round-trip-matrix", x, want, "as_matrix")
            keep = x.copy()
            t = Trajectory.from_matrix(x, M) if M or gen.chance(rng) else Trajectory.from_matrix(x)
            mon.equal("round-trip-matrix", x, keep, "matrix handed to from_matrix")
        elif op == "dataframe":
            f = t.as_dataframe()
            cols = ["t"] + [f"{p}{i}" for p in ("y", "yd", "ydd") for i in range(D)] + [f"misc{i}" for i in range(M)]
            mon.ok("round-trip-dataframe", list(f.columns) == cols, "columns", got=list(f.columns))
            t = Trajectory.from_matrix(f.to_numpy(), M)
        elif op == "text":
            name = os.path.join(mon.ctx.scratch, f"t{mon.case}_{os.getpid()}.txt")
            t.savetxt(name)
            t = Trajectory.loadtxt(name, M) if M or gen.chance(rng) else Trajectory.loadtxt(name)
            os.remove(name)
            mon.must("round-trip-text", t.length == m.ts.size and t.dim == D, "shape after loading")
            for a, b, v in ((t.ts, m.ts, "times"), (t.ys, m.ys, "positions"), (t.yds, m.yds, "velocities"), (t.ydds, m.ydds, "accelerations")) + (((t.misc, m.misc, "misc"),) if M else ()):
                mon.close("round-trip-text", a, b, rtol=1e-12, atol=5.1e-8, msg=f"{v} after loading")
            m = Model(t.ts, t.ys, t.yds, t.ydds, m.misc if not M else t.misc)
        mon.describe(history=hist)
        judge(mon, t, m, w, M)
    if changed >= 2:
        mon.nontrivial(D, M, hist, m.ts[:5])


def construct(rng, mon):
    """What is not given is derived; wrong shapes are refused; arguments stay as they are."""
    D = gen.dims(rng, 2)
    n = int(rng.integers(3, 60))
    ts, ys, yds, ydds, misc = fresh(rng, D, int(rng.integers(0, 3)), n)
    full = (ys, yds, ydds, misc)
    if D == 1 and gen.chance(rng):
        ys = ys[:, 0]
        if gen.chance(rng):
            yds, ydds = yds[:, 0], ydds[:, 0]
    if misc is not None and misc.shape[1] == 1 and gen.chance(rng):
        misc = misc[:, 0]
    how = gen.choice(rng, ["ys", "ys", "yds", "all"])
    args = {"ys": (ts, ys), "yds": (ts, ys, yds), "all": (ts, ys, yds, ydds)}[how]
    kw = {"misc": misc} if misc is not None else {}
    mon.describe(n_dims=D, n=n, how=how)
    with mon.untouched("argument-untouched", *args):
        t = Trajectory(*args, **kw)
        dt = np.mean(np.diff(ts))
        Y = ys.reshape(n, D)
        V = full[1] if how != "ys" else central(Y, dt)
        A = full[2] if how == "all" else central(V, dt)
        mon.close("derivatives-central", t.yds, V, rtol=1e-7, atol=1e-7 * gen.scale(V), msg="velocities")
        mon.close("derivatives-central", t.ydds, A, rtol=1e-7, atol=1e-7 * gen.scale(A), msg="accelerations")
        mon.equal("rows-together", t.ys, Y, "positions")
        mon.ok("rows-together", t.yds.shape == (n, D) and t.ydds.shape == (n, D), "one row per sample", yds=t.yds.shape, ydds=t.ydds.shape)
        judge(mon, t, Model(ts, Y, t.yds, t.ydds, full[3]), "constructed", 0 if misc is None else full[3].shape[1])
        t.recompute_derivatives()
        t.set_start_time_to_zero()
        t.pad_end(3)
        t.pad_front(2)
    bad = rng.normal(size=(n + 1, D))
    mon.raises("rejects-wrong-length", ValueError, lambda: Trajectory(ts, bad), "positions of another length")
    mon.raises("rejects-wrong-length", ValueError, lambda: Trajectory(ts, ys, bad), "velocities of another length")
    mon.raises("rejects-wrong-length", ValueError, lambda: Trajectory(ts, ys, yds, bad), "accelerations of another length")
    mon.raises("rejects-wrong-length", ValueError, lambda: Trajectory(ts, ys, yds, ydds, bad), "misc of another length")
    mon.nontrivial(D, n, how, ts[:4])


def lowpass(rng, mon):
    """The filter keeps every sample in place and the derivatives in step with the positions."""
    D = gen.dims(rng, 1)
    n = int(rng.integers(150, 300))
    dt = float(rng.uniform(0.005, 0.02))
    t0 = float(rng.uniform(0, 3))
    ts = t0 + np.arange(n) * dt
    f = rng.uniform(0.2, 0.5, D)
    clean = np.sin(2 * np.pi * np.outer(ts, f)) * rng.uniform(0.5, 2, D) + rng.uniform(-5, 5, D)
    noise = 0.02 * np.sin(2 * np.pi * 0.45 / dt * ts)[:, None]
    M = int(rng.integers(0, 3))
    misc = rng.normal(size=(n, M)) if M else None
    t = Trajectory(ts, clean + noise, misc=misc)
    order = int(gen.choice(rng, [3, 2, 4]))
    mon.describe(n=n, dt=dt, order=order)
    cutoff = float(rng.uniform(6, 10))
    t.apply_low_pass_filter(cutoff) if order == 3 else t.apply_low_pass_filter(cutoff, order)
    mon.equal("filter", t.ts, ts, "times after filtering")
    mon.ok("filter", t.ys.shape == (n, D), "shape after filtering")
    e = np.abs(t.ys - clean)[n // 6: -n // 6]
    mon.ok("filter", np.max(e) < 0.012, "positions after filtering are not the signal without the noise", error=np.max(e))
    mon.close("filter", t.yds, central(t.ys, dt), rtol=1e-6, atol=1e-6 * gen.scale(t.yds), msg="velocities after filtering")
    mon.close("filter", t.ydds, central(t.yds, dt), rtol=1e-6, atol=1e-6 * gen.scale(t.ydds), msg="accelerations after filtering")
    if M:
        mon.equal("filter", t.misc, misc, "misc after filtering")
    # the gain of a Butterworth filter that is passed forwards and backwards, at any sampling rate
    dt = float(10 ** rng.uniform(-3, 0))
    fc = float(rng.uniform(0.02, 0.12)) / dt
    f = fc * rng.uniform(0.3, 1.6, D)
    order = int(gen.choice(rng, [3, 1, 2, 4]))
    ts = t0 + np.arange(1500) * dt
    amp, off = rng.uniform(0.5, 2, D), rng.normal(size=D)
    wave = np.sin(2 * np.pi * np.outer(ts, f))
    t = Trajectory(ts, off + amp * wave)
    t.apply_low_pass_filter(fc) if order == 3 else t.apply_low_pass_filter(fc, order)
    gain = 1 / (1 + (np.tan(np.pi * f * dt) / np.tan(np.pi * fc * dt)) ** (2 * order))
    mid = slice(600, 900)
    mon.close("filter", t.ys[mid], (off + gain * amp * wave)[mid], rtol=0, atol=5e-4, msg="gain of the filter and no delay", dt=dt, cutoff=fc, frequencies=f, order=order)
    mon.nontrivial(n, D, dt, order)


FAMILIES = {"edits": (edits, 2500, 40000), "construct": (construct, 300, 4000), "lowpass": (lowpass, 80, 1500)}
