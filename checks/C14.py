"""C14 Gain and force schedules respect their bounds and follow the DMP's phase."""
import copy

import numpy as np

from dmpbbo.dmps.Dmp import Dmp
from dmpbbo.dmps.DmpWithSchedules import DmpWithSchedules
from dmpbbo.dmps.Trajectory import Trajectory
from mon import dmpgen, gen
from mon.recorder import RecordingFA

RULE = ("A case is a DMP of any type with 1-4 schedules of any approximator class and bounds that are absent, scalar "
        "or per dimension (zero, negative, one-sided, touching or narrow), used over time vectors, stepwise, and "
        "interleaved with changes of tau, goal and parameters; or a demonstration with schedules given explicitly or stored "
        "in the trajectory. Non-trivial if a bound is active somewhere and inactive elsewhere, or there are no "
        "bounds. Distinct by parameters.")
ASSUMPTIONS = ["minimum not above maximum", "demonstrations as in C11"]
QUICK = 3
required = ["within-bounds", "follows-phase-solution", "follows-phase-start", "follows-phase-step", "one-value-per-dim",
            "movement-unaffected", "trained-on-phase", "reproduces-schedules", "trajectory-carries-schedules"]


def bounds(rng, n, lo=-2.0, hi=2.0):
    kind = gen.choice(rng, ["none", "min", "max", "both", "both", "both", "zero-min", "zero-max", "fixed"])
    one = lambda a, b: rng.uniform(a, b, n) if gen.chance(rng) else float(rng.uniform(a, b))  # noqa: E731
    mn = mx = None
    if kind in ("min", "both"):
        mn = one(lo, 0)
    if kind in ("max", "both"):
        mx = one(0, hi)
    if kind == "zero-min":
        mn = gen.choice(rng, [0, 0.0, np.zeros(n)])
        mx = gen.choice(rng, [None, float(hi)])
    if kind == "zero-max":
        mx = gen.choice(rng, [0, 0.0, np.zeros(n)])
        mn = gen.choice(rng, [None, float(lo)])
    if kind == "fixed":
        mn = one(lo, hi)
        mx = gen.cp(mn)
    return mn, mx


def bounded(v, mn, mx):
    if mn is not None:
        v = np.maximum(v, mn)
    if mx is not None:
        v = np.minimum(v, mx)
    return v


def sched_specs(rng, n, only=None):
    out = []
    for _ in range(n):
        kind = only or gen.choice(rng, ["rbfn", "lwr", "wls", "gpr"])
        fs = dmpgen.fa_spec(rng, kind, bfs=int(rng.integers(3, 12)), reg=1e-6)
        x = np.linspace(-0.05, 1.05, 12 if kind == "gpr" else 30)
        if kind == "gpr":
            fs["lengths"] = 0.12
        out.append({"spec": fs, "x": x, "y": dmpgen.smooth_function(rng, 1, 1.0)(x)})
    return out


def sched_fas(specs):
    out = []
    for f in specs:
        fa = dmpgen.fa_build(f["spec"])
        fa.train(f["x"].copy(), f["y"].copy())
        out.append(fa)
    return out


def judge(mon, key, sched, phase, ref, mn, mx, shape, what):
    mon.must("one-value-per-dim", np.shape(sched) == shape, f"{what}: shape {np.shape(sched)} instead of {shape}")
    mon.ok("within-bounds", mn is None or np.all(sched >= np.asarray(mn)), f"{what}: below the minimum", got=sched, minimum=mn)
    mon.ok("within-bounds", mx is None or np.all(sched <= np.asarray(mx)), f"{what}: above the maximum", got=sched, maximum=mx)
    raw = np.stack([np.asarray(fa.predict(np.atleast_1d(phase).reshape(-1))).reshape(-1) for fa in ref], axis=1)
    want = bounded(raw, mn, mx).reshape(shape)
    mon.close(key, sched, want, rtol=1e-9, atol=1e-9 * gen.scale(raw), msg=f"{what}: schedules vs. bounded approximators at the phase")
    return raw, want


def use(rng, mon):
    s = dmpgen.dmp_spec(rng)
    n = int(rng.integers(1, 5))
    specs = sched_specs(rng, n, gen.choice(rng, [None, None, "rbfn", "lwr", "wls"]))
    mn, mx = bounds(rng, n)
    mon.describe(**dmpgen.brief(s), schedules=[f["spec"] for f in specs], min_schedules=mn, max_schedules=mx)
    kw = {}
    if mn is not None or gen.chance(rng):
        kw["min_schedules"] = gen.cp(mn)
    if mx is not None or gen.chance(rng):
        kw["max_schedules"] = gen.cp(mx)
    d = dmpgen.dmp_build(s, DmpWithSchedules, sched_fas(specs), **kw)
    plain = dmpgen.dmp_build(s)
    ref = sched_fas(specs)
    mon.ok("one-value-per-dim", d.dim_schedules() == n, "dim_schedules")
    tau = s["tau"]
    active = inactive = False
    hist = []
    for _ in range(int(rng.integers(2, 6))):
        op = gen.choice(rng, ["solution", "solution", "steps", "steps", "start", "tau", "goal", "params", "copy", "plain-step"])
        hist.append(op)
        if op == "solution":
            ts = gen.times(rng, tau, n=int(rng.integers(1, 60)) + 1)
            ts = ts if gen.chance(rng, 0.9) else np.zeros(1)
            with mon.untouched("arguments-untouched", ts):
                xs, xds, sch, ft, fo = d.analytical_solution_sched(ts)
            px = plain.analytical_solution(ts)
            for a, b, w in zip((xs, xds, ft, fo), px, ("states", "rates", "forcing terms", "outputs")):
                mon.close("movement-unaffected", a, b, rtol=1e-12, atol=0, msg=f"solution: {w} with and without schedules")
            raw, want = judge(mon, "follows-phase-solution", sch, xs[:, d.PHASE], ref, mn, mx, (ts.size, n), "solution")
            active |= bool(np.any(raw != want))
            inactive |= bool(np.any(raw == want))
            t = d.states_as_trajectory_sched(ts, xs, xds, sch) if ts.size > 2 else None
            if t is not None:
                mon.equal("trajectory-carries-schedules", t.misc, sch, "misc of the trajectory")
                u = plain.states_as_trajectory(ts, xs, xds)
                for a, b in ((t.ts, u.ts), (t.ys, u.ys), (t.yds, u.yds), (t.ydds, u.ydds)):
                    mon.equal("trajectory-carries-schedules", a, b, "trajectory with schedules")
        elif op in ("steps", "start"):
            y = gen.vec(rng, s["y_init"].size, -2, 2) if (gen.chance(rng, 0.2) and "NO_SCALING" not in s["type"] and s["custom"].get("goal") != "richards") else None
            if y is None:
                x, xd, sch = d.integrate_start_sched()
                p, pd = plain.integrate_start()
            else:
                x, xd, sch = d.integrate_start_sched(y.copy())
                p, pd = plain.integrate_start(y.copy())
            mon.close("movement-unaffected", x, p, rtol=1e-12, atol=0, msg="start: state")
            mon.close("movement-unaffected", xd, pd, rtol=1e-12, atol=0, msg="start: rate")
            judge(mon, "follows-phase-start", sch, x[d.PHASE], ref, mn, mx, (n,), "start")
            if op == "steps":
                for i in range(int(rng.integers(1, 40))):
                    dt = float(rng.uniform(0.005, 0.05)) * tau
                    keep = np.array(x)
                    x1, xd1, sch = d.integrate_step_sched(dt, x)
                    mon.equal("arguments-untouched", x, keep, "state handed to the step")
                    x = x1
                    p, pd = plain.integrate_step(dt, p)
                    mon.close("movement-unaffected", x, p, rtol=1e-11, atol=1e-12, msg="step: state")
                    mon.close("movement-unaffected", xd1, pd, rtol=1e-11, atol=1e-12 * gen.scale(pd), msg="step: rate")
                    raw, want = judge(mon, "follows-phase-step", sch, x[d.PHASE], ref, mn, mx, (n,), f"step {i}")
                    active |= bool(np.any(raw != want))
                    inactive |= bool(np.any(raw == want))
                    sch[:] = 99.0  # the caller's
        elif op == "tau":
            tau = gen.tau_(rng)
            d.tau = tau
            plain.tau = tau
        elif op == "goal":
            g = gen.away(rng, np.asarray(plain.y_init), 0.3, 2)
            d.y_attr = g.copy()
            plain.y_attr = g.copy()
        elif op == "params":
            kinds = {f["spec"]["kind"] for f in specs}
            if len(kinds) > 1 or "gpr" in kinds:
                continue
            names = {"rbfn": [["sched_weights"], ["sched_weights", "sched_centers"]], "lwr": [["sched_offsets"], ["sched_slopes", "sched_offsets"]],
                     "wls": [["sched_slope"]]}[kinds.pop()]
            names = gen.choice(rng, names)
            d.set_selected_param_names(names)
            plain.set_selected_param_names([])
            for fa in ref:
                fa.set_selected_param_names([x[len("sched_"):] for x in names])
            v = d.get_param_vector()
            mon.ok("one-value-per-dim", v.size == d.get_param_vector_size() == sum(fa.get_param_vector_size() for fa in ref), "selected schedule parameters")
            v = v + rng.normal(size=v.size) * 0.5
            d.set_param_vector(v.copy())
            off = 0
            for fa in ref:
                k = fa.get_param_vector_size()
                fa.set_param_vector(v[off:off + k].copy())
                off += k
        elif op == "copy":
            old = d
            d = copy.deepcopy(d)
            old.tau = 3.0 * tau
        elif op == "plain-step":
            x, _ = d.integrate_start()
            d.integrate_step(0.1 * tau, x)
            d.differential_equation(x)
    mon.describe(history=hist)
    if (active and inactive) or (mn is None and mx is None):
        mon.nontrivial(dmpgen.brief(s), [f["spec"] for f in specs], mn, mx, hist)


def train(rng, mon):
    n = int(rng.integers(1, 4))
    table = gen.chance(rng)
    t = dmpgen.demonstration(rng, misc=n, uniform=gen.chance(rng), n=int(rng.integers(100, 300)))
    explicit = gen.chance(rng)
    sched = t.misc.copy()
    if explicit:
        # what the trajectory carries besides (something else, or nothing) does not matter
        other = gen.choice(rng, [None, rng.normal(size=(t.length, n)), rng.normal(size=(t.length, n + 1))])
        t = Trajectory(t.ts, t.ys, t.yds, t.ydds, other)
    s = dmpgen.dmp_spec(rng, d=t.dim, custom=False, types=["KULVICIUS_2012_JOINING", "COUNTDOWN_2013", "SCT23", "SCT23_DAMPING"] + table * ["IJSPEERT_2002_MOVEMENT"], no_fa=0)
    mn, mx = bounds(rng, n, -1.5, 1.5)
    mon.describe(type=s["type"], scaling=s["scaling"], n_schedules=n, explicit=explicit, table=table, min_schedules=mn, max_schedules=mx)
    kw = dict(dmp_type=s["type"], forcing_term_scaling=s["scaling"], alpha_spring_damper=s["alpha"])
    fas = lambda: [dmpgen.fa_build(f["spec"]) for f in s["fas"]]  # noqa: E731
    if table:
        sfas = [RecordingFA() for _ in range(n)]
    else:
        sfas = [dmpgen.fa_build({"kind": "lwr", "n_bfs": 25, "height": 0.6, "reg": 1e-10}) for _ in range(n)]
    skw = dict(kw)
    if mn is not None:
        skw["min_schedules"] = gen.cp(mn)
    if mx is not None:
        skw["max_schedules"] = gen.cp(mx)
    if explicit:
        skw["schedules"] = sched.copy()
    misc0 = None if t.misc is None else t.misc.copy()
    with mon.untouched("arguments-untouched", t.ts, t.ys, t.yds, t.ydds, sched):
        if gen.chance(rng, 0.7):
            d = DmpWithSchedules.from_traj_sched(t, fas(), sfas, **skw)
        else:
            given = skw.pop("schedules", None)
            d = DmpWithSchedules(float(t.ts[-1]) * 2, t.ys[0] + 1.0, t.ys[-1] - 3.0, fas(), sfas, scaling_amplitudes=np.ones(t.dim), **skw)
            d.train_sched(t, given) if given is not None else d.train_sched(t)
    if misc0 is not None:
        mon.equal("arguments-untouched", t.misc, misc0, "misc of the demonstration")
    plain = Dmp.from_traj(t, fas(), **kw)
    xs, xds, sch, ft, fo = d.analytical_solution_sched() if gen.chance(rng) else d.analytical_solution_sched(t.ts)
    px = plain.analytical_solution(t.ts)
    for a, b, w in zip((xs, xds, ft, fo), px, ("states", "rates", "forcing terms", "outputs")):
        mon.close("movement-unaffected", a, b, rtol=1e-9, atol=1e-10 * gen.scale(b), msg=f"trained with and without schedules: {w}")
    phase = xs[:, d.PHASE].reshape(-1)
    want = bounded(sched, mn, mx)
    if table:
        for i, fa in enumerate(sfas):
            mon.must("trained-on-phase", len(fa.trained_on) >= 1, "schedule approximator was not trained")
            x, y, _ = fa.trained_on[-1]
            mon.close("trained-on-phase", x.reshape(-1), phase, rtol=1e-10, atol=1e-12, msg="inputs of the schedule approximator vs. phase")
            yy = y.reshape(-1)
            mon.close("trained-on-phase", bounded(yy, None if mn is None else np.broadcast_to(mn, n)[i], None if mx is None else np.broadcast_to(mx, n)[i]),
                      want[:, i], rtol=1e-10, atol=1e-12, msg="targets of the schedule approximator", dim=i)
        tol = 1e-8
    else:
        tol = 4e-2
    mon.close("reproduces-schedules", sch, want, rtol=0, atol=tol * gen.scale(np.ptp(sched, axis=0)), msg="schedules of the demonstration")
    # by steps along the times of the demonstration
    x, xd, c = d.integrate_start_sched()
    got = [c]
    for i in range(1, t.length):
        x, xd, c = d.integrate_step_sched(t.ts[i] - t.ts[i - 1], x)
        got.append(c)
    slope = np.max(np.abs(np.diff(sched, axis=0)))
    mon.close("reproduces-schedules", np.array(got), want, rtol=0, atol=tol * gen.scale(np.ptp(sched, axis=0)) + 2.2 * slope + 1e-3, msg="schedules of the demonstration by steps")
    mon.nontrivial(kw, n, explicit, table, mn, mx, float(t.ts[-1]))


def refuses(rng, mon):
    """No schedules anywhere, or the wrong number of them: an error, never a silent wrong training."""
    n = int(rng.integers(1, 4))
    t = dmpgen.demonstration(rng, misc=0)
    fas = [dmpgen.fa_build(dmpgen.fa_spec(rng, "rbfn", bfs=5, reg=1e-6)) for _ in range(t.dim)]
    s = [RecordingFA() for _ in range(n)]
    mon.raises("refuses-missing", ValueError, lambda: DmpWithSchedules.from_traj_sched(t, fas, s), "no schedules given")
    m = n + int(gen.choice(rng, [1, 2])) if gen.chance(rng) or n == 1 else n - 1
    bad = rng.normal(size=(t.length, m))
    mon.raises("refuses-missing", ValueError, lambda: DmpWithSchedules.from_traj_sched(t, fas, s, schedules=bad), f"{m} schedules for {n} approximators")
    mon.nontrivial(n, m, t.dim)


FAMILIES = {"use": (use, 160, 2500), "train": (train, 60, 800), "refuses": (refuses, 10, 60)}
CASE_TIMEOUT = 120
