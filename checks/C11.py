"""C11 A DMP trained on a demonstration reproduces it."""
import copy

import numpy as np

from dmpbbo.dmps.Dmp import Dmp
from mon import dmpgen, gen
from mon.recorder import RecordingFA

RULE = ("A case is a smooth demonstration (1-3 dimensions, 0.3-4 s, uniform or jittered times, at rest at both "
        "ends) and a DMP type, forcing term scaling and approximator; trained by from_traj or by train() after an "
        "arbitrary earlier life. Families: reproduction with radial basis functions, with a recording "
        "interpolating approximator (targets and inputs checked one by one), independence from the past. "
        "Non-trivial if the demonstration differs clearly from the unforced movement. Distinct by demonstration and type.")
ASSUMPTIONS = ["demonstrations start at time 0, move in every dimension, and start and end at rest",
               "at least 30 basis functions, and demonstrations with a few oscillations at most"]
required = ["takes-over", "targets", "inputs-are-phase", "reproduces-positions", "reproduces-velocities",
            "reproduces-accelerations", "independent-of-past", "demonstration-untouched"]

TYPES = ["IJSPEERT_2002_MOVEMENT", "KULVICIUS_2012_JOINING", "COUNTDOWN_2013", "SCT23", "SCT23_NO_SCALING",
         "SCT23_DAMPING", "2022", "2022_NO_SCALING_DAMPING"]


def traj_args(t):
    return [t.ts, t.ys, t.yds, t.ydds]


def rel(a, b):
    return np.max(np.abs(a - b), axis=0) / np.maximum(np.ptp(b, axis=0), 1e-9)


def takes_over(mon, d, t):
    mon.close("takes-over", d.tau, t.ts[-1], rtol=1e-12, msg="tau vs duration of the demonstration")
    mon.close("takes-over", d.y_init, t.ys[0], rtol=1e-12, atol=1e-13, msg="initial position")
    mon.close("takes-over", d.y_attr, t.ys[-1], rtol=1e-12, atol=1e-13, msg="goal")
    mon.close("takes-over", d.ts_train, t.ts, rtol=0, atol=0, msg="times")
    x, _ = d.integrate_start()
    mon.close("takes-over", d.states_as_pos_vel_acc(x, x)[0], t.ys[0], rtol=1e-12, atol=1e-12, msg="start of integration")


def forcing_reference(d, s, t):
    """The forcing term that makes the transformation system follow the demonstration."""
    n = t.dim
    X = d.analytical_solution(t.ts)[0]
    goal = X[:, d.GOAL]
    if ("2022" in s["type"] or "SCT23" in s["type"]) and "NO_SCALING" not in s["type"] and s["custom"].get("goal") != "none":
        goal = t.ys[0] + (t.ys[-1] - t.ys[0]) * goal
    c = s["custom"]
    m = 1.0
    if "spring_damping" in c:
        cd = np.broadcast_to(np.asarray(c["spring_damping"], float), (n,))
        m = c["spring_mass"]
        k = cd * cd / (4 * m) if isinstance(c["spring_constant"], str) else np.broadcast_to(np.asarray(c["spring_constant"], float), (n,))
    else:
        k = np.full(n, s["alpha"] ** 2 / 4)
    damp = X[:, d.DAMPING]
    tau = t.ts[-1]
    f = tau ** 2 * t.ydds + (k * (t.ys - goal) + damp * tau * t.yds) / m
    f = f / X[:, d.GATING].reshape(-1, 1)
    if s["scaling"] == "G_MINUS_Y0_SCALING":
        f = f / (t.ys[-1] - t.ys[0])
    elif s["scaling"] == "AMPLITUDE_SCALING":
        f = f / (t.ys.max(axis=0) - t.ys.min(axis=0))
    return f, X[:, d.PHASE].reshape(-1)


def spec_for(rng, t, types=None, custom=True):
    s = dmpgen.dmp_spec(rng, d=t.dim, types=types or TYPES, custom=custom, no_fa=0)
    s["tau"], s["y_init"], s["y_attr"], s["fas"], s["amplitudes"] = float(t.ts[-1]), t.ys[0].copy(), t.ys[-1].copy(), None, None
    if "gating" in s["custom"]:
        # a gating that has not vanished by the end of the demonstration
        s["custom"]["gating_alpha"] = min(s["custom"]["gating_alpha"], 5.0)
        s["custom"]["gating_ratio"] = max(s["custom"]["gating_ratio"], 0.05)
    return s


def kwargs_of(s):
    kw = dict(dmp_type=s["type"], forcing_term_scaling=s["scaling"], alpha_spring_damper=s["alpha"])
    kw.update(dmpgen.custom_kwargs(s))
    return kw


def targets(rng, mon):
    """A recording approximator: what it is trained on, and the exact reproduction by interpolation."""
    t = dmpgen.demonstration(rng, uniform=gen.chance(rng), n=int(rng.integers(200, 500)), scales=True)
    s = spec_for(rng, t)
    mon.describe(**dmpgen.brief(s))
    fas = [RecordingFA() for _ in range(t.dim)]
    kw = kwargs_of(s)
    with mon.untouched("demonstration-untouched", *traj_args(t)):
        if gen.chance(rng):
            d = Dmp.from_traj(t, fas, **kw)
        else:
            # constructed for something else first
            s0 = dict(s, tau=s["tau"] * 1.7, y_init=s["y_init"] - 0.4, y_attr=s["y_attr"] + 0.3)
            kw0 = dict(kw)
            kw0.update(dmpgen.custom_kwargs(s0))
            if s["scaling"] == "AMPLITUDE_SCALING":
                kw0["scaling_amplitudes"] = np.full(t.dim, 0.7)
            d = Dmp(s0["tau"], s0["y_init"], s0["y_attr"], fas, **kw0)
            d.integrate_start()
            d.analytical_solution(np.linspace(0, 1, 20))
            d.train(t)
    takes_over(mon, d, t)
    # without times, the solution is for the times of the demonstration, also if they are uneven
    for a, b in zip(d.analytical_solution(), d.analytical_solution(t.ts.copy())):
        mon.close("takes-over", a, b, rtol=1e-12, atol=1e-12 * gen.scale(b), msg="solution at the times of the demonstration")
    f, phase = forcing_reference(d, s, t)
    for i, fa in enumerate(fas):
        mon.must("targets", len(fa.trained_on) >= 1, "approximator was not trained")
        x, y, _ = fa.trained_on[-1]
        mon.close("inputs-are-phase", x.reshape(-1), phase, rtol=1e-9, atol=1e-10, msg="inputs of the approximator vs phase")
        mon.close("targets", y.reshape(-1), f[:, i], rtol=1e-7, atol=1e-8 * np.max(np.abs(f[:, i])) + 1e-9 * np.max(np.abs(t.ys[:, i])), msg="targets vs. forcing term", dim=i)
    # an interpolating approximator makes the transformation system follow the demonstration
    ts = np.linspace(0, t.ts[-1], 801)
    xs, xds = dmpgen.stepped(d, ts)
    ys, yds, ydds = d.states_as_pos_vel_acc(xs, xds)
    for key, got, dem, tol in (("positions", ys, t.ys, 0.003), ("velocities", yds, t.yds, 0.01), ("accelerations", ydds, t.ydds, 0.05)):
        w = np.stack([np.interp(ts, t.ts, dem[:, i]) for i in range(t.dim)], axis=1)
        e = rel(got, w)
        mon.ok(f"reproduces-{key}", np.all(e < tol), f"{key} of the steps deviate from the demonstration", error=e, tol=tol)
    mon.nontrivial(s["type"], s["scaling"], t.ys)


def reproduce(rng, mon):
    t = dmpgen.demonstration(rng, n=int(rng.integers(200, 400)), wiggle=float(rng.uniform(0.1, 1)), scales=True)
    s = spec_for(rng, t, custom=gen.chance(rng, 0.4))
    kind = gen.choice(rng, ["rbfn", "lwr"])
    n = int(rng.integers(30, 45))
    fas = [dmpgen.fa_build({"kind": kind, "n_bfs": n, "height": 0.8 if kind == "rbfn" else 0.6, "reg": 0.0 if kind == "lwr" else 1e-10})
           for _ in range(t.dim)]
    # an exponential phase has few basis functions per time at its end
    exp_phase = s["custom"].get("phase", "exp" if s["type"].startswith("IJ") else "time") == "exp"
    mon.describe(**dmpgen.brief(s), kind=kind, n=n)
    with mon.untouched("demonstration-untouched", *traj_args(t)):
        d = Dmp.from_traj(t, fas, **kwargs_of(s))
    takes_over(mon, d, t)
    xs, xds, _, _ = d.analytical_solution()
    r = d.states_as_trajectory(t.ts, xs, xds)
    mon.close("takes-over", r.ts, t.ts, rtol=0, atol=0)
    ts = np.linspace(0, t.ts[-1], 401)
    xs2, xds2 = dmpgen.stepped(d, ts)
    ys2, yds2, ydds2 = d.states_as_pos_vel_acc(xs2, xds2)
    for what, got, at, k in (("solution", (r.ys, r.yds, r.ydds), t.ts, 0.035), ("steps", (ys2, yds2, ydds2), ts, 0.01)):
        for key, g, dem, tol in zip(("positions", "velocities", "accelerations"), got, (t.ys, t.yds, t.ydds), (0.15, 0.6, 0.6) if exp_phase else (k, 0.08, 0.25)):
            w = np.stack([np.interp(at, t.ts, dem[:, i]) for i in range(t.dim)], axis=1)
            e = rel(g, w)
            if key == "accelerations":
                # the largest errors are short: judged by their root mean square
                e = np.sqrt(np.mean((g - w) ** 2, axis=0)) / np.maximum(np.ptp(w, axis=0), 1e-9)
            mon.ok(f"reproduces-{key}", np.all(e < tol), f"{key} ({what}) deviate from the demonstration", error=e, tol=tol)
    mon.nontrivial(s["type"], s["scaling"], kind, n, t.ys)


def past(rng, mon):
    """Training depends on nothing but the demonstration and the construction arguments."""
    dim = int(rng.integers(1, 4))
    t = dmpgen.demonstration(rng, n_dims=dim, n=101)
    s = spec_for(rng, t)
    kind = gen.choice(rng, ["rbfn", "lwr"])
    fs = {"kind": kind, "n_bfs": int(rng.integers(5, 15)), "height": 0.6, "reg": 1e-6}
    mon.describe(**dmpgen.brief(s), fa=fs)

    def fas():
        return [dmpgen.fa_build(fs) for _ in range(dim)]
    ref = Dmp.from_traj(t, fas(), **kwargs_of(s))
    s0 = dict(s, tau=gen.tau_(rng), y_init=gen.vec(rng, dim, -2, 2))
    s0["y_attr"] = gen.away(rng, s0["y_init"], 0.5, 2)
    kw = kwargs_of(s)
    kw.update(dmpgen.custom_kwargs(s0))
    if s["scaling"] == "AMPLITUDE_SCALING":
        kw["scaling_amplitudes"] = np.full(dim, 0.7)  # training determines them anew
    before = fas()
    replaced = gen.chance(rng, 0.4)
    if replaced and gen.chance(rng):
        # others before, of another kind and size
        before = [dmpgen.fa_build({"kind": "rbfn", "n_bfs": fs["n_bfs"] // 2, "height": 0.8, "reg": 1e-3}) for _ in range(dim)]
    d = Dmp(s0["tau"], s0["y_init"].copy(), s0["y_attr"].copy(), before, **kw)
    hist = []
    for _ in range(int(rng.integers(1, 7))):
        op = gen.choice(rng, ["train", "train", "tau", "start", "goal", "steps", "solve", "params"])
        hist.append(op)
        if op == "train":
            d.train(dmpgen.demonstration(rng, n_dims=dim, n=int(rng.integers(60, 120))))
        elif op == "tau":
            d.tau = gen.tau_(rng)
        elif op == "start":
            d.integrate_start(d.y_attr + gen.away(rng, np.zeros(dim), 0.5, 2))
        elif op == "goal":
            d.y_attr = gen.away(rng, np.array(d.y_init), 0.5, 2)
        elif op == "steps":
            dmpgen.stepped(d, np.linspace(0, 0.3 * d.tau, 6))
        elif op == "solve":
            d.analytical_solution(np.linspace(0, d.tau, 12))
        elif op == "params" and d.get_param_vector_size() == 0:
            d.set_selected_param_names(["widths"])
    if replaced:
        d.train(t, function_approximators=fas())  # approximators handed in for the training
        hist.append("new approximators")
    else:
        d.train(t)
    times = t.ts.copy()
    ts = np.linspace(0, 1.4 * t.ts[-1], 80)
    a, b = d.analytical_solution(ts), ref.analytical_solution(ts)
    for g, e, w in zip(a, b, ("states", "rates", "forcing terms", "approximator outputs")):
        mon.close("independent-of-past", g, e, rtol=1e-5, atol=1e-6 * gen.scale(e), msg=f"{w} after history vs. fresh", history=hist)
    x, _ = dmpgen.stepped(d, ts[:25])
    y, _ = dmpgen.stepped(ref, ts[:25])
    mon.close("independent-of-past", x, y, rtol=1e-5, atol=1e-6 * gen.scale(y), msg="steps after history", history=hist)
    # training again with the same data changes nothing, nor does the demonstration keep a hold on the DMP
    d.train(t)
    c = d.analytical_solution(ts)
    mon.close("independent-of-past", c[0], a[0], rtol=1e-8, atol=1e-8 * gen.scale(a[0]), msg="training twice")
    keep = copy.deepcopy(t)
    for arr in traj_args(t):
        arr += 1.0
    c2 = d.analytical_solution(ts)
    mon.close("independent-of-past", c2[0], c[0], rtol=1e-12, atol=1e-12 * gen.scale(c[0]), msg="after the caller changed the demonstration")
    mon.equal("times-of-demonstration", d.ts_train, times, "times of the demonstration")
    c3, c4 = d.analytical_solution(), d.analytical_solution(times)
    for g, e in zip(c3, c4):
        mon.equal("times-of-demonstration", g, e, "movement at the times of the demonstration")
    other = dmpgen.demonstration(rng, n_dims=dim + 1, n=30)
    mon.raises("other-dimensions", ValueError, lambda: copy.deepcopy(d).train(other), "demonstration with another number of dimensions")
    mon.nontrivial(s["type"], hist, keep.ys)


FAMILIES = {"targets": (targets, 50, 600), "reproduce": (reproduce, 50, 600), "past": (past, 60, 700)}
CASE_TIMEOUT = 120
