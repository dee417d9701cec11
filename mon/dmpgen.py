"""Generators for function approximators, trajectories and DMPs (specs plus builders)."""
import numpy as np

from dmpbbo.dmps.Dmp import Dmp
from dmpbbo.dmps.Trajectory import Trajectory
from dmpbbo.dynamicalsystems.ExponentialSystem import ExponentialSystem
from dmpbbo.dynamicalsystems.RichardsSystem import RichardsSystem
from dmpbbo.dynamicalsystems.SigmoidSystem import SigmoidSystem
from dmpbbo.dynamicalsystems.SpringDamperSystem import SpringDamperSystem
from dmpbbo.dynamicalsystems.TimeSystem import TimeSystem
from dmpbbo.functionapproximators.FunctionApproximatorGPR import FunctionApproximatorGPR
from dmpbbo.functionapproximators.FunctionApproximatorLWR import FunctionApproximatorLWR
from dmpbbo.functionapproximators.FunctionApproximatorRBFN import FunctionApproximatorRBFN
from dmpbbo.functionapproximators.FunctionApproximatorWLS import FunctionApproximatorWLS

from mon import gen
from mon.gen import chance, choice

FA_KINDS = ["rbfn", "lwr", "wls", "gpr"]

# what set_selected_param_names may name
FA_PARAMS = {
    "rbfn": ["weights", "centers", "widths"],
    "lwr": ["offsets", "slopes", "centers", "widths"],
    "wls": ["slope", "offset"],
    "gpr": ["gram_inv_targets"],
}


def fa_spec(rng, kind=None, n_in=1, bfs=None, reg=None):
    kind = kind or choice(rng, FA_KINDS)
    s = {"kind": kind}
    if kind in ("rbfn", "lwr"):
        if n_in == 1:
            n = bfs or int(rng.integers(2, 12) if chance(rng, 0.92) else 1)
            s["n_bfs"] = n if chance(rng) else np.array([n])
        else:
            s["n_bfs"] = rng.integers(1 if chance(rng, 0.3) else 2, 5, n_in) if chance(rng, 0.7) else int(rng.integers(1 if chance(rng, 0.3) else 2, 4))
        s["height"] = float(rng.uniform(0.3, 0.9))
        # without regularization, a basis function without data makes the regression singular
        none = 0.0 if n_in == 1 else 1e-6
        s["reg"] = float(choice(rng, [none, 1e-8, 1e-3, 0.1])) if reg is None else reg
    elif kind == "wls":
        s["offset"] = chance(rng, 0.7)
        s["reg"] = float(choice(rng, [0.0, 1e-8, 1e-3, 0.1])) if reg is None else reg
    elif kind == "gpr":
        s["max_cov"] = float(rng.uniform(0.2, 4.0))
        s["lengths"] = float(rng.uniform(0.05, 0.4)) if (n_in == 1 or chance(rng)) else rng.uniform(0.05, 0.6, n_in)
    return s


def fa_build(s):
    k = s["kind"]
    if k == "rbfn":
        return FunctionApproximatorRBFN(gen.cp(s["n_bfs"]), s["height"], s["reg"])
    if k == "lwr":
        return FunctionApproximatorLWR(gen.cp(s["n_bfs"]), s["height"], s["reg"])
    if k == "wls":
        return FunctionApproximatorWLS(s["offset"], s["reg"])
    if k == "gpr":
        return FunctionApproximatorGPR(s["max_cov"], gen.cp(s["lengths"]))
    raise KeyError(k)


def smooth_function(rng, n_in=1, amp=1.0):
    w = rng.normal(size=(4, n_in)) * 2.5
    ph = rng.uniform(0, 6.28, 4)
    a = rng.normal(size=4) * amp
    c = rng.normal() * amp

    def f(x):
        x = np.asarray(x).reshape(len(x), -1)
        return c + np.sin(x @ w.T + ph) @ a
    return f


def fa_trained(rng, spec, n_in=1, lo=0.0, hi=1.0, amp=1.0, n=None):
    """Trained approximator together with its training data (so that it can be rebuilt)."""
    fa = fa_build(spec)
    n = n or int(rng.integers(15, 50))
    if spec["kind"] == "gpr":
        # well-conditioned: points not much closer than the length scale
        n = min(n, 15, max(5, int(2.5 / np.max(spec["lengths"])) + 1))
        X = np.stack([rng.permutation(np.linspace(lo, hi, n)) for _ in range(n_in)], axis=1)
    else:
        n = max(n, 6 * n_in)
        if n_in == 1:
            # every basis function gets data
            n = max(n, 3 * int(np.max(spec.get("n_bfs", 1))))
            X = (lo + (hi - lo) * (np.arange(n) + rng.uniform(0, 1, n)) / n)[rng.permutation(n)].reshape(-1, 1)
        else:
            X = rng.uniform(lo, hi, (n, n_in))
        X[0], X[1] = lo, hi
    y = smooth_function(rng, n_in, amp)(X)
    if n_in == 1 and chance(rng):
        X = X.reshape(-1)
    fa.train(X.copy(), y.copy())
    return fa, X, y


# --- trajectories (demonstrations)

def poly_bell(rng, ts, y0, y1, wiggle=1.0):
    """Smooth position profiles with their exact derivatives; starts and ends at rest."""
    T = ts[-1] - ts[0]
    s = (ts - ts[0]) / T
    n = y0.size
    mj = 10 * s ** 3 - 15 * s ** 4 + 6 * s ** 5
    mjd = (30 * s ** 2 - 60 * s ** 3 + 30 * s ** 4) / T
    mjdd = (60 * s - 180 * s ** 2 + 120 * s ** 3) / T ** 2
    b = (s * (1 - s)) ** 3
    bd = 3 * (s * (1 - s)) ** 2 * (1 - 2 * s) / T
    bdd = (6 * s * (1 - s) * (1 - 2 * s) ** 2 - 6 * (s * (1 - s)) ** 2) / T ** 2
    ys, yds, ydds = [], [], []
    for d in range(n):
        a = wiggle * rng.uniform(-30, 30)
        w = rng.uniform(0.5, 2.0) * 2 * np.pi
        p = rng.uniform(0, 6.28)
        c, cd, cdd = np.sin(w * s + p), w * np.cos(w * s + p) / T, -w * w * np.sin(w * s + p) / T ** 2
        ys.append(y0[d] + (y1[d] - y0[d]) * mj + a * b * c)
        yds.append((y1[d] - y0[d]) * mjd + a * (bd * c + b * cd))
        ydds.append((y1[d] - y0[d]) * mjdd + a * (bdd * c + 2 * bd * cd + b * cdd))
    return np.array(ys).T, np.array(yds).T, np.array(ydds).T


def demonstration(rng, n_dims=None, n=None, T=None, uniform=True, wiggle=1.0, misc=0, scales=False):
    d = n_dims or int(rng.integers(1, 4))
    T = T or float(choice(rng, [1.0, 0.5, 2.0, rng.uniform(0.3, 4.0)]))
    n = n or int(rng.integers(101, 220))
    ts = np.linspace(0, T, n)
    if not uniform:
        ts = ts + np.concatenate(([0.0], rng.uniform(-0.3, 0.3, n - 2) * T / n, [0.0]))
    y0 = gen.vec(rng, d, -2, 2)
    y1 = gen.away(rng, y0, 0.5, 2.0)
    ys, yds, ydds = poly_bell(rng, ts, y0, y1, wiggle)
    if scales and gen.chance(rng, 0.4):
        # dimensions with very small and very large movements
        k = 10 ** rng.uniform(-3.5, 2, d)
        ys, yds, ydds = y0 + k * (ys - y0), k * yds, k * ydds
    m = None
    if misc:
        ph = rng.uniform(0, 6.28, misc)
        m = np.sin(np.outer(ts / T * 3.0, np.arange(1, misc + 1)) + ph) * rng.uniform(0.5, 3.0)
    return Trajectory(ts, ys, yds, ydds, m)


# --- DMPs

DMP_TYPES = ["IJSPEERT_2002_MOVEMENT", "KULVICIUS_2012_JOINING", "COUNTDOWN_2013", "SCT23",
             "SCT23_NO_SCALING", "SCT23_DAMPING", "2022", "2022_NO_SCALING_DAMPING", "Ijs02", "Kul12"]
SCALINGS = ["NO_SCALING", "G_MINUS_Y0_SCALING", "AMPLITUDE_SCALING"]


def custom_systems(rng, s):
    """User-specified subsystems that override the defaults of the type."""
    tau, d = s["tau"], len(s["y_init"])
    out = {}
    if chance(rng, 0.35):
        out["goal"] = choice(rng, ["none", "exp", "richards"])
        out["goal_alpha"] = gen.per_dim(rng, d, 8.0, 20.0)
    if chance(rng, 0.35):
        out["phase"] = choice(rng, ["exp", "time", "timedown"])
        out["phase_alpha"] = float(rng.uniform(3, 6))
        out["phase_start"] = float(choice(rng, [1.0, rng.uniform(0.6, 1.5)]))
    if chance(rng, 0.35):
        out["gating"] = choice(rng, ["exp", "sigmoid", "richards"])
        out["gating_alpha"] = float(rng.uniform(4, 8))
        out["gating_start"] = float(choice(rng, [1.0, rng.uniform(0.4, 2.0)]))
        out["gating_ratio"] = float(rng.uniform(0.02, 0.3))
    if chance(rng, 0.3):
        out["spring_damping"] = gen.per_dim(rng, d, 15.0, 40.0)
        out["spring_mass"] = float(choice(rng, [1.0, rng.uniform(0.5, 2.0)]))
        out["spring_constant"] = (
            "CRITICALLY_DAMPED" if chance(rng, 0.6) else gen.per_dim(rng, d, 60.0, 300.0))
    if chance(rng, 0.3):
        # damping that is a system of its own, or explicitly none
        out["damping"] = choice(rng, ["none", "exp", "exp"])
        final = out.get("spring_damping", s["alpha"]) * rng.uniform(0.8, 1.4, d)
        out["damping_final"], out["damping_init"] = final, final * rng.uniform(0.1, 1.2, d)
        out["damping_alpha"] = gen.per_dim(rng, d, 2.0, 8.0)
    return out


def custom_kwargs(s):
    c, tau = s.get("custom") or {}, s["tau"]
    y0, g = s["y_init"], s["y_attr"]
    kw = {}
    if "goal" in c:
        if ("2022" in s["type"] or "SCT23" in s["type"]) and "NO_SCALING" not in s["type"]:
            # these types scale a goal system that runs from 0 to 1
            y0, g = np.zeros(y0.size), np.ones(y0.size)
        kw["goal_system"] = {
            "none": lambda: None,
            "exp": lambda: ExponentialSystem(tau, y0.copy(), g.copy(), gen.cp(c["goal_alpha"])),
            "richards": lambda: RichardsSystem(tau, y0.copy(), g.copy(), 0.3, 10.0, 1.0),
        }[c["goal"]]()
    y0, g = s["y_init"], s["y_attr"]
    if "phase" in c:
        kw["phase_system"] = {
            "exp": lambda: ExponentialSystem(tau, np.full(1, c.get("phase_start", 1.0)), np.zeros(1), c["phase_alpha"]),
            "time": lambda: TimeSystem(tau, False),
            "timedown": lambda: TimeSystem(tau, True),
        }[c["phase"]]()
    if "gating" in c:
        kw["gating_system"] = {
            "exp": lambda: ExponentialSystem(tau, np.full(1, c.get("gating_start", 1.0)), np.zeros(1), c["gating_alpha"]),
            "sigmoid": lambda: SigmoidSystem.for_gating(tau, c["gating_ratio"]),
            "richards": lambda: RichardsSystem(tau, np.ones(1), np.zeros(1), 1.0, 10.0, 10.0),
        }[c["gating"]]()
    if "damping" in c:
        kw["damping_system"] = None if c["damping"] == "none" else ExponentialSystem(
            tau, c["damping_init"].copy(), c["damping_final"].copy(), gen.cp(c["damping_alpha"]))
    if "spring_damping" in c:
        kw["transformation_system"] = SpringDamperSystem(
            tau, y0.copy(), g.copy(), gen.cp(c["spring_damping"]), gen.cp(c["spring_constant"]),
            c["spring_mass"])
    return kw


def dmp_spec(rng, d=None, types=None, scalings=None, custom=True, kinds=("rbfn", "lwr"), amp=None,
             no_fa=0.1, partial=0.0):
    d = d or int(rng.integers(1, 5))
    s = {"tau": gen.tau_(rng), "y_init": gen.vec(rng, d, -2, 2)}
    s["y_attr"] = gen.away(rng, s["y_init"], 0.3, 2.0)
    s["type"] = choice(rng, types or DMP_TYPES)
    s["scaling"] = choice(rng, scalings or SCALINGS)
    s["amplitudes"] = rng.uniform(0.5, 2.0, d) if s["scaling"] == "AMPLITUDE_SCALING" else None
    s["alpha"] = float(choice(rng, [20.0, rng.uniform(15, 40)]))
    s["custom"] = custom_systems(rng, s) if (custom and chance(rng, 0.5)) else {}
    if chance(rng, no_fa):
        s["fas"] = None
    else:
        amp = amp if amp is not None else float(choice(rng, [5.0, 50.0, 300.0]))
        fas = []
        for _ in range(d):
            fs = fa_spec(rng, choice(rng, kinds), bfs=int(rng.integers(3, 12)), reg=1e-6)
            x = np.linspace(0, 1, 25)
            if fs["kind"] == "gpr":
                x = np.linspace(0, 1, 10)
                fs["lengths"] = 0.1
            fas.append({"spec": fs, "x": x, "y": smooth_function(rng, 1, amp)(x)})
        s["fas"] = fas
        if d > 1 and partial and chance(rng, partial):
            # not all approximators have been trained
            for i in rng.permutation(d)[:int(rng.integers(1, d))]:
                fas[i]["untrained"] = True
    return s


CPP_TYPES = ["IJSPEERT_2002_MOVEMENT", "KULVICIUS_2012_JOINING", "COUNTDOWN_2013", "Ijs02", "Kul12"]


def cpp_spec(rng, **kw):
    """Only what the C++ implementation has: no Richards systems, no damping systems, scalar parameters."""
    kw.setdefault("types", CPP_TYPES)
    s = dmp_spec(rng, kinds=("rbfn", "lwr"), **kw)
    c = s["custom"]
    c.pop("damping", None)
    for k in ("goal_alpha", "spring_damping", "spring_constant"):
        if k in c and not isinstance(c[k], str):
            c[k] = float(np.mean(c[k]))
    if c.get("goal") == "richards":
        c["goal"] = "exp"
    if c.get("gating") == "richards":
        c["gating"] = "sigmoid"
    return s


def dmp_fas(s):
    if s["fas"] is None:
        return None
    out = []
    for f in s["fas"]:
        fa = fa_build(f["spec"])
        if not f.get("untrained"):
            fa.train(f["x"].copy(), f["y"].copy())
        out.append(fa)
    return out


def dmp_build(s, cls=Dmp, *extra, **kw_extra):
    kw = dict(dmp_type=s["type"], forcing_term_scaling=s["scaling"], alpha_spring_damper=s["alpha"])
    if s["amplitudes"] is not None:
        kw["scaling_amplitudes"] = s["amplitudes"].copy()
    kw.update(custom_kwargs(s))
    kw.update(kw_extra)
    # the caller keeps using its arrays
    start, goal = s["y_init"].copy(), s["y_attr"].copy()
    dmp = cls(s["tau"], start, goal, dmp_fas(s), *extra, **kw)
    start += 1e3
    goal -= 1e3
    return dmp


def dmp_untrained(rng, **kw):
    s = dmp_spec(rng, **kw)
    return dmp_build(s), brief(s)


def brief(s):
    """The spec without the bulk, for witnesses."""
    b = {k: v for k, v in s.items() if k != "fas"}
    b["fas"] = None if s["fas"] is None else ["untrained" if f.get("untrained") else f["spec"] for f in s["fas"]]
    return b


def stepped(d, ts, method=None, x0=None):
    """Roll a DMP out step by step; returns states and rates."""
    x, xd = d.integrate_start() if x0 is None else x0
    xs, xds = [np.array(x)], [np.array(xd)]
    for i in range(1, len(ts)):
        dt = ts[i] - ts[i - 1]
        x, xd = getattr(d, method or "integrate_step")(dt, x)
        xs.append(np.array(x))
        xds.append(np.array(xd))
    return np.array(xs), np.array(xds)


def decoupled(mon, dmp):
    """After decoupling, every subsystem of a DMP has one value per dimension for each parameter."""
    for system in ("_spring_system", "_goal_system", "_damping_system"):
        sub = getattr(dmp, system, None)
        for nm in ("alpha", "max_rate", "damping_coefficient", "spring_constant", "mass", "t_infl_ratio", "v"):
            v = getattr(sub, nm, None)
            if v is not None and not callable(v):
                mon.ok("decoupled", np.shape(v) == (sub.dim_y,), "shape of a parameter of a decoupled DMP",
                       system=system, name=nm, got=np.shape(v), dim=sub.dim_y)
