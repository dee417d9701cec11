"""C24 Saving and loading an object preserves its behaviour."""
import copy
import json
import os
import tempfile
from pathlib import Path

import numpy as np

import dmpbbo.json_for_cpp as jc
from checks.C18 import costs_
from checks.C19 import covariance, updater
from dmpbbo.bbo.DistributionGaussian import DistributionGaussian
from dmpbbo.bbo.DistributionGaussianBounded import DistributionGaussianBounded
from dmpbbo.bbo_of_dmps.TaskSolverDmp import TaskSolverDmp
from dmpbbo.dmps.Dmp import Dmp
from dmpbbo.dmps.DmpContextualTwoStep import DmpContextualTwoStep
from dmpbbo.dmps.DmpWithSchedules import DmpWithSchedules
from dmpbbo.dmps.Trajectory import Trajectory
from mon import dmpgen, gen
from mon.core import snapshot

RULE = ("A case is an object (dynamical system of every kind, approximator of every kind trained or not, DMP, DMP with schedules, contextual DMP, task "
        "solver, distribution, updater, trajectory), used and changed at random before it is saved; then the original and the loaded one (after one to "
        "three trips) get the same random sequence of queries and changes, and every output is compared. Non-trivial if the object was changed or queried after "
        "loading. Distinct by object and sequence.")
ASSUMPTIONS = ["equality to within 1e-9 relative", "objects are saved with json_for_cpp.savejson and loaded with loadjson"]
required = ["saving-untouched", "same-content", "same-output", "independent", "cpp-untouched", "cpp-plain"]


def norm(o):
    """Outputs as nested lists of arrays."""
    if o is None:
        return None
    if isinstance(o, (tuple, list)):
        return [norm(x) for x in o]
    if isinstance(o, str):
        return o
    if isinstance(o, Trajectory):
        return [norm(x) for x in (o.ts, o.ys, o.yds, o.ydds, o.misc)]
    if isinstance(o, DistributionGaussian):
        return [norm(o.mean), norm(o.covar), norm(getattr(o, "lower_bound", None)), norm(getattr(o, "upper_bound", None))]
    return np.asarray(o, dtype=float)


def compare(mon, key, a, b, msg, **w):
    if isinstance(b, list):
        if mon.ok(key, isinstance(a, list) and len(a) == len(b), f"{msg}: structure", **w):
            for x, y in zip(a, b):
                compare(mon, key, x, y, msg, **w)
    elif b is None or isinstance(b, str):
        mon.ok(key, type(a) is type(b) and a == b, msg, got=a, expected=b, **w)
    elif mon.ok(key, isinstance(a, np.ndarray) and a.shape == b.shape, f"{msg}: shape", **w):
        if not np.array_equal(a, b, equal_nan=True):
            mon.close(key, a, b, rtol=1e-9, atol=1e-10 * gen.scale(b), msg=msg, **w)
        else:
            mon.event(key)


def apply(op, o):
    """Output of an operation, or the kind of exception it raises (which must then be the same)."""
    try:
        return norm(op(o))
    except (ValueError, RuntimeError, KeyError, TypeError, IndexError, AttributeError, np.linalg.LinAlgError) as e:
        return f"raised {type(e).__name__}"


# --- operations: name, function of the object

def system_ops(rng, s):
    n = gen.system_size(s) if s["kind"] != "spring" else s["y_init"].size
    pick = gen.choice(rng, ["solve", "solve", "steps", "rate", "tau", "init", "attr", "special"])
    ts = gen.times(rng, s["tau"], n=12)
    tau = gen.tau_(rng)
    v = rng.uniform(0.2, 3.0, n)
    dt = float(s["tau"] / 30)
    X = rng.uniform(0.05, 0.9, (1, 64))

    def steps(o):
        x, xd = o.integrate_start()
        out = [x, xd]
        for _ in range(10):
            x, xd = o.integrate_step(dt, x)
            out += [x, xd]
        return out

    def special(o):
        if s["kind"] == "time":
            o.count_down = not o.count_down
            return o.count_down
        if s["kind"] == "sigmoid":
            o.max_rate = o.max_rate * 1.3
            return o.max_rate
        return [o.dim_x, o.dim_y]

    def set_(name, val):
        def f(o):
            if hasattr(type(o), name):
                setattr(o, name, val.copy() if isinstance(val, np.ndarray) else val)
                return getattr(o, name)
            return None
        return f
    return pick, {
        "solve": lambda o: o.analytical_solution(ts), "steps": steps, "special": special,
        "rate": lambda o: o.differential_equation(X[0, :o.dim_x]), "tau": set_("tau", tau), "attr": set_("y_attr", v + 4.0),
        "init": (lambda o: None) if s["kind"] in ("time", "gating") else set_("y_init", v),
    }[pick]


def fa_ops(rng, kind, n_in):
    pick = gen.choice(rng, ["predict", "predict", "select", "get", "set", "size", "train"])
    X = rng.uniform(-0.5, 1.5, (int(rng.integers(1, 20)), n_in))
    names = gen.choice(rng, dmpgen.FA_PARAMS[kind] + [dmpgen.FA_PARAMS[kind]])
    k = float(rng.uniform(0.7, 1.3))
    Xt = rng.uniform(0, 1, (20, n_in))
    if kind == "gpr":
        Xt = np.stack([rng.permutation(np.linspace(0, 1, 12)) for _ in range(n_in)], axis=1)
    yt = dmpgen.smooth_function(rng, n_in)(Xt)
    return pick, {
        "predict": lambda o: o.predict(X), "size": lambda o: [o.get_param_vector_size(), float(o.is_trained())],
        "select": lambda o: o.set_selected_param_names(copy.copy(names)), "get": lambda o: o.get_param_vector(),
        "set": lambda o: [o.set_param_vector(np.array(o.get_param_vector()) * k), o.get_param_vector()],
        "train": lambda o: [bool(o.train(Xt.copy(), yt.copy())), o.predict(X)],
    }[pick]


def dmp_ops(rng, s, sched=False):
    d = s["y_init"].size
    pick = gen.choice(rng, ["solve", "solve", "steps", "tau", "goal", "start", "select", "get", "set", "traj", "train", "rate", "ts_train"] + ["sched"] * (4 * sched))
    tau = gen.tau_(rng)
    g, y = 5.0 + rng.uniform(0, 2, d), rng.uniform(-2, 2, d)
    k = float(rng.uniform(0.8, 1.2))
    rows = rng.uniform(0.05, 1.0, (1, 64))
    demo = dmpgen.demonstration(rng, n_dims=d, n=80)
    names = gen.choice(rng, ["goal", ["goal"], ["weights"], ["weights", "goal"], ["centers"], ["widths", "centers"]])

    def steps(o):
        x, xd = o.integrate_start_sched()[:2] if sched else o.integrate_start()
        out = [x, xd]
        for _ in range(12):
            r = o.integrate_step_sched(tau / 40, x) if sched else o.integrate_step(tau / 40, x)
            x = r[0]
            out += list(r)
        return out

    def set_(name, val):
        def f(o):
            setattr(o, name, val.copy() if isinstance(val, np.ndarray) else val)
            return [o.tau, o.y_init, o.y_attr]
        return f

    def train(o):
        o.train(copy.deepcopy(demo))
        return o.analytical_solution()
    ts = np.linspace(0, 1.4 * tau, 15)
    return pick, {
        "solve": lambda o: o.analytical_solution(ts), "steps": steps, "tau": set_("tau", tau), "goal": set_("y_attr", g), "start": set_("y_init", y),
        "select": lambda o: [o.set_selected_param_names(copy.copy(names)), o.get_param_vector_size()],
        "get": lambda o: o.get_param_vector(), "set": lambda o: [o.set_param_vector(np.array(o.get_param_vector()) * k), o.get_param_vector()],
        "traj": lambda o: o.states_as_trajectory(ts, *o.analytical_solution(ts)[:2]), "train": train,
        "rate": lambda o: o.differential_equation(rows[0, :o.dim_x]), "ts_train": lambda o: o.analytical_solution(o.ts_train),
        "sched": lambda o: o.analytical_solution_sched(ts),
    }[pick]


def contextual_ops(rng, d, tau):
    p = rng.uniform(0, 1, (1, 1))
    ts = np.linspace(0, 1.2 * tau, 12)
    pick = gen.choice(rng, ["solve", "steps", "set", "tau"])
    t2 = gen.tau_(rng)

    def steps(o):
        x, xd = o.integrate_start(p)
        out = [x, xd]
        for _ in range(8):
            x, xd = o.integrate_step(tau / 30, x)
            out += [x, xd]
        return out

    def settau(o):
        o.dmp.tau = t2
        return o.dmp.tau
    return pick, {"solve": lambda o: o.analytical_solution(p, ts), "steps": steps, "tau": settau,
                  "set": lambda o: [o.set_task_params(p), o.dmp.get_param_vector()]}[pick]


def dist_ops(rng, d):
    seed, n = int(rng.integers(2 ** 30)), int(rng.integers(1, 20))
    pick = gen.choice(rng, ["samples", "samples", "eigen", "mean", "str"])
    m = rng.normal(size=d)

    def samples(o):
        np.random.seed(seed)
        return o.generate_samples(n)

    def mean(o):
        o.mean = m.copy()
        return o
    return pick, {"samples": samples, "eigen": lambda o: o.max_eigen_value(), "mean": mean, "str": str}[pick]


def upd_ops(rng, d):
    n = int(rng.integers(2, 15))
    C, _ = covariance(rng, d)
    dist = DistributionGaussian(rng.normal(size=d), C + 0.01 * np.eye(d))
    X = rng.normal(size=(n, d))
    c = rng.normal(size=n)
    return "update", lambda o: list(o.update_distribution(copy.deepcopy(dist), X.copy(), c.copy()))


def traj_ops(rng, t):
    d, m = t.ys.shape[1], 0 if t.misc is None else t.misc.shape[1]
    other = dmpgen.demonstration(rng, n_dims=d, n=int(rng.integers(8, 20)), misc=m)
    pick = gen.choice(rng, ["matrix", "append", "prepend", "start", "duration", "dims", "pads", "get"])
    off = float(rng.uniform(-2, 2))

    def start(o):
        o.start_time_at_zero() if hasattr(o, "start_time_at_zero") else None
        return o
    return pick, {
        "matrix": lambda o: o.as_matrix(), "append": lambda o: [o.append(copy.deepcopy(other)), o], "prepend": lambda o: [o.prepend(copy.deepcopy(other)), o],
        "start": start, "duration": lambda o: [o.duration, o.length], "dims": lambda o: [o.dim, o.dim_misc], "get": lambda o: [o.y_init, o.y_final, o],
        "pads": lambda o: [o.append_pad(abs(off)) if hasattr(o, "append_pad") else None, o],
    }[pick]


def make(rng, mon):
    """An object, what makes operations for it, and its description."""
    k = gen.choice(rng, KINDS)
    if k == "system":
        s = gen.system_spec(rng, critical=True)
        return k, gen.build(s), lambda: system_ops(rng, s), s
    if k == "approximator":
        n_in = int(gen.choice(rng, [1, 1, 2]))
        s = dmpgen.fa_spec(rng, n_in=n_in)
        if gen.chance(rng, 0.15):
            return k, dmpgen.fa_build(s), lambda: fa_ops(rng, s["kind"], n_in), s
        fa, _, _ = dmpgen.fa_trained(rng, s, n_in)
        if gen.chance(rng, 0.3):
            X = rng.uniform(0, 1, (20, n_in)) if s["kind"] != "gpr" else np.stack([np.linspace(0, 1, 5)] * n_in, axis=1)
            fa.train(X, dmpgen.smooth_function(rng, n_in)(X), save_training_data=True)
        return k, fa, lambda: fa_ops(rng, s["kind"], n_in), s
    if k in ("dmp", "schedules", "trained-dmp"):
        s = dmpgen.dmp_spec(rng, partial=0.15, kinds=("rbfn",) if gen.chance(rng, 0.7) else ("rbfn", "lwr", "wls", "gpr"))
        if k == "schedules":
            sp = [dmpgen.fa_spec(rng, gen.choice(rng, ["rbfn", "lwr"])) for _ in range(2)]
            fas = [dmpgen.fa_trained(rng, x)[0] for x in sp]
            mn = gen.choice(rng, [None, -0.5, np.array([-0.3, -1.0])])
            mx = gen.choice(rng, [None, 0.5, np.array([0.6, 0.1])])
            return k, dmpgen.dmp_build(s, DmpWithSchedules, fas, min_schedules=mn, max_schedules=mx), lambda: dmp_ops(rng, s, True), dmpgen.brief(s)
        if k == "trained-dmp":
            t = dmpgen.demonstration(rng, n_dims=s["y_init"].size, n=90)
            fas = [dmpgen.fa_build(dmpgen.fa_spec(rng, "rbfn", reg=1e-6)) for _ in range(t.ys.shape[1])]
            kw = dict(dmp_type=s["type"], forcing_term_scaling=s["scaling"])
            return k, Dmp.from_traj(t, fas, save_training_data=gen.chance(rng), **kw), lambda: dmp_ops(rng, s), {**kw, "trained": True}
        return k, dmpgen.dmp_build(s), lambda: dmp_ops(rng, s), dmpgen.brief(s)
    if k == "contextual":
        d, tau = int(rng.integers(1, 3)), gen.tau_(rng)
        y0, g = rng.normal(size=d), 3 + rng.normal(size=d)
        ts = np.linspace(0, tau, 60)
        demos = []
        for p in np.linspace(0, 1, 4):
            q = Trajectory(ts, *dmpgen.poly_bell(np.random.default_rng(3), ts, y0, g + p, 1 + p))
            demos.append((np.array([p]), q))
        fas = [dmpgen.fa_build({"kind": "rbfn", "n_bfs": 5, "height": 0.7, "reg": 1e-6}) for _ in range(d)]
        ppf = dmpgen.fa_build({"kind": "rbfn", "n_bfs": 3, "height": 0.6, "reg": 1e-4})
        names = gen.choice(rng, ["weights", ["goal", "weights"]])
        c = DmpContextualTwoStep.from_trajs(demos, fas, names, ppf, save_training_data=gen.chance(rng, 0.3))
        return k, c, lambda: contextual_ops(rng, d, tau), {"n_dims": d, "tau": tau, "names": names}
    if k == "solver":
        s = dmpgen.dmp_spec(rng, no_fa=0.0, kinds=("rbfn",))
        dmp = dmpgen.dmp_build(s)
        dmp.set_selected_param_names("weights")
        n = dmp.get_param_vector_size()
        o = TaskSolverDmp(dmp, s["tau"] / 20, float(rng.uniform(0.8, 1.5)), False)

        def solver_ops():
            p = rng.normal(size=n)
            return "rollout", lambda o: o.perform_rollout(p.copy())
        return k, o, solver_ops, dmpgen.brief(s)
    d = int(rng.integers(1, 6))
    if k == "distribution":
        C, _ = covariance(rng, d)
        if gen.chance(rng):
            return k, DistributionGaussian(rng.normal(size=d), C), lambda: dist_ops(rng, d), {"covar": C}
        lo, hi = gen.choice(rng, [None, -0.2, rng.uniform(-1, 0, d)]), gen.choice(rng, [None, 0.3, rng.uniform(0, 1, d)])
        return k, DistributionGaussianBounded(rng.normal(size=d), C, lo, hi), lambda: dist_ops(rng, d), {"covar": C, "bounds": [lo, hi]}
    if k == "updater":
        u = updater(rng, d)[2]()
        return k, u, lambda: upd_ops(rng, d), {"type": type(u).__name__, **vars(u)}
    t = dmpgen.demonstration(rng, n=int(rng.integers(5, 40)), uniform=gen.chance(rng), misc=int(rng.integers(0, 3)))
    return k, t, lambda: traj_ops(rng, t), {"dims": t.ys.shape}


KINDS = ["system"] * 4 + ["approximator"] * 4 + ["dmp"] * 4 + ["trained-dmp"] * 2 + ["schedules"] * 2 + ["contextual", "solver", "distribution", "updater", "trajectory"]


def trip(mon, o, f):
    with mon.untouched("saving-untouched", o):
        jc.savejson(f, o)
    return jc.loadjson(f)


def trips(rng, mon):
    kind, o, ops, desc = make(rng, mon)
    hist = []
    mon.describe(kind=kind, object=desc)
    for _ in range(int(rng.integers(0, 4))):
        name, op = ops()
        hist.append(name)
        apply(op, o)
    d = Path(tempfile.mkdtemp(dir=mon.ctx.scratch))
    f = d / "o.json"
    f = str(f) if gen.chance(rng) else f
    b = trip(mon, o, f)
    mon.ok("same-kind", type(b) is type(o), "type of the object loaded", got=type(b).__name__, expected=type(o).__name__)
    g = d / "p.json"
    for _ in range(int(rng.integers(1, 3))):
        b = trip(mon, b, g)
        # as objects: the numbering of references within the file is free
        mon.ok("same-content", snapshot(jc.loadjson(g)) == snapshot(jc.loadjson(f)), "saving what was loaded gives other content")
    hist.append("saved")
    changed = False
    for _ in range(int(rng.integers(3, 12))):
        name, op = ops()
        hist.append(name)
        # the loaded object is changed first: it must not share anything with the original
        if gen.chance(rng):
            y, x = apply(op, b), apply(op, o)
        else:
            x, y = apply(op, o), apply(op, b)
        compare(mon, "same-output", y, x, f"loaded {kind} vs. original: {name}", history=hist)
        changed = True
    # saved again after the changes
    c = trip(mon, b, g)
    for _ in range(3):
        name, op = ops()
        hist.append(name)
        compare(mon, "same-output", apply(op, c), apply(op, o), f"loaded again: {name}", history=hist)
    # two objects loaded from one file are independent
    u, v = jc.loadjson(g), jc.loadjson(g)
    for _ in range(4):
        apply(ops()[1], u)
    w = jc.loadjson(g)
    for _ in range(2):
        name, op = ops()
        compare(mon, "independent", apply(op, v), apply(op, w), f"loaded twice from one file: {name}", history=hist)
    if changed:
        mon.nontrivial(kind, desc, hist)
    mon.describe(history=hist)
    for p in (f, g):
        os.remove(p)
    d.rmdir()


def for_cpp(rng, mon):
    """Saving for C++ does not modify the object, is plain JSON and has no references."""
    kind, o, ops, desc = make(rng, mon)
    if kind in ("contextual", "updater", "distribution", "solver", "trajectory", "schedules"):
        s = gen.system_spec(rng)
        kind, o, desc = "system", gen.build(s), s
        ops = lambda: system_ops(rng, s)  # noqa: E731
    mon.describe(kind=kind, object=desc)
    mon.nontrivial(kind, desc)
    f = Path(tempfile.mkdtemp(dir=mon.ctx.scratch), "o_for_cpp.json")
    twin = copy.deepcopy(o)
    with mon.untouched("cpp-untouched", o):
        jc.savejson_for_cpp(f, o)
    text = f.read_text()
    j = json.loads(text)
    mon.ok("cpp-plain", j.get("class") == type(o).__name__ and "py/" not in text, "plain JSON with the class", got=j.get("class"))
    for _ in range(3):
        name, op = ops()
        compare(mon, "same-output", apply(op, o), apply(op, twin), f"object saved for C++: {name}")
    os.remove(f)
    f.parent.rmdir()


FAMILIES = {"trips": (trips, 1200, 14000), "for_cpp": (for_cpp, 300, 3000)}
