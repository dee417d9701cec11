"""C27 A DMP trained in Python moves the same way in C++."""
import numpy as np

from dmpbbo.dmps.Dmp import Dmp
from dmpbbo.dynamicalsystems.ExponentialSystem import ExponentialSystem
from dmpbbo.dynamicalsystems.SigmoidSystem import SigmoidSystem
from dmpbbo.dynamicalsystems.TimeSystem import TimeSystem
from dmpbbo.functionapproximators.FunctionApproximatorLWR import FunctionApproximatorLWR
from dmpbbo.functionapproximators.FunctionApproximatorRBFN import FunctionApproximatorRBFN

from mon import cpp, dmpgen, gen
from mon.gen import chance, choice

RULE = ("A case is one DMP (made from its approximators, trained from a demonstration, with parameters or goal set by a parameter vector, or constructed in C++) "
        "and one random sequence of setters (tau, start, goal) and queries (solution over a time vector with its forcing terms and approximator outputs, "
        "integration start, Euler, Runge-Kutta and default steps from the start or a random state, differential equation at random states, conversion of "
        "states, accessors, printed object) that is applied to both implementations; every output is compared. Distinct by DMP and sequence.")
ASSUMPTIONS = ["outputs equal to within 1e-8 relative to their magnitude", "all subsystems have the tau of the DMP",
               "the C++ state has no damping part, it is compared with the rest of the Python state",
               "the rate of change of a time system exactly when it ends is ambiguous to rounding",
               "result matrices of which the number of times equals the number of dimensions do not tell whether they are transposed"]
required = ["states", "rates", "forcing-terms", "fa-outputs", "trajectory", "steps", "step-rates", "start", "differential-equation",
            "accessors", "printed", "approximators", "after-setters"]
VARIANTS = ["checked"]
RT, AT = 1e-8, 1e-9


def setup(ctx):
    cpp.build(ctx, VARIANTS)


def same(mon, key, got, want, what):
    mon.finite(key, want, "Python result")
    mon.close(key, np.asarray(got, dtype=float), want, RT, AT * gen.scale(want), f"C++ {what}")


def phase_ends(dmp, X):
    """Samples up to where a time phase ends to within rounding."""
    if not isinstance(dmp._phase_system, TimeSystem):
        return len(X)
    x = X[:, 3 * dmp.dim_y]
    bad = np.flatnonzero((np.abs(x) < 1e-9) | (np.abs(x - 1) < 1e-9))
    bad = bad[bad > 0]
    return int(bad[0]) if len(bad) else len(X)


def query(rng, job, sid, dmp, plan):
    D, tau = dmp.dim_y, dmp.tau
    n = 3 * D + 2
    time_phase = isinstance(dmp._phase_system, TimeSystem)
    what = choice(rng, ["ana", "ana", "base_ana", "roll", "roll", "start", "diff", "info", "fa"])
    if what in ("ana", "base_ana"):
        T = int(rng.integers(1, 90))
        ts = gen.times(rng, tau, T) if T > 1 else np.array([0.0])
        ts = np.unique(ts)
        ts = ts[np.abs(ts / tau - 1) > 1e-9]
        if len(ts) == n:
            ts = np.append(ts, ts[-1] + 0.013 * tau)
        if chance(rng, 0.2):
            ts = ts + 0.137 * tau
            ts = ts[np.abs(ts / tau - 1) > 1e-9]
        xs, xds, f, fa = dmp.analytical_solution(ts.copy())
        tr = dmp.states_as_trajectory(ts, xs, xds)
        e = {"xs": xs[:, :n], "xds": xds[:, :n], "forcing": f, "fa": fa, "tr": tr}
        if what == "base_ana":
            how = choice(rng, ["empty", "transposed", "sized", "other"])
            i = job.op("ana", sid, ts=ts, **({} if how == "empty" else {"pass": how}))
            e = {"xs": e["xs"].T, "xds": e["xds"].T} if how == "transposed" else {"xs": e["xs"], "xds": e["xds"]}
        elif chance(rng, 0.25):
            i = job.op("dmp_ana", sid, ts=ts, n_out=4, **{"pass": "transposed"})
            e["xs"], e["xds"] = e["xs"].T, e["xds"].T
            e.pop("tr")
        else:
            i = job.op("dmp_ana", sid, ts=ts, n_out=int(choice(rng, [4, 4, 3, 2])))
        plan.append((i, "ana", e))
    elif what == "start":
        kw = {}
        if chance(rng):
            y = gen.vec(rng, D, -2, 2)
            kw["y_init"] = y
            x, xd = dmp.integrate_start(y.copy())
        else:
            x, xd = dmp.integrate_start()
        plan.append((job.op("start", sid, **kw), "start", {"x": x[:n], "xd": xd[:n]}))
    elif what in ("roll", "diff"):
        def state():
            x, _ = dmp.integrate_start()
            x[: 3 * D] = gen.vec(rng, 3 * D, -2, 2)
            x[3 * D] = rng.uniform(0.05, 0.95)
            x[3 * D + 1] = rng.uniform(0.05, 0.95)
            return x
        if what == "diff":
            X = np.array([state() for _ in range(int(rng.integers(1, 6)))])
            XD = np.array([dmp.differential_equation(x.copy()) for x in X])
            plan.append((job.op("diff", sid, x=X[:, :n]), "diff", {"xd": XD[:, :n]}))
            return what
        m = int(rng.integers(1, 70))
        dts = np.full(m, tau * float(choice(rng, [0.005, 0.02, 0.05])))
        if time_phase or chance(rng):
            dts = dts * rng.uniform(0.3, 1.7, m)
        method = choice(rng, ["euler", "rk", "default"])
        kw = {}
        if chance(rng, 0.3):
            x = state()
            kw["x0"] = x[:n].copy()
            xd = dmp.differential_equation(x)
        else:
            x, xd = dmp.integrate_start()
        xs, xds = [x], [xd]
        for dt in dts:
            x, xd = {"euler": dmp.integrate_step_euler, "rk": dmp.integrate_step_runge_kutta, "default": dmp.integrate_step}[method](dt, x)
            xs.append(np.array(x))
            xds.append(np.array(xd))
        xs, xds = np.array(xs), np.array(xds)
        k = phase_ends(dmp, xs)
        if method == "rk" and k < len(xs):
            k = max(1, k - 1)
        y = np.hstack(dmp.states_as_pos_vel_acc(xs, xds))
        plan.append((job.op("roll", sid, dts=dts, method=method, inplace=chance(rng), **kw), "roll",
                     {"xs": xs[:k, :n], "xds": xds[:k, :n], "pva": y[:k], "n": k}))
    elif what == "info":
        plan.append((job.op("info", sid), "info", {"dim": n, "dim_y": D, "tau": tau, "y_init": dmp.y_init, "scaling": dmp._forcing_term_scaling,
                                                  "damping": dmp._spring_system.damping_coefficient, "goal": dmp._goal_system is not None,
                                                  "fas": sum(f.is_trained() for f in dmp._function_approximators or [])}))
    elif what == "fa":
        if not dmp._function_approximators:
            return "none"
        dim = int(rng.integers(D))
        if not dmp._function_approximators[dim].is_trained():
            return "none"
        X = rng.uniform(0, 1, int(rng.integers(1, 20)))
        want = dmp._function_approximators[dim].predict(X.copy())
        plan.append((job.op("fa_of", sid, dim=dim, inputs=X.reshape(-1, 1)), "fa", {"out": want}))
    return what


def setter(rng, job, sid, dmp):
    D = dmp.dim_y
    what = choice(rng, ["tau", "y_init", "y_attr", "base_y_init"])
    if what == "tau":
        v = gen.tau_(rng)
        job.op("set_tau", sid, value=v)
        dmp.tau = v
    elif what in ("y_init", "base_y_init"):
        v = gen.vec(rng, D, -2, 2)
        job.op("set_y_init", sid, value=v, base=what == "base_y_init")
        dmp.y_init = v.copy()
    else:
        v = gen.vec(rng, D, -3, 3)
        job.op("set_attr", sid, value=v)
        dmp.y_attr = v.copy()
    return what


def compare(mon, o, kind, e, changed):
    if kind == "ana":
        same(mon, "states", o["xs"], e["xs"], "states over time")
        same(mon, "rates", o["xds"], e["xds"], "rates over time")
        if "forcing" in o:
            same(mon, "forcing-terms", o["forcing"], e["forcing"], "forcing terms")
        if "fa" in o:
            same(mon, "fa-outputs", o["fa"], e["fa"], "approximator outputs")
        if "tr" in e:
            tr = e["tr"]
            for t in ("traj", "traj2", "traj3"):
                for q, v in (("ts", tr.ts), ("ys", tr.ys), ("yds", tr.yds), ("ydds", tr.ydds)):
                    same(mon, "trajectory", np.asarray(o[t][q], dtype=float).reshape(np.shape(v)) if q == "ts" else o[t][q], v, f"{t} {q}")
            for q, v in (("y", tr.ys), ("yd", tr.yds), ("ydd", tr.ydds)):
                same(mon, "trajectory", o[q], v, q)
            same(mon, "forcing-terms", o["forcing3"], e["forcing"], "forcing terms with the trajectory")
    elif kind == "roll":
        k = e["n"]
        same(mon, "steps", o["xs"][:k], e["xs"], "states step by step")
        same(mon, "step-rates", o["xds"][:k], e["xds"], "rates step by step")
        same(mon, "steps", o["pva"][:k], e["pva"], "positions, velocities and accelerations step by step")
    elif kind == "start":
        same(mon, "start", np.asarray(o["x"]).reshape(-1), e["x"], "start state")
        same(mon, "start", np.asarray(o["xd"]).reshape(-1), e["xd"], "start rate")
    elif kind == "diff":
        same(mon, "differential-equation", o["xd"], e["xd"], "rates of random states")
    elif kind == "fa":
        same(mon, "approximators", np.asarray(o["outputs"]).reshape(-1), e["out"], "approximator in the DMP")
    else:
        mon.ok("accessors", (o["dim"], o["dim_x"], o["dim_y"], o["dim_dmp"]) == (e["dim"], e["dim"], e["dim_y"], e["dim_y"]), "dimensions", got=o, want=e)
        mon.close("accessors", o["tau"], e["tau"], 1e-12, 0, "C++ tau")
        for q in ("y_init", "get_y_init"):
            mon.close("accessors", np.asarray(o[q]).reshape(-1), e["y_init"], 1e-12, 0, f"C++ {q}")
        pr = o["printed"]
        mon.ok("printed", pr["class"] == "Dmp" and pr["_forcing_term_scaling"] == e["scaling"], "printed class and scaling", printed=pr)
        mon.close("printed", pr["_tau"], e["tau"], 1e-9, 0, "printed tau")
        mon.close("printed", np.asarray(pr["_y_init"], dtype=float).reshape(-1), e["y_init"], 1e-9, 1e-12, "printed start")
        mon.close("printed", pr["_spring_system"]["damping_coefficient"], e["damping"], 1e-9, 0, "printed damping coefficient")
        mon.ok("printed", (pr["_goal_system"] is not None) == e["goal"] and len(pr["_function_approximators"] or []) == e["fas"],
               "printed parts", printed=pr)
    if changed:
        mon.event("after-setters")


def run(rng, mon, job, sid, dmp, spec, log=None):
    plan, tagged, log, changed = [], [], log or [], 0
    for _ in range(int(rng.integers(4, 16))):
        if chance(rng, 0.35):
            log.append(setter(rng, job, sid, dmp))
            changed += 1
        else:
            at = len(plan)
            log.append(query(rng, job, sid, dmp, plan))
            tagged += [p + (changed,) for p in plan[at:]]
    mon.describe(spec=spec, log=log)
    outs = job.run("checked").outs
    for i, kind, e, ch in tagged:
        compare(mon, outs[i], kind, e, ch)
    mon.nontrivial(spec, log)
    job.close()


def saved(rng, mon):
    s = dmpgen.cpp_spec(rng)
    dmp = dmpgen.dmp_build(s)
    log = []
    for _ in range(int(rng.integers(0, 3))):
        # changed before it is saved
        q = choice(rng, ["tau", "y_init", "y_attr"])
        setattr(dmp, q, gen.tau_(rng) if q == "tau" else gen.vec(rng, dmp.dim_y, -2, 2))
        log.append("before saving: " + q)
    job = cpp.Job(mon)
    job.load("d", dmp, "dmp")
    run(rng, mon, job, "d", dmp, dmpgen.brief(s), log)


def trained(rng, mon):
    d = int(rng.integers(1, 4))
    tr = dmpgen.demonstration(rng, n_dims=d, uniform=chance(rng))
    kw = {"dmp_type": choice(rng, dmpgen.CPP_TYPES), "forcing_term_scaling": choice(rng, dmpgen.SCALINGS), "save_training_data": False}
    fas = []
    for _ in range(d):
        n = int(rng.integers(4, 15))
        fas.append(choice(rng, [FunctionApproximatorRBFN, FunctionApproximatorLWR])(n, 0.7, 1e-6))
    dmp = Dmp.from_traj(tr, fas, **kw)
    log = []
    if chance(rng, 0.6):
        names = [choice(rng, ["weights", "offsets"])] if chance(rng, 0.3) else ["weights", "offsets", "slopes"]
        if chance(rng):
            names.append("goal")
        # names are for one of the classes each
        for fa in fas:
            mine = [n for n in names if n in (["weights"] if isinstance(fa, FunctionApproximatorRBFN) else ["offsets", "slopes"])]
            fa.set_selected_param_names(mine or (["weights"] if isinstance(fa, FunctionApproximatorRBFN) else ["offsets"]))
        v = np.concatenate([fa.get_param_vector() for fa in fas])
        v = v + rng.normal(size=v.size) * (0.3 * np.abs(v) + 1.0)
        at = 0
        for fa in fas:
            fa.set_param_vector(v[at: at + fa.get_param_vector_size()])
            at += fa.get_param_vector_size()
        log.append("parameters set")
    job = cpp.Job(mon)
    job.load("d", dmp, "dmp")
    run(rng, mon, job, "d", dmp, {**kw, "fas": [type(f).__name__ for f in fas], "d": d, "T": float(tr.ts[-1])}, log)


def goal_learned(rng, mon):
    """As in black-box optimization: weights and goal set through the parameter vector of the DMP."""
    d = int(rng.integers(1, 4))
    tr = dmpgen.demonstration(rng, n_dims=d)
    kw = {"dmp_type": choice(rng, dmpgen.CPP_TYPES), "forcing_term_scaling": choice(rng, dmpgen.SCALINGS)}
    fas = [FunctionApproximatorRBFN(int(rng.integers(4, 12)), 0.7) for _ in range(d)]
    dmp = Dmp.from_traj(tr, fas, **kw)
    dmp.set_selected_param_names(choice(rng, [["goal"], ["weights"], ["goal", "weights"]]))
    v = dmp.get_param_vector()
    for _ in range(2):
        dmp.set_param_vector(v + rng.normal(size=v.size) * (0.3 * np.abs(v) + 0.2))
    job = cpp.Job(mon)
    job.load("d", dmp, "dmp")
    run(rng, mon, job, "d", dmp, {**kw, "d": d, "goal_learned": True}, ["parameter vector set"])


def constructed(rng, mon):
    """Made in C++, from parts or from a type name."""
    job = cpp.Job(mon)
    ctor = int(rng.integers(0, 5))
    d = int(rng.integers(1, 4))
    tau, y0 = (1.0, np.zeros(d)) if ctor in (1, 3) else (gen.tau_(rng), gen.vec(rng, d, -2, 2))
    g = np.ones(d) if ctor in (1, 3) else gen.away(rng, y0, 0.3, 2.0)
    scaling = "NO_SCALING" if ctor == 4 else choice(rng, dmpgen.SCALINGS)
    amp = rng.uniform(0.5, 2, d) if scaling == "AMPLITUDE_SCALING" else np.zeros(0)
    alpha = float(rng.uniform(15, 35)) if ctor in (0, 1, 4) else 20.0
    kw = {"forcing_term_scaling": scaling, "alpha_spring_damper": alpha, "dmp_type": "IJSPEERT_2002_MOVEMENT"}
    if amp.size:
        kw["scaling_amplitudes"] = amp.copy()
    fas, ids = [], []
    n_fas = 0 if (ctor == 4 or chance(rng, 0.2)) else d
    some = chance(rng, 0.4)
    for i in range(n_fas):
        if some and chance(rng):
            # a dimension without approximator: an untrained one in Python
            fas.append(FunctionApproximatorRBFN(3))
            ids.append(None)
            continue
        fa = dmpgen.fa_build(dmpgen.fa_spec(rng, choice(rng, ["rbfn", "lwr"]), bfs=int(rng.integers(3, 9)), reg=1e-6))
        x = np.linspace(0, 1, 25)
        fa.train(x, dmpgen.smooth_function(rng, 1, 30.0)(x))
        job.load(f"f{i}", fa, "fa")
        fas.append(fa)
        ids.append(f"f{i}")
    one, zero = np.ones(1), np.zeros(1)
    args = {"ctor": ctor, "fas": ids, "scaling": scaling, "amplitudes": amp, "tau": tau, "y_init": y0, "y_attr": g, "alpha": alpha, "n_dims": d}
    parts = {}
    if ctor in (0, 1, 4) and chance(rng, 0.7):
        a = float(rng.uniform(8, 20))
        job.op("new_exp", "goal", tau=tau, x_init=y0, x_attr=g, alpha=a)
        kw["goal_system"] = ExponentialSystem(tau, y0.copy(), g.copy(), a)
        args["goal"] = "goal"
        parts["goal"] = a
    else:
        kw["goal_system"] = None
    if ctor in (0, 1):
        for part in ("phase", "gating"):
            k = choice(rng, ["exp", "time", "sigmoid"])
            if k == "exp":
                a = float(rng.uniform(3, 7))
                job.op("new_exp", part, tau=tau, x_init=one, x_attr=zero, alpha=a)
                kw[part + "_system"] = ExponentialSystem(tau, one, zero, a)
            elif k == "time":
                down = chance(rng) if part == "phase" else True
                job.op("new_time", part, tau=tau, count_down=down)
                kw[part + "_system"] = TimeSystem(tau, down)
            else:
                r = float(rng.uniform(0.5, 0.95))
                job.op("new_sigmoid", part, tau=tau, x_init=one, max_rate=-10 / tau, ratio=r)
                kw[part + "_system"] = SigmoidSystem(tau, one.copy(), -10 / tau, r)
            args[part] = part
            parts[part] = k
    elif ctor in (2, 3):
        t = choice(rng, ["IJSPEERT_2002_MOVEMENT", "KULVICIUS_2012_JOINING", "COUNTDOWN_2013"])
        args["dmp_type"] = t
        kw["dmp_type"] = t
        if t != "IJSPEERT_2002_MOVEMENT":
            kw["goal_system"] = ExponentialSystem(tau, y0.copy(), g.copy(), 15)
            kw["gating_system"] = SigmoidSystem(tau, one.copy(), -10 / tau, 0.9)
    if ctor == 4:
        args["fas"] = []
    # a time system that gates is 0 after its end, and its rate then ambiguous: keep away from it
    job.op("new_dmp", "d", **args)
    dmp = Dmp(tau, y0.copy(), g.copy(), fas or None, **kw)
    log = []
    if chance(rng, 0.4):
        c = float(rng.uniform(10, 40))
        k = float(rng.uniform(50, 300))
        job.op("set_param", "d", name="damping", value=c)
        job.op("set_param", "d", name="spring_constant", value=k)
        dmp._spring_system.damping_coefficient = c
        dmp._spring_system.spring_constant = k
        log.append("spring set")
    run(rng, mon, job, "d", dmp, {"ctor": ctor, "tau": tau, "d": d, "scaling": scaling, "parts": parts, "type": kw["dmp_type"], "fas": [i is not None for i in ids]}, log)


FAMILIES = {"saved": (saved, 500, 4000), "trained": (trained, 200, 1500), "goal_learned": (goal_learned, 100, 700),
            "constructed": (constructed, 250, 2000)}
