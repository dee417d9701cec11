"""C26 C++ dynamical systems evolve as the Python ones."""
import numpy as np

from mon import cpp, gen
from mon.gen import chance, choice

RULE = ("A case is a set of systems (every class C++ has, 1 to 5 dimensions, scalar parameters), loaded from what Python saved or made by the C++ "
        "constructors, and one random sequence of setters (tau, initial state, attractor, parameters) and queries (closed form in the four ways its output "
        "matrices can be passed, differential equation, start of integration, Euler, Runge-Kutta and default steps in place or not, accessors, printed object) "
        "that is applied to both implementations; every output is compared. Distinct by systems and sequence.")
ASSUMPTIONS = ["outputs equal to within 1e-9 relative to their magnitude", "initial states of sigmoid systems are not zero",
               "the rate of change of a time system exactly when it ends is ambiguous to rounding",
               "result matrices of which the number of times equals the number of dimensions do not tell whether they are transposed"]
required = ["closed-form", "closed-form-transposed", "steps", "start", "differential-equation", "accessors", "printed", "after-setters"]
VARIANTS = ["checked"]
KINDS = ["exp", "sigmoid", "gating", "spring", "time"]


def setup(ctx):
    cpp.build(ctx, VARIANTS)


def new_op(job, sid, spec, ds):
    k = spec["kind"]
    if k == "exp":
        job.op("new_exp", sid, tau=spec["tau"], x_init=spec["x_init"], x_attr=spec["x_attr"], alpha=spec["alpha"])
    elif k == "sigmoid":
        job.op("new_sigmoid", sid, tau=spec["tau"], x_init=spec["x_init"], max_rate=spec["max_rate"], ratio=spec["inflection_ratio"])
    elif k == "time":
        job.op("new_time", sid, tau=spec["tau"], count_down=spec["count_down"])
    elif k == "spring" and spec["z_init"] is None:
        kw = {}
        if not isinstance(spec["spring_constant"], str) or spec["mass"] != 1.0:
            c = spec["spring_constant"]
            kw = {"spring_constant": -1.0 if isinstance(c, str) else c, "mass": spec["mass"]}
        job.op("new_spring", sid, tau=spec["tau"], y_init=spec["y_init"], y_attr=spec["y_attr"], damping=spec["damping"], **kw)
    else:
        job.load(sid, ds, "ds")


def dts_for(rng, tau, kind):
    n = int(rng.integers(1, 40))
    dt = tau * float(choice(rng, [0.01, 0.05, 0.1]))
    if kind == "time" or chance(rng):
        return dt * rng.uniform(0.3, 1.7, n)
    return np.full(n, dt)


def ends(kind, xs):
    """From which sample on a time system is so close to its end that its rate is ambiguous."""
    if kind != "time":
        return len(xs)
    x = np.asarray(xs)[:, 0]
    bad = np.flatnonzero((np.abs(x) < 1e-9) | (np.abs(x - 1) < 1e-9))
    bad = bad[bad > 0]
    return int(bad[0]) if len(bad) else len(xs)


def one_op(rng, job, sid, spec, ds, plan):
    """Applies the operation to the Python system, and records what C++ must return."""
    k, tau = spec["kind"], ds.tau
    n, ny = ds.dim_x, ds.dim_y
    ops = ["tau", "ana", "ana", "diff", "start", "roll", "roll", "info"]
    if k != "time":
        ops += ["x_init", "y_init"]
    if k in ("exp", "spring"):
        ops += ["attr"]
    if k in ("sigmoid", "gating"):
        ops += ["max_rate"]
    if k == "spring":
        ops += ["param"]
    what = choice(rng, ops)
    setter = True

    def initial(m):
        if k in ("sigmoid", "gating"):
            return rng.uniform(0.2, 2.0, m) * np.where(rng.random(m) < 0.3, -1, 1)
        return gen.vec(rng, m) * choice(rng, [1.0, 1.0, 1.0, 1e4])

    def state(m):
        if k in ("sigmoid", "gating"):
            # between zero and the carrying capacity
            return ds.x_init * rng.uniform(0.1, 0.99, m)
        if k == "time":
            # (also exactly at the ends)
            return np.array([float(choice(rng, [0.0, 1.0, rng.uniform(-0.5, 1.5)]))])
        return gen.vec(rng, m) * choice(rng, [1.0, 1.0, 1.0, 1e4])

    if what == "tau":
        new = gen.tau_(rng)
        if k in ("sigmoid", "gating"):
            # the rate of a sigmoid system is not relative to tau
            new = spec["tau"] * float(rng.uniform(0.6, 1.2))
        job.op("set_tau", sid, value=new)
        ds.tau = new
    elif what == "x_init":
        v = initial(n)
        job.op("set_x_init", sid, value=v)
        ds.x_init = v.copy()
    elif what == "y_init":
        v = initial(ny)
        job.op("set_y_init", sid, value=v)
        ds.y_init = v.copy()
    elif what == "attr":
        v = gen.vec(rng, ny)
        job.op("set_attr", sid, value=v, as_x=chance(rng))
        if k == "exp" and chance(rng):
            ds.x_attr = v.copy()
        else:
            ds.y_attr = v.copy()
    elif what == "max_rate":
        v = float(spec.setdefault("rate0", ds.max_rate) * rng.uniform(0.7, 1.2))
        job.op("set_param", sid, name="max_rate", value=v)
        ds.max_rate = v
    elif what == "param":
        # in both dimensions of the parameter space, staying critically damped
        c, m = float(rng.uniform(4, 30)), float(rng.uniform(0.5, 3))
        for name, value in (("damping", c), ("mass", m), ("spring_constant", c * c / (4 * m))):
            job.op("set_param", sid, name=name, value=value)
        ds.damping_coefficient, ds.mass, ds.spring_constant = c, m, c * c / (4 * m)
    else:
        setter = False
    if setter:
        return what

    if what == "ana":
        T = int(rng.integers(1, 40))
        T += T == n
        ts = gen.times(rng, tau, max(2, T)) if T > 1 else np.array([float(rng.uniform(0, 2 * tau))])
        if len(ts) == n:
            ts = np.append(ts, ts[-1] + 0.1 * tau)
        if chance(rng, 0.3):
            ts = ts + float(rng.uniform(0, 0.5)) * tau
        if k == "time":
            ts = ts[np.abs(ts / tau - 1) > 1e-9]
            ts = ts if len(ts) > 1 else np.array([0.3, 0.6]) * tau
        how = choice(rng, ["empty", "transposed", "sized", "other"])
        xs, xds = ds.analytical_solution(ts.copy())
        i = job.op("ana", sid, ts=ts, **({} if how == "empty" else {"pass": how}))
        if how == "transposed":
            plan.append((i, "closed-form-transposed", {"xs": xs.T, "xds": xds.T, "slack": slack(k, ds, spec)}))
        else:
            plan.append((i, "closed-form", {"xs": xs, "xds": xds, "slack": slack(k, ds, spec)}))
    elif what == "diff":
        X = np.array([state(n) for _ in range(int(rng.integers(1, 6)))])
        plan.append((job.op("diff", sid, x=X), "differential-equation", {"xd": np.array([ds.differential_equation(x.copy()) for x in X])}))
    elif what == "start":
        if k != "time" and chance(rng):
            y = initial(ny)
            x, xd = ds.integrate_start(y.copy())
            i = job.op("start", sid, y_init=y)
        else:
            x, xd = ds.integrate_start()
            i = job.op("start", sid)
        plan.append((i, "start", {"x": np.reshape(x, (-1, 1)), "xd": np.reshape(xd, (-1, 1))}))
    elif what == "roll":
        dts = dts_for(rng, tau, k)
        if k in ("sigmoid", "gating"):
            dts = dts * min(1.0, 0.3 / (abs(ds.max_rate) * np.max(dts)))
        method = choice(rng, ["euler", "rk", "default"])
        kw = {}
        if k != "time" and chance(rng, 0.4):
            x = state(n)
            kw["x0"] = x.copy()
            xd = ds.differential_equation(x)
        else:
            x, xd = ds.integrate_start()
        xs, xds = [np.array(x).reshape(-1)], [np.array(xd).reshape(-1)]
        for dt in dts:
            x, xd = {"euler": ds.integrate_step_euler, "rk": ds.integrate_step_runge_kutta, "default": ds.integrate_step}[method](dt, x)
            xs.append(np.array(x).reshape(-1))
            xds.append(np.array(xd).reshape(-1))
        m = ends(k, xs)
        plan.append((job.op("roll", sid, dts=dts, method=method, inplace=chance(rng), **kw), "steps",
                     {"xs": np.array(xs)[:m], "xds": np.array(xds)[:m], "n": m, "slack": slack(k, ds, spec)}))
    else:
        info = {"dim": n, "dim_x": n, "dim_y": ny, "tau": tau, "x_init": ds.x_init, "get_x_init": ds.x_init, "get_y_init": ds.y_init}
        pr = {"_tau": tau, "_dim_x": n, "_dim_y": ny, "_y_init": ds.y_init}
        cls = {"exp": "ExponentialSystem", "spring": "SpringDamperSystem", "time": "TimeSystem"}.get(k, "SigmoidSystem")
        if k == "exp":
            info.update(attr=ds.x_attr, get_y_attr=ds.x_attr, alpha=spec["alpha"])
            pr.update(alpha=spec["alpha"], _y_attr=ds.y_attr)
        elif k == "spring":
            info.update(attr=ds.y_attr, damping=ds.damping_coefficient, spring_constant=ds.spring_constant, mass=ds.mass)
            pr.update(_y_attr=ds.y_attr, damping_coefficient=ds.damping_coefficient, spring_constant=ds.spring_constant, mass=ds.mass)
        elif k == "time":
            info["count_down"] = spec["count_down"]
            pr["_count_down"] = spec["count_down"]
        else:
            info["max_rate"] = ds.max_rate
            pr["_max_rate"] = ds.max_rate
        plan.append((job.op("info", sid), "accessors", {"info": info, "printed": pr, "class": cls}))
    return what


def slack(k, ds, spec):
    """Rounding of the carrying capacity, of which the (tiny) difference with the initial state matters."""
    if k == "gating":
        d = 1e-6
        r0 = -np.log((((1 + d) / spec["ratio"]) - 1) / d)
        exponent = ds.max_rate * ds.tau * np.log(1 / d) / -r0
    elif k == "sigmoid":
        exponent = np.max(-np.abs(ds.max_rate * ds.tau * np.asarray(spec["inflection_ratio"])))
    else:
        return 0.0
    return float(8 * np.finfo(float).eps / np.exp(min(exponent, 0.0)))


def compare(mon, o, key, e, changed):
    if key == "accessors":
        for name, v in e["info"].items():
            mon.close(key, np.asarray(o[name], dtype=float).reshape(-1), np.asarray(v, dtype=float).reshape(-1), 1e-9, 1e-12, f"C++ {name}")
        for name, v in e["printed"].items():
            if mon.ok("printed", name in o["printed"], f"{name} is missing in the printed object", printed=o["printed"]):
                mon.close("printed", np.asarray(o["printed"][name], dtype=float).reshape(-1), np.asarray(v, dtype=float).reshape(-1), 1e-9, 1e-12,
                          f"printed {name}")
        mon.ok("printed", o["printed"]["class"] == e["class"], "printed class", got=o["printed"]["class"])
        return
    for name, v in e.items():
        if name in ("n", "slack"):
            continue
        got = np.asarray(o[name], dtype=float)
        if "n" in e:
            got = got[: e["n"]]
        mon.finite(key, v, "Python result")
        extra = e.get("slack", 0.0)
        mon.close(key, got, v, 1e-9 + extra, (1e-10 + extra) * gen.scale(v), f"C++ {name} ({key})", changed=changed)
    if changed:
        mon.event("after-setters")


def sequences(rng, mon):
    job = cpp.Job(mon)
    systems, plan, log = [], [], []
    for i in range(int(rng.integers(1, 5))):
        spec = gen.system_spec(rng, choice(rng, KINDS), vectors=False, critical=True)
        ds = gen.build(spec)
        sid = f"s{i}"
        spec["made"] = "saved"
        if chance(rng, 0.3):
            spec["made"] = "constructed"
            new_op(job, sid, spec, ds)
        else:
            job.load(sid, ds, "ds")
        systems.append([sid, spec, ds, 0])
    for _ in range(int(rng.integers(6, 26))):
        s = choice(rng, systems)
        at = len(plan)
        w = one_op(rng, job, s[0], s[1], s[2], plan)
        if len(plan) == at:
            s[3] += 1
        for j in range(at, len(plan)):
            plan[j] = plan[j] + (s[3],)
        log.append((s[0], w))
        if chance(rng, 0.03) and len(systems) > 1:
            job.op("delete", s[0])
            systems.remove(s)
    mon.describe(systems=[s[1] for s in systems], log=log)
    outs = job.run("checked").outs
    for i, key, e, changed in plan:
        compare(mon, outs[i], key, e, changed)
    mon.nontrivial([s[1] for s in systems], log)
    job.close()


def non_critical(rng, mon):
    """Springs that are not critically damped: numerically only."""
    job = cpp.Job(mon)
    spec = gen.system_spec(rng, "spring", vectors=False, critical=False)
    ds = gen.build(spec)
    job.load("s", ds, "ds")
    dts = dts_for(rng, ds.tau, "spring") * 0.3
    res = []
    for method in ("euler", "rk"):
        x, xd = ds.integrate_start()
        xs, xds = [x], [xd]
        for dt in dts:
            x, xd = getattr(ds, {"euler": "integrate_step_euler", "rk": "integrate_step_runge_kutta"}[method])(dt, x)
            xs.append(x)
            xds.append(xd)
        res.append((job.op("roll", "s", dts=dts, method=method), np.array(xs), np.array(xds)))
    mon.describe(spec=spec)
    outs = job.run("checked").outs
    for i, xs, xds in res:
        mon.close("steps", outs[i]["xs"], xs, 1e-9, 1e-10 * gen.scale(xs), "C++ states, not critically damped")
        mon.close("steps", outs[i]["xds"], xds, 1e-9, 1e-10 * gen.scale(xds), "C++ rates, not critically damped")
    mon.nontrivial(spec)
    job.close()


FAMILIES = {"sequences": (sequences, 900, 7000), "non_critical": (non_critical, 100, 700)}
