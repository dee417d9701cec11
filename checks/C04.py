"""C04 A reconfigured system behaves like a freshly built one, and isolates its state."""
import numpy as np

from mon import gen

RULE = ("A case is a random history of 3-20 operations on one system (setters with valid and wrong sizes, "
        "integration, closed form, decoupling, in-place changes of arrays handed in or out) judged against "
        "a shadow record of the final values; after every few operations the system is compared with one "
        "built from scratch. Non-trivial if the history contains at least one effective change. Distinct by history.")
ASSUMPTIONS = ["only the initial and attractor states handed in and the states handed out are required to be "
               "isolated from the system, not parameter arrays such as alpha",
               "setting the y part of the initial state of a second order system resets its velocity to zero"]
QUICK = 6
required = ["as-fresh", "isolated-in", "isolated-out", "wrong-size-rejected", "shape-stable", "decoupled"]

CHANGES = ("tau", "init", "xinit", "start-init", "attr", "param")
KINDS = ["exp", "sigmoid", "spring", "richards", "time"]


def probes(ds, spec, P):
    """Observable behaviour at fixed probe points."""
    out = {"tau": ds.tau, "x_init": np.array(ds.x_init), "y_init": np.array(ds.y_init),
           "dims": np.array([ds.dim_x, ds.dim_y])}
    # (short steps for the Richards systems, whose powers are undefined beyond the asymptotes)
    ts = P["ts"] * spec["tau"] * (0.15 if spec["kind"] == "richards" else 1.0)
    if spec["kind"] != "spring" or isinstance(spec["spring_constant"], str):
        out["closed-xs"], out["closed-xds"] = ds.analytical_solution(ts.copy())
    if spec["kind"] != "time":
        # the time system jumps when it stops, which rounding may shift by one step
        out["int-xs"], out["int-xds"] = ds.integrate(ts.copy())
    x, xd = ds.integrate_start()
    out["start-x"], out["start-xd"] = np.array(x), np.array(xd)
    out["floats"] = float(np.asarray(x).dtype.kind == "f" and np.asarray(xd).dtype.kind == "f")
    for i, x in enumerate(P["states"]):
        if spec["kind"] == "richards":
            # powers are defined between the asymptotes only
            x = ds.x_init + (ds.y_attr - ds.x_init) * P["unit"][i]
        if spec["kind"] == "time":
            x = P["unit"][i][:1]
        out[f"rate{i}"] = ds.differential_equation(np.array(x))
        out[f"step{i}"] = ds.integrate_step(0.01 * spec["tau"], np.array(x))[0]
    if hasattr(ds, "y_attr"):
        out["y_attr"] = np.array(ds.y_attr)
    if hasattr(ds, "count_down"):
        out["count_down"] = float(ds.count_down)
    return out


def compare(mon, key, ds, spec, P, history, other=None):
    fresh = other if other is not None else probes(gen.build(spec), spec, P)
    got = probes(ds, spec, P)
    for k in fresh:
        s = gen.scale(fresh[k])
        mon.close(key, got[k], fresh[k], rtol=1e-9, atol=1e-10 * s, msg=f"{k}", history=history)


PARAMS = {"exp": ["alpha"], "sigmoid": ["max_rate"], "spring": ["damping_coefficient", "spring_constant", "mass"],
          "richards": ["t_infl_ratio", "alpha", "v"], "time": []}


def decoupled(mon, ds, kind):
    for nm in PARAMS[kind]:
        v = getattr(ds, nm)
        mon.ok("decoupled", np.shape(v) == (ds.dim_y,), "shape of a decoupled parameter", name=nm, got=np.shape(v))


def history_case(kind):
    def f(rng, mon):
        spec = gen.system_spec(rng, kind, left=False)
        n = gen.system_size(spec)
        ds = gen.build(spec)
        dim_x = ds.dim_x
        P = {"ts": np.concatenate(([0.0], np.cumsum(rng.uniform(0.01, 0.12, 20)))),
             "states": [gen.vec(rng, dim_x) for _ in range(3)], "unit": [rng.uniform(0.05, 0.95, n) for _ in range(3)]}
        hist, handed_in, handed_out, held = [], [], [], []
        changed = False
        mon.describe(initial=dict(spec), history=hist)
        if kind == "spring" and gen.chance(rng, 0.3):
            compare(mon, "as-fresh", ds, spec, P, list(hist))
        for step in range(int(rng.integers(3, 21))):
            op = gen.choice(rng, ["tau", "init", "xinit", "attr", "use", "use", "decouple", "wrong", "mutate-in",
                                  "mutate-out", "start-init", "param", "compare"])
            hist.append(op)
            # what is read now does not change with what is set later
            for nm in ("x_init", "y_init", "x_attr", "y_attr"):
                v = getattr(ds, nm, None)
                if isinstance(v, np.ndarray) and op not in ("mutate-in", "mutate-out"):
                    held.append((nm, v, v.copy()))
            if op == "tau":
                new = gen.tau_(rng)
                if gen.chance(rng, 0.4):
                    new = spec["tau"] * (1 + 10.0 ** rng.uniform(-4, -0.5) * gen.choice(rng, [-1, 1]))
                if kind == "sigmoid" and gen.chance(rng, 0.6):
                    new = spec["tau"] * rng.uniform(0.5, 1.6)
                ds.tau = new
                spec["tau"] = new
                if kind == "sigmoid" and np.max(np.abs(spec["max_rate"])) * new > 14.0:
                    # keep the exponent within reason
                    spec["max_rate"] = np.sign(np.asarray(spec["max_rate"]).flat[0]) * gen.per_dim(rng, n, 2.0, 12.0) / new
                    ds.max_rate = gen.cp(spec["max_rate"])
                changed = True
            elif op in ("init", "xinit", "start-init") and kind != "time":
                a = gen.vec(rng, n)
                if gen.chance(rng, 0.25):
                    a = np.array(ds.y_init) * (1 + 10.0 ** rng.uniform(-4, -0.5, n))
                elif kind == "sigmoid":
                    a = rng.uniform(0.2, 3.0, n) * np.where(rng.random(n) < 0.3, -1, 1)
                if kind == "richards":
                    a = gen.away(rng, spec["x_attr"])
                if gen.chance(rng, 0.2) and np.all(np.abs(a) > 0.6) and (kind != "richards" or np.all(np.abs(np.rint(a) - spec["x_attr"]) > 0.3)):
                    a = np.rint(a).astype(int)  # whole numbers are numbers
                if op == "xinit":
                    if kind == "spring":
                        z = gen.vec(rng, n)
                        full = np.concatenate((a, z))
                        spec["y_init"], spec["z_init"] = a.astype(float), z
                    else:
                        full = a
                        spec["x_init"] = a.astype(float)
                    ds.x_init = full
                    handed_in.append(full)
                else:
                    if kind == "spring":
                        spec["y_init"], spec["z_init"] = a.astype(float), None
                    else:
                        spec["x_init"] = a.astype(float)
                    if op == "init":
                        ds.y_init = a
                    else:
                        x, xd = ds.integrate_start(a)
                        mon.close("start-at-given", x[:n], a, rtol=0, atol=0, msg="integrate_start(y_init)")
                        handed_out += [x, xd]
                    handed_in.append(a)
                changed = True
            elif op == "attr" and kind in ("exp", "spring", "richards"):
                a = gen.vec(rng, n)
                key = "y_attr" if kind == "spring" else "x_attr"
                if kind == "richards":
                    a = gen.away(rng, spec["x_init"])
                if gen.chance(rng, 0.2) and (kind != "richards" or np.all(np.abs(np.rint(a) - spec["x_init"]) > 0.3)):
                    a = np.rint(a).astype(int)
                spec[key] = a.astype(float)
                if kind == "exp" and gen.chance(rng):
                    ds.x_attr = a
                else:
                    ds.y_attr = a
                handed_in.append(a)
                changed = True
            elif op == "param":
                if kind == "time":
                    spec["count_down"] = gen.chance(rng)
                    ds.count_down = spec["count_down"]
                elif kind == "exp":
                    spec["alpha"] = gen.per_dim(rng, n, 0.5, 20.0)
                    ds.alpha = gen.cp(spec["alpha"])
                elif kind == "sigmoid":
                    spec["max_rate"] = gen.per_dim(rng, n, -12.0, -2.0) / spec["tau"]
                    ds.max_rate = gen.cp(spec["max_rate"])
                elif kind == "richards":
                    nm, lo, hi = gen.choice(rng, [("alpha", 3.0, 15.0), ("v", 0.6, 4.0), ("t_infl_ratio", 0.1, 0.9)])
                    spec[nm] = gen.per_dim(rng, n, lo, hi)
                    setattr(ds, nm, gen.cp(spec[nm]))
                elif kind == "spring":
                    nm, lo, hi = gen.choice(rng, [("damping", 4.0, 30.0), ("spring_constant", 10.0, 200.0)])
                    if isinstance(spec["spring_constant"], str):
                        # from now on as given, not as derived from the damping
                        spec["spring_constant"] = gen.cp(ds.spring_constant)
                    spec[nm] = gen.per_dim(rng, n, lo, hi)
                    setattr(ds, {"damping": "damping_coefficient"}.get(nm, nm), gen.cp(spec[nm]))
                else:
                    continue
                changed = True
            elif op == "use":
                ts = gen.times(rng, spec["tau"], n=12)
                what = gen.choice(rng, ["integrate", "euler", "closed", "steps", "rate"])
                if what == "integrate":
                    handed_out += list(ds.integrate(ts))
                elif what == "euler":
                    with np.errstate(all="ignore"):
                        handed_out += list(ds.integrate(ts, integration_method="Euler"))
                elif what == "closed":
                    handed_out += list(ds.analytical_solution(ts))
                elif what == "steps":
                    x, xd = ds.integrate_start()
                    mon.ok("shape-stable", x.shape == (dim_x,) == xd.shape, "shape of start", got=x.shape)
                    handed_out += [x, xd]
                    for _ in range(3):
                        x, xd = ds.integrate_step(0.01 * spec["tau"], x)
                        mon.ok("shape-stable", x.shape == (dim_x,) == xd.shape, "shape of step", got=x.shape)
                        handed_out += [x, xd]
                else:
                    x = np.array(ds.x_init)
                    handed_out.append(ds.differential_equation(x))
                    mon.ok("shape-stable", handed_out[-1].shape == (dim_x,), "shape of rate")
            elif op == "decouple":
                before = probes(ds, spec, P)
                ds.decouple_parameters()
                compare(mon, "as-fresh", ds, spec, P, list(hist), other=before)
                decoupled(mon, ds, kind)
            elif op == "wrong":
                before = probes(ds, spec, P)
                bad = np.ones(dim_x + int(rng.integers(1, 3)))
                mon.raises("wrong-size-rejected", ValueError, lambda: setattr(ds, "x_init", bad), "x_init")
                bad = np.ones(n + int(rng.integers(1, 3)))
                mon.raises("wrong-size-rejected", ValueError, lambda: setattr(ds, "y_init", bad), "y_init")
                mon.raises("wrong-size-rejected", ValueError, lambda: ds.integrate_start(bad), "integrate_start")
                if n > 1:
                    mon.raises("wrong-size-rejected", ValueError, lambda: setattr(ds, "y_init", bad[:1]), "y_init")
                if kind in ("exp", "spring", "richards"):
                    mon.raises("wrong-size-rejected", ValueError, lambda: setattr(ds, "y_attr", bad), "y_attr")
                if kind == "exp":
                    mon.raises("wrong-size-rejected", ValueError, lambda: setattr(ds, "x_attr", bad), "x_attr")
                compare(mon, "rejected-without-effect", ds, spec, P, list(hist), other=before)
            elif op == "mutate-in" and handed_in:
                before = probes(ds, spec, P)
                for a in handed_in:
                    a += 17
                compare(mon, "isolated-in", ds, spec, P, list(hist), other=before)
            elif op == "mutate-out" and handed_out:
                before = probes(ds, spec, P)
                for a in handed_out:
                    a += 17.0
                compare(mon, "isolated-out", ds, spec, P, list(hist), other=before)
                handed_out.clear()
            if op == "compare" or (op in CHANGES and gen.chance(rng, 0.3)):
                hist.append("compare")
                compare(mon, "as-fresh", ds, spec, P, list(hist))
        compare(mon, "as-fresh", ds, spec, P, list(hist))
        for nm, v, was in held:
            mon.equal("returned-values-stay", v, was, f"{nm} that was read before later settings", history=list(hist))
        if changed:
            mon.nontrivial(spec, hist)
    return f


def constructor_arrays(rng, mon):
    """Arrays given to the constructor, states handed out first thing."""
    kind = gen.choice(rng, ["exp", "sigmoid", "spring", "richards"])
    spec = gen.system_spec(rng, kind, left=False)
    if kind == "spring":
        spec["z_init"] = None
    a = {k: gen.cp(v) for k, v in spec.items()}
    mon.describe(spec=spec)
    from dmpbbo.dynamicalsystems.ExponentialSystem import ExponentialSystem
    from dmpbbo.dynamicalsystems.RichardsSystem import RichardsSystem
    from dmpbbo.dynamicalsystems.SigmoidSystem import SigmoidSystem
    from dmpbbo.dynamicalsystems.SpringDamperSystem import SpringDamperSystem
    ds = {
        "exp": lambda: ExponentialSystem(a["tau"], a["x_init"], a["x_attr"], a["alpha"]),
        "sigmoid": lambda: SigmoidSystem(a["tau"], a["x_init"], a["max_rate"], a["inflection_ratio"]),
        "spring": lambda: SpringDamperSystem(a["tau"], a["y_init"], a["y_attr"], a["damping"], a["spring_constant"], a["mass"]),
        "richards": lambda: RichardsSystem(a["tau"], a["x_init"], a["x_attr"], a["t_infl_ratio"], a["alpha"], a["v"]),
    }[kind]()
    P = {"ts": np.linspace(0, 1.0, 9), "states": [gen.vec(rng, ds.dim_x)], "unit": [rng.uniform(0.1, 0.9, ds.dim_y)]}
    before = probes(ds, spec, P)
    for k in ("x_init", "y_init", "x_attr", "y_attr"):
        if isinstance(a.get(k), np.ndarray):
            a[k] += 5.0
    compare(mon, "isolated-in", ds, spec, P, ["constructor"], other=before)
    x, xd = ds.integrate_start()
    x += 3.0
    xd += 3.0
    compare(mon, "isolated-out", ds, spec, P, ["integrate_start"], other=before)
    x, xd = ds.integrate_start()
    x1, xd1 = ds.integrate_step(0.01, x)
    x1 *= 2
    x[:] = 0.5
    compare(mon, "isolated-out", ds, spec, P, ["step"], other=before)
    y, yd = ds.integrate_start(np.array(ds.y_init))
    if kind == "spring":
        y[: ds.dim_y] -= 2.0
    else:
        y -= 2.0
    compare(mon, "isolated-out", ds, spec, P, ["integrate_start(y_init)"], other=before)
    mon.nontrivial(spec)


FAMILIES = {k: (history_case(k), 80, 1200) for k in KINDS}
FAMILIES["constructor"] = (constructor_arrays, 80, 800)
