"""C03 Attractor systems converge, and tau scales time."""
import numpy as np

from mon import gen

RULE = ("A case is one randomly parameterized system followed over a long evolution (closed form and "
        "integrated), or a pair of systems whose tau differs by a factor; non-trivial if the state moves "
        "by more than 1e-3 of its scale. Distinct by parameters.")
ASSUMPTIONS = ["sigmoids start at a non-zero state", "Richards systems have v >= 0.5",
               "after the time system has stopped, an integrated state may exceed its limit by one step",
               "steps of numerical integration are small compared to the fastest time constant"]
QUICK = 4
required = ["converges", "no-overshoot", "monotone", "limit", "half-at-inflection", "time-linear",
            "tau-states", "tau-rates", "velocity-vanishes", "gating-ratio"]


def rollouts(ds, tau, factor, n=900):
    ts = np.linspace(0, factor * tau, n)
    return ts, [("closed form", *ds.analytical_solution(ts)), ("integration", *ds.integrate(ts))]


def towards(mon, xs, x0, g, s, what, monotone=True):
    """Every dimension moves monotonically from x0 to g without passing it."""
    e = (np.asarray(xs) - g)
    sgn = np.sign(x0 - g)
    mon.ok("no-overshoot", e * sgn >= -1e-9 * s, f"{what}: passes the attractor", x0=x0, g=g, worst=np.min(e * sgn, axis=0))
    if monotone:
        d = np.diff(e * sgn, axis=0)
        mon.ok("monotone", d <= 1e-9 * s, f"{what}: moves away from the attractor", worst=np.max(d))


def exp(rng, mon):
    spec = gen.system_spec(rng, "exp")
    spec["x_attr"] = gen.away(rng, spec["x_init"], 0.0, 4.0)
    mon.describe(spec=spec)
    ds = gen.build(spec)
    a = np.min(spec["alpha"])
    ts, rs = rollouts(ds, spec["tau"], 25.0 / a, 900 if np.max(spec["alpha"]) / a < 8 else 2500)
    for what, xs, xds in rs:
        s = gen.scale(xs)
        mon.close("converges", xs[-1], spec["x_attr"], rtol=0, atol=1e-8 * s, msg=f"{what}: final state")
        mon.close("velocity-vanishes", xds[-1], np.zeros(ds.dim_x), atol=1e-6 * gen.scale(xds), msg=what)
        towards(mon, xs, spec["x_init"], spec["x_attr"], s, what)
    mon.nontrivial(spec)


def richards(rng, mon):
    spec = gen.system_spec(rng, "richards", left=False)
    mon.describe(spec=spec)
    ds = gen.build(spec)
    am = np.min(spec["alpha"]) * np.min(np.clip(spec["v"], 0, 1))
    ts, rs = rollouts(ds, spec["tau"], 1.0 + 25.0 / am, 1500)
    for what, xs, xds in rs:
        s = gen.scale(xs)
        mon.close("converges", xs[-1], spec["x_attr"], rtol=0, atol=1e-6 * s, msg=f"{what}: final state")
        mon.close("velocity-vanishes", xds[-1], np.zeros(ds.dim_x), atol=1e-5 * gen.scale(xds), msg=what)
        towards(mon, xs, spec["x_init"], spec["x_attr"], s, what)
    # fastest at the inflection time, and slower before and after
    ti = spec["tau"] * np.broadcast_to(spec["t_infl_ratio"], (ds.dim_x,))
    tf = np.linspace(0, 2 * spec["tau"], 4001)
    xds = np.abs(ds.analytical_solution(tf)[1])
    for d in range(ds.dim_x):
        mon.close("fastest-at-inflection", tf[np.argmax(xds[:, d])], ti[d], rtol=0, atol=2e-3 * spec["tau"],
                  msg="time of the largest rate")
    mon.nontrivial(spec)


def richards_at_attractor(rng, mon):
    """Known finding: initial state equal to the attractor."""
    spec = gen.system_spec(rng, "richards", left=False)
    d = int(rng.integers(len(spec["x_init"])))
    spec["x_attr"][d] = spec["x_init"][d]
    mon.describe(spec=spec)
    ds = gen.build(spec)
    ts = np.linspace(0, 2 * spec["tau"], 50)
    with np.errstate(all="ignore"):
        xs, _ = ds.analytical_solution(ts)
        xi, _ = ds.integrate(ts)
    mon.ok("stays-at-attractor", np.allclose(xs[:, d], spec["x_attr"][d], atol=1e-9), "closed form not at the attractor",
           got=xs[:3, d])
    mon.ok("stays-at-attractor", np.allclose(xi[:, d], spec["x_attr"][d], atol=1e-9), "integration not at the attractor",
           got=xi[:3, d])
    mon.nontrivial(spec)


def richards_left(rng, mon):
    """With the asymptote before the movement set: the whole curve lies between the asymptotes, and passes the given state at the start."""
    spec = gen.system_spec(rng, "richards", left=False)
    n = len(spec["x_init"])
    spec["left_asymp"] = spec["x_init"] - np.sign(spec["x_attr"] - spec["x_init"]) * rng.uniform(0.1, 2.0, n)
    mon.describe(spec=spec)
    ds = gen.build(spec)
    am = np.min(spec["alpha"]) * np.min(np.clip(spec["v"], 0, 1))
    _, rs = rollouts(ds, spec["tau"], 1.0 + 30.0 / am, 1500)
    for what, xs, xds in rs:
        s = gen.scale(xs)
        mon.close("converges", xs[-1], spec["x_attr"], rtol=0, atol=1e-6 * s, msg=f"{what}: final state, left asymptote set")
        towards(mon, xs, spec["x_init"], spec["x_attr"], s, what + ", left asymptote set")
    # backwards in time it tends to the asymptote that was set
    early = ds.analytical_solution(np.array([-400.0, 0.0]) / am * spec["tau"])[0]
    mon.close("left-asymptote", early[0], spec["left_asymp"], rtol=0, atol=1e-6 * gen.scale(spec["left_asymp"], spec["x_attr"]), msg="long before the start")
    mon.close("left-asymptote", ds.differential_equation(spec["left_asymp"].copy()), np.zeros(n), rtol=0, atol=1e-9, msg="at rest on the left asymptote")
    mon.close("left-asymptote", ds.differential_equation(np.array(spec["x_attr"])), np.zeros(n), rtol=0, atol=1e-9, msg="at rest on the attractor")
    mon.nontrivial(spec)


def spring(rng, mon):
    rest = gen.chance(rng)
    spec = gen.system_spec(rng, "spring", critical=rest, velocity=not rest)
    spec["y_attr"] = gen.away(rng, spec["y_init"], 0.0, 4.0)
    mon.describe(spec=spec)
    ds = gen.build(spec)
    n, tau = ds.dim_y, spec["tau"]
    # slowest and fastest time constants from the linear system
    m = np.broadcast_to(np.asarray(spec["mass"], float), (n,))
    c = np.broadcast_to(np.asarray(spec["damping"], float), (n,))
    k = c * c / (4 * m) if isinstance(spec["spring_constant"], str) else np.broadcast_to(
        np.asarray(spec["spring_constant"], float), (n,))
    disc = (c / (2 * m)) ** 2 - k / m
    slow = c / (2 * m) - np.sqrt(np.clip(disc, 0, None))
    fast = c / (2 * m) + np.sqrt(np.clip(disc, 0, None)) + np.sqrt(np.clip(-disc, 0, None))
    T = 30.0 / slow.min()
    ns = int(np.clip(T * fast.max() / 0.5, 800, 12000))
    if T * fast.max() / ns > 1.5:
        mon.event("stiff-skipped")
        return
    ts = np.linspace(0, T * tau, ns)
    rs = [("integration", *ds.integrate(ts))]
    if isinstance(spec["spring_constant"], str):
        rs.append(("closed form", *ds.analytical_solution(ts)))
    for what, xs, xds in rs:
        s = gen.scale(xs[:, :n])
        mon.close("converges", xs[-1, :n], spec["y_attr"], rtol=0, atol=1e-6 * s, msg=f"{what}: final state")
        mon.close("velocity-vanishes", xs[-1, n:], np.zeros(n), rtol=0, atol=1e-5 * gen.scale(xs[:, n:]), msg=what)
        mon.close("velocity-vanishes", xds[-1], np.zeros(2 * n), rtol=0, atol=1e-5 * gen.scale(xds), msg=what)
        if rest and isinstance(spec["spring_constant"], str):
            towards(mon, xs[:, :n], spec["y_init"], spec["y_attr"], s, what)
    mon.nontrivial(spec)


def sigmoid(rng, mon):
    spec = gen.system_spec(rng, "sigmoid")
    mon.describe(spec=spec)
    ds = gen.build(spec)
    n, tau, r = ds.dim_x, spec["tau"], np.broadcast_to(np.asarray(spec["max_rate"], float), (ds.dim_x,))
    ti = tau * np.broadcast_to(np.asarray(spec["inflection_ratio"], float), (n,))
    x0 = spec["x_init"]
    K = x0 * (1 + np.exp(r * ti))
    T = float(np.max(ti)) + 30.0 / np.min(np.abs(r))
    ts = np.linspace(0, T, 1500)
    for what, xs, xds in (("closed form", *ds.analytical_solution(ts)), ("integration", *ds.integrate(ts))):
        lim = np.where(r > 0, K, 0.0)
        s = gen.scale(xs)
        mon.close("limit", xs[-1], lim, rtol=0, atol=1e-6 * s, msg=f"{what}: limit")
        towards(mon, xs, x0, lim, s, what)
    for d in range(n):
        mon.close("half-at-inflection", ds.analytical_solution(np.array([0.0, ti[d]]))[0][1, d], K[d] / 2, rtol=1e-8,
                  atol=1e-10, msg="state at the inflection time vs half the limit")
        late = ds.analytical_solution(np.array([0.0, T]))[0][1, d]
        if r[d] > 0:
            mon.close("half-at-inflection", ds.analytical_solution(np.array([0.0, ti[d]]))[0][1, d], late / 2,
                      rtol=1e-6, atol=1e-9)
        # steepest there
        tt = ti[d] + np.array([-0.3, 0.0, 0.3]) / abs(r[d])
        v = np.abs(ds.analytical_solution(tt)[1][:, d])
        mon.ok("fastest-at-inflection", v[1] > v[0] and v[1] > v[2], "rate is not largest at the inflection time", v=v)
    mon.nontrivial(spec)


def gating(rng, mon):
    spec = gen.system_spec(rng, "gating")
    mon.describe(spec=spec)
    ds = gen.build(spec)
    tau = spec["tau"]
    ts = np.array([0.0, 0.2 * tau, tau, 3 * tau])
    for what, xs in (("closed form", ds.analytical_solution(ts)[0]),
                     ("integration", ds.integrate(np.linspace(0, 3 * tau, 3001))[0][[0, 200, 1000, 3000]])):
        mon.close("gating-ratio", xs[0], np.ones(ds.dim_x), rtol=0, atol=1e-9, msg="gating starts at 1")
        mon.close("gating-ratio", xs[2], np.full(ds.dim_x, spec["ratio"]), rtol=0, atol=2e-3, msg="gating at tau")
        mon.ok("limit", np.abs(xs[3]) < 1e-3, "gating does not fade", x=xs[3])
        mon.ok("gating-ratio", xs[1] > 0.95, "gating fades too early", x=xs[1])
    mon.nontrivial(spec)


def time(rng, mon):
    spec = gen.system_spec(rng, "time")
    mon.describe(spec=spec)
    ds = gen.build(spec)
    tau, down = spec["tau"], spec["count_down"]
    ts = gen.times(rng, tau, n=int(rng.integers(30, 300)), factor=float(rng.uniform(1.2, 3)))
    ex = np.clip(ts / tau, 0, 1)
    ex = (1 - ex if down else ex).reshape(-1, 1)
    rate = (-1.0 if down else 1.0) / tau
    dt = np.max(np.diff(ts))
    xs, xds = ds.analytical_solution(ts)
    mon.close("time-linear", xs, ex, rtol=1e-12, atol=1e-12, msg="closed form of the time system")
    go, stop = ts < tau * (1 - 1e-9), ts > tau * (1 + 1e-9)
    mon.close("time-linear", xds[go], np.full((go.sum(), 1), rate), rtol=1e-12, atol=0, msg="rate while running")
    mon.close("time-linear", xds[stop], np.zeros((stop.sum(), 1)), rtol=0, atol=0, msg="rate after stopping")
    for m in ("Runge-Kutta", "Euler"):
        xs, xds = ds.integrate(ts, integration_method=m)
        mon.close("time-linear", xs, ex, rtol=0, atol=dt / tau + 1e-9, msg=f"{m} of the time system")
        run = ts < tau - dt
        mon.close("time-linear", xs[run], ex[run], rtol=1e-9, atol=1e-9, msg=f"{m} while running")
        late = np.nonzero(ts > tau + 2 * dt)[0]
        if late.size:
            mon.close("time-linear", xs[late], np.tile(xs[late[0]], (late.size, 1)), rtol=0, atol=1e-12,
                      msg=f"{m}: does not stay where it stopped")
            mon.close("time-linear", xds[late], np.zeros((late.size, 1)), rtol=0, atol=0, msg=f"{m}: rate after stopping")
    mon.nontrivial(spec, ts)


def scaling(rng, mon):
    kind = gen.choice(rng, gen.KINDS)
    spec = gen.system_spec(rng, kind, critical=gen.chance(rng))
    critical = kind != "spring" or isinstance(spec["spring_constant"], str)
    k = float(gen.choice(rng, [0.25, 2.0, 3.7, 10.0, rng.uniform(0.1, 8)]))
    mon.describe(spec=spec, factor=k)
    a, b = gen.build(spec), gen.build(spec)
    if gen.chance(rng):
        b.analytical_solution(np.array([0.0, 0.1]))
        b.integrate_start()
    how = gen.choice(rng, ["setter", "built", "twice"])
    if how == "built":
        s2 = dict(spec, tau=spec["tau"] * k)
        if "max_rate" in s2:
            s2["max_rate"] = s2["max_rate"] / k
        b = gen.build(s2)
    else:
        if kind in ("sigmoid", "gating"):
            b.max_rate = a.max_rate / k
        if how == "twice":
            b.tau = 0.77
            b.integrate_start()
        b.tau = spec["tau"] * k
    ts = gen.times(rng, spec["tau"], n=60, factor=1.5)
    if kind == "time":
        ts = ts[np.abs(ts - spec["tau"]) > 1e-6 * spec["tau"]]
    out = [("integrate", lambda d, t: d.integrate(t)), ("Euler", lambda d, t: d.integrate(t, integration_method="Euler"))]
    if critical:
        out.append(("closed form", lambda d, t: d.analytical_solution(t)))
    if kind == "time":
        out = out[2:]
    for what, f in out:
        with np.errstate(all="ignore"):
            xa, xda = f(a, ts)
            xb, xdb = f(b, ts * k)
        if not np.all(np.isfinite(xa)) or gen.scale(xa) > 1e8:
            mon.event("unstable-step-skipped")
            continue
        # an amplifying start (gating) magnifies rounding
        tol = 1e-6 if kind == "gating" else 1e-8
        mon.close("tau-states", xb, xa, rtol=tol, atol=tol * gen.scale(xa), msg=f"{what}: states under tau*k at times*k")
        mon.close("tau-rates", np.asarray(xdb) * k, xda, rtol=10 * tol, atol=10 * tol * gen.scale(xda), msg=f"{what}: rates under tau*k")
        if np.ptp(xa) > 1e-3 * gen.scale(xa):
            mon.nontrivial(spec, k, how)


FAMILIES = {
    "exp": (exp, 40, 600), "richards": (richards, 40, 600), "richards-left": (richards_left, 40, 600),
    "richards-at-attractor": (richards_at_attractor, 6, 60), "spring": (spring, 40, 600),
    "sigmoid": (sigmoid, 40, 600), "gating": (gating, 30, 300), "time": (time, 60, 600),
    "scaling": (scaling, 240, 3000),
}
