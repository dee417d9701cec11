"""C01 Closed-form solutions of the dynamical systems solve their own equations."""
import numpy as np

from mon import gen

RULE = ("A case is one randomly parameterized system of one of the six kinds (1-5 dimensions, scalar "
        "or per-dimension parameters, non-unit tau, non-zero initial velocity for springs) solved over "
        "a time vector and integrated over a fine one; non-trivial if the state changes by more than "
        "1e-3 of its scale. Distinct by the parameters.")
ASSUMPTIONS = ["sigmoid systems start at a non-zero state", "springs are critically damped",
               "Richards systems have v >= 0.5 and an attractor different from the initial state",
               "at the instant the time system stops, its rate may be either of the two"]
QUICK = 4
required = ["starts-at-init", "rates-match-equation", "rates-are-derivatives", "integration-follows", "stated-equation"]


def check(rng, mon, kind):
    spec = gen.system_spec(rng, kind)
    mon.describe(spec=spec)
    ds = gen.build(spec)
    tau = spec["tau"]
    n = ds.dim_x
    ts = gen.times(rng, tau)
    with mon.untouched("arguments-untouched", ts):
        xs, xds = ds.analytical_solution(ts)
    xs, xds = np.asarray(xs), np.asarray(xds)
    mon.must("shape", xs.shape == (ts.size, n) and xds.shape == (ts.size, n),
             "solution has the wrong shape", xs=xs.shape, xds=xds.shape, expected=(ts.size, n))
    mon.finite("finite", xs)
    mon.finite("finite", xds)
    sx, sd = gen.scale(xs), gen.scale(xds)
    mon.close("starts-at-init", xs[0], ds.x_init, rtol=1e-9, atol=1e-9 * sx,
              msg="solution at time 0 vs. initial state")
    x0, xd0 = ds.integrate_start()
    mon.close("starts-at-init", x0, xs[0], rtol=1e-9, atol=1e-9 * sx, msg="integrate_start vs solution")
    # own right-hand side at the reported states
    for i in range(ts.size):
        if kind == "time" and abs(ts[i] - tau) < 1e-9 * tau:
            continue
        mon.close("rates-match-equation", xds[i], ds.differential_equation(xs[i].copy()),
                  rtol=1e-6, atol=1e-7 * sd, msg="reported rate vs differential equation", t=ts[i])
    # rates are derivatives (central differences with error estimate from two step sizes)
    tc = rng.uniform(0.02, 2.5, 12) * tau
    if kind == "time":
        tc = tc[np.abs(tc - tau) > 1e-3 * tau]
    rate = float(np.max(np.abs(spec.get("max_rate", 14.0 / tau))))
    h = 1e-4 * min(tau, 5.0 / rate)
    f = {k: np.asarray(ds.analytical_solution(tc + k * h)[0]) for k in (-2, -1, 1, 2)}
    fd = (8 * (f[1] - f[-1]) - (f[2] - f[-2])) / (12 * h)
    mon.close("rates-are-derivatives", np.asarray(ds.analytical_solution(tc)[1]), fd, rtol=1e-5,
              atol=1e-6 * sd + 1e-11 * sx / h, msg="reported rate vs finite difference of the states")
    # numerical integration with small steps
    T = float(rng.uniform(1.0, 2.5)) * tau
    m = 600
    tf = np.linspace(0, T, m)
    xa, xda = ds.analytical_solution(tf)
    xr, xdr = ds.integrate(tf)
    tol = 2e-3 * (1.0 + 0.0) if kind == "time" else 1e-4
    if kind == "gating":
        # starts next to an unstable equilibrium: errors grow by up to 1e6
        tol = 2e-3
    sa, sda = gen.scale(xa), gen.scale(xda)
    mon.close("integration-follows", xr, xa, rtol=tol, atol=tol * np.ptp(xa) + 1e-9 * sa,
              msg="Runge-Kutta integration vs closed form")
    if kind != "time":
        mon.close("integration-follows", xdr, xda, rtol=10 * tol, atol=10 * tol * sda,
                  msg="rates during integration vs closed form")
    # a solution does not depend on which other times are asked for
    idx = rng.permutation(ts.size)[: max(2, ts.size // 2)]
    idx.sort()
    mon.close("pointwise", ds.analytical_solution(ts[idx])[0], xs[idx], rtol=1e-10, atol=1e-12 * sx,
              msg="solution at a subset of the times")
    if np.max(np.abs(xs - xs[0])) > 1e-3 * sx:
        mon.nontrivial(spec)


def fam(kind):
    def f(rng, mon):
        check(rng, mon, kind)
    return f


def asymptote(rng, mon):
    """Richards systems whose left asymptote is given rather than derived from the inflection time."""
    spec = gen.system_spec(rng, "richards")
    ds = gen.build(spec)
    left = spec["x_init"] - (spec["x_attr"] - spec["x_init"]) * 10.0 ** rng.uniform(-3, 0, spec["x_init"].size)
    ds.set_left_asymp(left.copy() if left.size > 1 or gen.chance(rng) else float(left[0]))
    mon.describe(spec=spec, left=left)
    ts = gen.times(rng, spec["tau"])
    xs, xds = ds.analytical_solution(ts)
    sx, sd = gen.scale(xs), gen.scale(xds)
    mon.close("starts-at-init", xs[0], spec["x_init"], rtol=1e-9, atol=1e-9 * sx, msg="solution at time 0 vs. initial state")
    for i in range(ts.size):
        mon.close("rates-match-equation", xds[i], ds.differential_equation(xs[i].copy()), rtol=1e-6, atol=1e-7 * sd, msg="reported rate vs differential equation", t=ts[i])
    tf = np.linspace(0, 1.5 * spec["tau"], 600)
    xa, xr = ds.analytical_solution(tf)[0], ds.integrate(tf)[0]
    mon.close("integration-follows", xr, xa, rtol=1e-3, atol=1e-3 * np.ptp(xa) + 1e-9 * sx, msg="Runge-Kutta integration vs closed form")
    mon.nontrivial(spec, left)


def equation(rng, mon):
    """The rate is the one of the equation the system is named after, at any state and after changes of the duration."""
    kind = gen.choice(rng, ["exp", "sigmoid", "spring", "richards"])
    spec = gen.system_spec(rng, kind)
    mon.describe(spec=spec)
    ds = gen.build(spec)
    tau = spec["tau"]
    if gen.chance(rng, 0.3) and kind != "sigmoid":
        tau = gen.tau_(rng)
        ds.tau = tau
    n = ds.dim_y
    for _ in range(4):
        if kind == "exp":
            x = gen.vec(rng, n)
            want = np.asarray(spec["alpha"]) * (spec["x_attr"] - x) / tau
        elif kind == "sigmoid":
            r = np.asarray(spec["max_rate"], float)
            K = spec["x_init"] * (1 + np.exp(r * tau * np.asarray(spec["inflection_ratio"], float)))
            x = K * rng.uniform(-0.2, 1.2, n)
            want = r * x * (1 - x / K)
        elif kind == "spring":
            y, z = gen.vec(rng, n), gen.vec(rng, n)
            x = np.concatenate((y, z))
            zd = (np.asarray(ds.spring_constant) * (spec["y_attr"] - y) - np.asarray(ds.damping_coefficient) * z) / (np.asarray(ds.mass) * tau)
            want = np.concatenate((z / tau, zd))
        else:
            a, v, k = (np.asarray(spec[q], float) for q in ("alpha", "v", "x_attr"))
            left = spec.get("left_asymp")
            if left is None:
                # so that the rate is largest at the time of inflection
                z = (v * np.exp(a * v * np.asarray(spec["t_infl_ratio"])) + 1) ** (1 / v)
                left = (z * spec["x_init"] - k) / (z - 1)
            x = left + (k - left) * rng.uniform(0.01, 1.1, n)
            want = a * (1 - ((x - left) / (k - left)) ** v) * (x - left) / tau
        mon.close("stated-equation", ds.differential_equation(x.copy()), want, rtol=1e-7, atol=1e-9 * gen.scale(want), msg=f"rate of a {kind} system")
    mon.nontrivial(spec, tau)


FAMILIES = {k: (fam(k), 60, 700) for k in gen.KINDS}
FAMILIES["equation"] = (equation, 120, 1500)
FAMILIES["asymptote"] = (asymptote, 60, 700)
