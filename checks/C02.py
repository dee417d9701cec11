"""C02 One integration step is the Euler or Runge-Kutta step of the system's equation."""
import numpy as np

from mon import gen
from mon.dmpgen import dmp_untrained

RULE = ("A case is one system (built-in, user-defined with a recording right-hand side, or a DMP with "
        "random forcing), a state away from its initial state, a step size and a time vector; "
        "non-trivial if the step changes the state. Distinct by parameters, state and step size.")
QUICK = 4
required = ["euler-state", "rk4-state", "rk4-rate", "euler-rate", "chain", "step-pure", "order-rk4"]


def steps(mon, ds, f, x, dt):
    x = np.array(x, dtype=float)
    before = probe(ds, f, x)
    with mon.untouched("step-pure", x, msg="integrate_step_euler"):
        xe, xde = ds.integrate_step_euler(dt, x)
    with mon.untouched("step-pure", x, msg="integrate_step_runge_kutta"):
        xr, xdr = ds.integrate_step_runge_kutta(dt, x)
    with mon.untouched("step-pure", x, msg="integrate_step"):
        xs, xds = ds.integrate_step(dt, x)
    mon.close("step-pure", probe(ds, f, x), before, rtol=1e-12, atol=1e-12, msg="system after steps vs. before")
    k1 = f(x)
    k2 = f(x + 0.5 * dt * k1)
    k3 = f(x + 0.5 * dt * k2)
    k4 = f(x + dt * k3)
    s, sk = gen.scale(x, dt * k1, xr), gen.scale(k1, k4)
    n = x.size
    mon.must("shape", all(np.shape(a) == (n,) for a in (xe, xde, xr, xdr, xs, xds)), "shapes of a step",
             shapes=[np.shape(a) for a in (xe, xde, xr, xdr, xs, xds)])
    mon.close("euler-state", xe, x + dt * k1, rtol=1e-12, atol=1e-13 * s, msg="Euler step", x=x, dt=dt)
    mon.close("euler-rate", xde, k1, rtol=1e-12, atol=1e-13 * sk, msg="rate of Euler step")
    xr_ref = x + dt * (k1 + 2 * k2 + 2 * k3 + k4) / 6
    mon.close("rk4-state", xr, xr_ref, rtol=1e-12, atol=1e-12 * s, msg="Runge-Kutta step", x=x, dt=dt)
    mon.close("rk4-rate", xdr, f(xr), rtol=1e-12, atol=1e-12 * sk, msg="rate of Runge-Kutta step")
    mon.close("default-step", xs, xr, rtol=1e-12, atol=1e-13 * s, msg="default step vs Runge-Kutta")
    mon.close("default-step", xds, xdr, rtol=1e-12, atol=1e-12 * sk, msg="rate of default step")
    return xe, xr


def step_size(rng, tau, top, large=True):
    """Mostly small steps, but also steps beyond the time constant, no step and steps back in time."""
    r = rng.uniform()
    if r < 0.06:
        return 0.0
    dt = float(tau * 10 ** rng.uniform(-4, top))
    if r < 0.14:
        return -dt
    if large and r < 0.4:
        return float(tau * rng.uniform(0.1, 4.0))
    return dt


def probe(ds, f, x):
    """Behaviour of the system: its parameters, start and right-hand side."""
    x0, xd0 = ds.integrate_start()
    return np.concatenate(([ds.tau], ds.x_init, x0, xd0, f(x), f(np.array(x0))))


def chain(mon, ds, f, ts, jumps=False):
    x0, xd0 = ds.integrate_start()
    for method in ("Runge-Kutta", "Euler"):
        with mon.untouched("integrate-pure", ts):
            if method == "Runge-Kutta":
                xs, xds = ds.integrate(ts)
            else:
                xs, xds = ds.integrate(ts, integration_method="Euler")
        mon.must("shape", np.shape(xs) == (ts.size, ds.dim_x) == np.shape(xds), "shape of integrate",
                 xs=np.shape(xs), xds=np.shape(xds))
        mon.close("chain", xs[0], x0, rtol=1e-13, atol=1e-13, msg="first state of integrate")
        mon.close("chain", xds[0], f(x0), rtol=1e-12, atol=1e-12 * gen.scale(xd0), msg="first rate of integrate")
        s, sd = gen.scale(xs), gen.scale(xds)
        for i in range(1, ts.size):
            # one step from the state reported before
            dt, x = ts[i] - ts[i - 1], np.array(xs[i - 1])
            if method == "Euler":
                xd = f(x)
                ex, stages = x + dt * xd, [x]
            else:
                k1 = f(x)
                k2 = f(x + 0.5 * dt * k1)
                k3 = f(x + 0.5 * dt * k2)
                k4 = f(x + dt * k3)
                ex = x + dt * (k1 + 2 * k2 + 2 * k3 + k4) / 6
                xd = f(ex)
                stages = [x, x + 0.5 * dt * k1, x + 0.5 * dt * k2, x + dt * k3, ex]
            if jumps and any(min(abs(y[0]), abs(y[0] - 1.0)) < 1e-9 for y in stages):
                mon.event("stage-at-jump")
                continue
            mon.close("chain", xs[i], ex, rtol=1e-10, atol=1e-11 * s, msg=f"integrate ({method}) vs step", i=i)
            mon.close("chain", xds[i], xd, rtol=1e-9, atol=1e-10 * sd, msg=f"rates of integrate ({method})", i=i)


def builtin(rng, mon):
    spec = gen.system_spec(rng, critical=False)
    ds = gen.build(spec)
    tau = spec["tau"]
    mon.describe(spec=spec)
    ds.integrate_start()
    x = np.array(ds.analytical_solution(np.array([0.0, float(rng.uniform(0.05, 1.2)) * tau]))[0][1])
    dt = step_size(rng, tau, -1.3, large=spec["kind"] in ("exp", "spring"))
    if spec["kind"] == "time":
        x = np.clip(x, abs(dt) / tau + 1e-6, 1 - abs(dt) / tau - 1e-6) if gen.chance(rng, 0.7) else x
    xe, xr = steps(mon, ds, lambda a: np.array(ds.differential_equation(a)), x, dt)
    mon.raises("wrong-size", ValueError, lambda: ds.integrate_step_euler(dt, np.zeros(ds.dim_x + 1)))
    mon.raises("wrong-size", ValueError, lambda: ds.integrate_step_runge_kutta(dt, np.zeros(ds.dim_x + 1)))
    chain(mon, ds, lambda a: np.array(ds.differential_equation(a)), gen.times(rng, tau, n=40, factor=1.2),
          jumps=spec["kind"] == "time")
    if np.any(xr != x):
        mon.nontrivial(spec, x, dt)


def user(rng, mon):
    n = gen.dims(rng)
    A = rng.normal(size=(n, n)) * 2 - 3 * np.eye(n)
    tau = gen.tau_(rng)
    ds = gen.UserSystem(tau, gen.vec(rng, n), A, gen.vec(rng, n), rng.normal(size=n))
    mon.describe(tau=tau, A=A, c=ds.c, b=ds.b)
    x = gen.vec(rng, n)
    dt = step_size(rng, tau, -1)
    f = ds.rhs
    ds.log.clear()
    xe, xde = ds.integrate_step_euler(dt, x.copy())
    mon.ok("rhs-events", len(ds.log) >= 1 and np.array_equal(ds.log[0], x), "right-hand side not asked at the old state")
    ds.log.clear()
    xr, xdr = ds.integrate_step_runge_kutta(dt, x.copy())
    k1 = f(x)
    k2 = f(x + 0.5 * dt * k1)
    k3 = f(x + 0.5 * dt * k2)
    asked = np.array(ds.log)
    s = gen.scale(asked)
    for stage, p in enumerate((x, x + 0.5 * dt * k1, x + 0.5 * dt * k2, x + dt * k3)):
        mon.ok("rhs-events", np.any(np.all(np.isclose(asked, p, rtol=1e-12, atol=1e-12 * s), axis=1)),
               f"right-hand side never asked at stage {stage}", log=asked, expected=p)
    ds.log.clear()
    x_in = x.copy()
    y1 = ds.integrate_step_euler(dt, x_in)
    mon.equal("step-pure", x_in, x, "state given to Euler step")
    y2 = ds.integrate_step_runge_kutta(dt, x_in)
    mon.equal("step-pure", x_in, x, "state given to Runge-Kutta step")
    mon.close("euler-state", y1[0], x + dt * k1, rtol=1e-12, atol=1e-13 * s)
    mon.close("euler-rate", y1[1], k1, rtol=1e-12, atol=1e-12 * gen.scale(k1))
    k4 = f(x + dt * k3)
    mon.close("rk4-state", y2[0], x + dt * (k1 + 2 * k2 + 2 * k3 + k4) / 6, rtol=1e-12, atol=1e-12 * s)
    mon.close("rk4-rate", y2[1], f(y2[0]), rtol=1e-12, atol=1e-12 * gen.scale(k4))
    ts = gen.times(rng, tau, n=25, factor=1.0)
    ds.log.clear()
    x0 = np.array(ds.x_init)
    for method in ("Runge-Kutta", "Euler"):
        xs, xds = ds.integrate(ts, integration_method=method)
        y = x0
        for i in range(ts.size):
            if i:
                dt_i = ts[i] - ts[i - 1]
                if method == "Euler":
                    y = y + dt_i * f(y)
                else:
                    k1 = f(y)
                    k2 = f(y + 0.5 * dt_i * k1)
                    k3 = f(y + 0.5 * dt_i * k2)
                    k4 = f(y + dt_i * k3)
                    y = y + dt_i * (k1 + 2 * k2 + 2 * k3 + k4) / 6
            mon.close("chain", xs[i], y, rtol=1e-8, atol=1e-8 * gen.scale(y), msg=f"{method} chain", i=i)
    mon.nontrivial(A, x, dt)


def order(rng, mon):
    """Halving the step divides the error by 2^4 (Runge-Kutta) or 2 (Euler)."""
    spec = gen.system_spec(rng, gen.choice(rng, ["exp", "spring", "sigmoid", "richards"]))
    spec["tau"] = float(rng.uniform(0.5, 2.0)) if spec["kind"] != "sigmoid" else spec["tau"]
    ds = gen.build(spec)
    tau = spec["tau"]
    mon.describe(spec=spec)
    T = 0.6 * tau
    ref = ds.analytical_solution(np.array([0.0, T]))[0][1]

    def err(method, n):
        xs, _ = ds.integrate(np.linspace(0, T, n + 1), integration_method=method)
        return np.max(np.abs(xs[-1] - ref))

    s = gen.scale(ref, ds.x_init)
    for method, n, p in (("Runge-Kutta", 64, 4), ("Euler", 2000, 1)):
        e1, e2 = err(method, n), err(method, 2 * n)
        if e2 > 1e-11 * s:
            q = np.log2(e1 / e2)
            key = "order-rk4" if p == 4 else "order-euler"
            mon.ok(key, q > p - 0.6, f"order of convergence of {method} is {q:.2f}", e1=e1, e2=e2)
            mon.nontrivial(spec)
        else:
            mon.event("order-error-too-small")


def dmp(rng, mon):
    d, info = dmp_untrained(rng)
    mon.describe(**info)
    ts = gen.times(rng, d.tau, n=20, factor=1.2, uniform=True)
    d.integrate_start()
    f = lambda a: np.array(d.differential_equation(np.array(a)))  # noqa
    x, _ = d.integrate_start()
    for _ in range(int(rng.integers(1, 12))):
        x, _ = d.integrate_step_runge_kutta(0.01 * d.tau, x)
    dt = step_size(rng, d.tau, -1.5, large=False)
    x_in = np.array(x)
    xe, xde = d.integrate_step_euler(dt, x_in)
    xr, xdr = d.integrate_step_runge_kutta(dt, x_in)
    mon.equal("step-pure", x_in, x, "state given to a step")
    k1 = f(x)
    k2 = f(x + 0.5 * dt * k1)
    k3 = f(x + 0.5 * dt * k2)
    k4 = f(x + dt * k3)
    s, sk = gen.scale(x, dt * k1), gen.scale(k1, k4)
    mon.close("euler-state", xe, x + dt * k1, rtol=1e-11, atol=1e-12 * s)
    mon.close("euler-rate", xde, k1, rtol=1e-11, atol=1e-12 * sk)
    mon.close("rk4-state", xr, x + dt * (k1 + 2 * k2 + 2 * k3 + k4) / 6, rtol=1e-11, atol=1e-11 * s)
    mon.close("rk4-rate", xdr, f(xr), rtol=1e-11, atol=1e-11 * sk)
    mon.close("default-step", d.integrate_step(dt, x)[0], xr, rtol=1e-12, atol=1e-12 * s)
    mon.nontrivial(info, x, dt)


FAMILIES = {"builtin": (builtin, 200, 2500), "user": (user, 150, 2000), "order": (order, 40, 400),
            "dmp": (dmp, 60, 800)}
