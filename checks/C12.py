"""C12 Stepping a DMP and solving it over a time vector describe the same movement."""
import numpy as np

from mon import dmpgen, gen

RULE = ("A case is a DMP of any type with random forcing term, stepped and solved at three step sizes; a history "
        "of interleaved rollouts, solutions and rate queries; or fine rollouts whose positions, velocities and "
        "accelerations are differentiated. Non-trivial if the forcing term is not zero. Distinct by parameters.")
ASSUMPTIONS = ["the time system may stop up to one step late in step-wise integration"]
required = ["same-start", "approximator-outputs", "same-movement", "difference-vanishes", "same-other-parts", "rate-depends-on-state-only",
            "interleaved", "velocity-is-derivative", "acceleration-is-derivative", "extractors-agree"]


def parts(d):
    return {"goal": d.GOAL, "phase": d.PHASE, "gating": d.GATING, "damping": d.DAMPING}


def agree(rng, mon):
    s = dmpgen.dmp_spec(rng, partial=0.15, amp=float(gen.choice(rng, [5.0, 50.0])))
    mon.describe(**dmpgen.brief(s))
    d = dmpgen.dmp_build(s)
    tau = s["tau"]
    T = float(rng.uniform(0.6, 1.5)) * tau
    errs = []
    # the first rates are those of the first state
    x0, xd0 = d.integrate_start()
    first = np.array(x0)
    mon.close("rate-depends-on-state-only", xd0, d.differential_equation(first), rtol=1e-9, atol=1e-9 * gen.scale(xd0), msg="rates at the start vs. differential equation at the first state")
    # the steps: Runge-Kutta on a fine grid, as reference for solutions on coarser ones
    ref_n = 640
    tr = np.linspace(0, T, ref_n + 1)
    xr, xdr = dmpgen.stepped(d, tr)
    yr = xr[:, d.SPRING]
    sy, sd = gen.scale(yr), gen.scale(xdr[:, d.SPRING])
    for n in (160, 640, 2560):
        ts = np.linspace(0, T, n + 1)
        with mon.untouched("arguments-untouched", ts):
            xs, xds, ft, fo = d.analytical_solution(ts)
        mon.must("shape", xs.shape == (n + 1, d.dim_x) == xds.shape and ft.shape == (n + 1, d.dim_dmp()) == fo.shape, "shapes")
        k = max(1, n // 160)
        a, b = xs[::k][:161], xr[::ref_n // 160]
        errs.append(float(np.max(np.abs(a[:, d.SPRING] - b[:, d.SPRING]))) / sy)
        for nm, idx in parts(d).items():
            tol = T / ref_n / tau * 1.01 if nm == "phase" else 1e-3 if nm == "gating" else 1e-5
            mon.close("same-other-parts", a[:, idx], b[:, idx], rtol=0, atol=tol * gen.scale(b[:, idx]), msg=f"{nm} by steps vs. solution")
        # away from the instant at which the phase stops, rates agree too
        ok = np.abs(ts[::k][:161] - tau) > 2 * T / 160
        for nm, idx in parts(d).items():
            ra, rb = xds[::k][:161][ok][:, idx], xdr[::ref_n // 160][ok][:, idx]
            mon.close("same-other-parts", ra, rb, rtol=0, atol=2e-3 * gen.scale(rb) + 1e-6, msg=f"rates of {nm} by steps vs. solution")
        if n == 2560:
            ra, rb = xds[::k][:161][:, d.SPRING], xdr[::ref_n // 160][:, d.SPRING]
            mon.close("same-rates", ra[ok], rb[ok], rtol=0, atol=0.08 * sd, msg="rates of the spring-damper by steps vs. solution")
        # outputs are those of the approximators at the phase, none where an approximator has not been trained
        if s["fas"] is not None and n == 160:
            for i, fa in enumerate(dmpgen.dmp_fas(s)):
                o = np.reshape(fa.predict(np.array(xs[:, d.PHASE]).reshape(-1)), -1) if fa.is_trained() else np.zeros(n + 1)
                mon.close("approximator-outputs", fo[:, i], o, rtol=1e-9, atol=1e-10 * gen.scale(o), msg="outputs of the function approximators in a solution")
                if not fa.is_trained():
                    mon.close("approximator-outputs", ft[:, i], o, rtol=0, atol=0, msg="forcing term without a trained approximator")
        # forcing terms are reported at the states of the solution
        i = int(rng.integers(0, n + 1))
        if not (abs(ts[i] - tau) < 1e-6 * tau):
            f = np.array(d.differential_equation(xs[i].copy()))
            mon.close("rate-depends-on-state-only", xds[i][d.SPRING], f[d.SPRING], rtol=1e-7, atol=1e-8 * gen.scale(xds), msg="rates of a solution vs. differential equation at its state")
    mon.ok("same-movement", errs[2] < 0.02, "steps and solution describe different movements", errors=errs)
    mon.ok("difference-vanishes", errs[1] < 0.4 * errs[0] + 2e-4 and errs[2] < 0.4 * errs[1] + 2e-4,
           "difference between steps and solution does not vanish with the step size", errors=errs)
    # a time vector whose steps grow and shrink describes the same movement
    u = np.linspace(0, 1, 2561)
    tw = T * (u + float(rng.uniform(-0.9, 0.9)) * np.sin(2 * np.pi * u) / (2 * np.pi) * float(gen.choice(rng, [0.15, 1.0])))
    xw, _, _, _ = d.analytical_solution(tw)
    e = max(float(np.max(np.abs(xw[:, j] - np.interp(tw, tr, xr[:, j])))) for j in d.SPRING) / sy
    mon.ok("same-movement", e < 4 * errs[2] + 1e-3, "a non-uniform time vector describes a different movement", error=e, uniform=errs[2])
    # Euler steps converge to the same
    te = np.linspace(0, T, 2561)
    xe, _ = dmpgen.stepped(d, te[:1281], "integrate_step_euler")
    e = float(np.max(np.abs(xe[::16, d.SPRING] - xr[::4][:81, d.SPRING]))) / sy
    mon.ok("same-movement", e < 0.02, "Euler steps describe a different movement", error=e)
    if s["fas"] is not None:
        mon.nontrivial(dmpgen.brief(s), T)


def purity(rng, mon):
    s = dmpgen.dmp_spec(rng, partial=0.15)
    mon.describe(**dmpgen.brief(s))
    d = dmpgen.dmp_build(s)
    tau = s["tau"]
    ts = np.linspace(0, 0.8 * tau, 13)
    ref_xs, ref_xds = dmpgen.stepped(dmpgen.dmp_build(s), ts)
    sol = dmpgen.dmp_build(s).analytical_solution(ts)
    fresh_rates = [np.array(dmpgen.dmp_build(s).differential_equation(x.copy())) for x in ref_xs[[0, 4, 9]]]
    start = np.array(ref_xs[0])
    # several rollouts in flight at once, interleaved with everything else
    roll = [{"i": 0, "x": None} for _ in range(3)]
    hist = []
    for _ in range(int(rng.integers(20, 50))):
        op = gen.choice(rng, ["step", "step", "step", "solve", "rate", "start", "euler", "integrate", "suppress"])
        hist.append(op)
        if op == "step":
            r = roll[int(rng.integers(3))]
            if r["x"] is None or r["i"] + 1 >= len(ts):
                x, xd = d.integrate_start()
                r["i"], r["x"] = 0, x
                mon.close("interleaved", x, ref_xs[0], rtol=1e-12, atol=1e-12, msg="start of a rollout")
                mon.close("interleaved", xd, ref_xds[0], rtol=1e-12, atol=1e-12 * gen.scale(xd), msg="first rate of a rollout")
            else:
                keep = np.array(r["x"])
                x, xd = d.integrate_step(ts[r["i"] + 1] - ts[r["i"]], r["x"])
                mon.equal("state-untouched", r["x"], keep, "state handed to a step")
                r["i"] += 1
                r["x"] = x
                sc = gen.scale(ref_xs)
                mon.close("interleaved", x, ref_xs[r["i"]], rtol=1e-9, atol=1e-10 * sc, msg=f"state {r['i']} of an interleaved rollout", history=hist[-8:])
                mon.close("interleaved", xd, ref_xds[r["i"]], rtol=1e-9, atol=1e-10 * gen.scale(ref_xds), msg="rate of an interleaved rollout")
        elif op == "solve":
            o = d.analytical_solution(ts)
            for a, b in zip(o, sol):
                mon.close("interleaved", a, b, rtol=1e-10, atol=1e-11 * gen.scale(b), msg="solution between steps")
            d.analytical_solution(np.linspace(0, 3 * tau, 7))
        elif op == "suppress":
            d.analytical_solution(np.linspace(0, 2 * tau, 9), suppress_forcing_term=True)
        elif op == "rate":
            for x, f in zip(ref_xs[[0, 4, 9]], fresh_rates):
                xi = x.copy()
                mon.close("rate-depends-on-state-only", d.differential_equation(xi), f, rtol=1e-10, atol=1e-11 * gen.scale(f), msg="rate at a state", history=hist[-8:])
                mon.equal("state-untouched", xi, x, "state handed to the differential equation")
        elif op == "start":
            x, xd = d.integrate_start()
            x += 9.0
            xd += 9.0
        elif op == "euler":
            d.integrate_step_euler(0.3 * tau, start.copy())
        elif op == "integrate":
            xs, xds = d.integrate(ts)
            mon.close("interleaved", xs, ref_xs, rtol=1e-9, atol=1e-10 * gen.scale(ref_xs), msg="integrate() vs. steps")
    mon.nontrivial(dmpgen.brief(s), hist)


def derivatives(rng, mon):
    s = dmpgen.dmp_spec(rng, partial=0.15, amp=20.0)
    mon.describe(**dmpgen.brief(s))
    d = dmpgen.dmp_build(s)
    tau = s["tau"]
    x, xd = d.integrate_start()
    # go somewhere with coarse steps, then look closely
    for _ in range(int(rng.integers(0, 40))):
        x, xd = d.integrate_step(0.02 * tau, x)
    h = 1e-3 * tau
    ts = np.arange(9) * h
    xs, xds = dmpgen.stepped(d, ts, x0=(x, np.array(d.differential_equation(x.copy()))))
    if np.any((np.abs(xs[:, d.PHASE]) < 0.012) | (np.abs(xs[:, d.PHASE] - 1) < 0.012)) and np.ptp(xds[:, d.PHASE]) > 0.5 / tau:
        mon.event("phase-stops-here-skipped")
        return
    ys, yds, ydds = d.states_as_pos_vel_acc(xs, xds)
    t = d.states_as_trajectory(ts, xs, xds)
    for a, b, w in ((ys, t.ys, "positions"), (yds, t.yds, "velocities"), (ydds, t.ydds, "accelerations"), (ts, t.ts, "times")):
        mon.close("extractors-agree", a, b, rtol=1e-13, atol=0, msg=f"{w} of states_as_trajectory")
    y1, yd1, ydd1 = d.states_as_pos_vel_acc(xs[3], xds[3])
    for a, b in ((y1, ys[3]), (yd1, yds[3]), (ydd1, ydds[3])):
        mon.close("extractors-agree", np.asarray(a).reshape(-1), b, rtol=1e-13, atol=0, msg="single state")
    # fourth-order central differences
    c = lambda a: (8 * (a[3:-1][:5] - a[1:-3][:5]) - (a[4:][:5] - a[:-4][:5]))[:5] / (12 * h)  # noqa
    fd = c(ys)
    mon.close("velocity-is-derivative", yds[2:7], fd, rtol=0, atol=1e-5 * gen.scale(yds, fd) + 1e-4 * h * gen.scale(ydds), msg="velocity vs. differentiated positions")
    fd = c(yds)
    mon.close("acceleration-is-derivative", ydds[2:7], fd, rtol=0, atol=1e-3 * gen.scale(ydds, fd), msg="acceleration vs. differentiated velocities")
    # over a time vector: a scheme of at least first order, so the difference quotient is within the
    # local change of the rate
    ta = np.linspace(0, 1.5 * tau, 1501)
    X, XD, _, _ = d.analytical_solution(ta)
    y, yd, ydd = d.states_as_pos_vel_acc(X, XD)
    dt = np.diff(ta)[:, None]
    for a, r, w in ((y, yd, "velocity"), (yd, ydd, "acceleration")):
        change = np.abs(np.diff(r, axis=0))
        near = change.copy()
        for k in (1, 2):
            near[k:] = np.maximum(near[k:], change[:-k])
            near[:-k] = np.maximum(near[:-k], change[k:])
        e = np.abs(np.diff(a, axis=0) / dt - 0.5 * (r[1:] + r[:-1])) - 1.2 * near
        mon.ok(f"{w}-is-derivative", np.all(e <= 1e-4 * gen.scale(r)), f"solution: {w} is not the derivative of what it belongs to", excess=float(np.max(e)), scale=gen.scale(r))
    mon.nontrivial(dmpgen.brief(s))


def starts(rng, mon):
    """The first states and rates, for DMPs of which subsystems were given by the user."""
    s = dmpgen.dmp_spec(rng, partial=0.15)
    while not s["custom"]:
        s["custom"] = dmpgen.custom_systems(rng, s)
    mon.describe(**dmpgen.brief(s))
    d = dmpgen.dmp_build(s)
    tau = s["tau"]
    x, xd = d.integrate_start()
    ts = np.linspace(0, 1e-3 * tau, 11)
    xs, xds, _, _ = d.analytical_solution(ts)
    for nm, idx in dict(parts(d), spring=d.SPRING).items():
        mon.close("same-start", xs[0, idx], x[idx], rtol=1e-9, atol=1e-9 * gen.scale(x[idx]), msg=f"{nm} at the start, steps vs. solution")
        mon.close("same-start", xds[0, idx], xd[idx], rtol=1e-6, atol=1e-8 + 1e-8 * gen.scale(xd[idx]), msg=f"rate of {nm} at the start, steps vs. solution")
    y, yd, ydd = d.states_as_pos_vel_acc(x, xd)
    mon.close("same-start", y, s["y_init"], rtol=1e-12, atol=1e-12, msg="position at the start")
    mon.close("same-start", yd, np.zeros(y.size), rtol=0, atol=1e-9, msg="at rest at the start")
    x2, _ = dmpgen.stepped(d, ts)
    for nm, idx in dict(parts(d), spring=d.SPRING).items():
        # explicit Euler in the solution: the error after a few short steps is of second order in their sum
        tol = 2e-4 * gen.scale(xds[:, idx] * tau, xs[:, idx]) * 1e-2 if nm != "spring" else 2e-3 * gen.scale(xds[:, idx] * tau, xs[:, idx])
        mon.close("same-start", xs[-1, idx], x2[-1, idx], rtol=0, atol=tol + 1e-9, msg=f"{nm} after short steps")
    mon.nontrivial(dmpgen.brief(s))


FAMILIES = {"starts": (starts, 250, 3000), "agree": (agree, 32, 350), "purity": (purity, 60, 700), "derivatives": (derivatives, 80, 900)}
CASE_TIMEOUT = 120
