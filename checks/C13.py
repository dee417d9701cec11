"""C13 Changing duration, start or goal of a DMP generalizes the movement."""
import copy

import numpy as np

from dmpbbo.dmps.Dmp import Dmp
from dmpbbo.dmps.DmpWithSchedules import DmpWithSchedules
from mon import dmpgen, gen

RULE = ("A case is a history of settings of tau, start and goal (with queries, rollouts, copies and changes of the "
        "caller's arrays in between) of a DMP of any type, compared with a DMP built with the final values; a change of "
        "tau alone; or such changes around one or several trainings. Non-trivial if at least two settings took "
        "effect and the DMP has a forcing term. Distinct by parameters and history.")
ASSUMPTIONS = ["with the unscaled Richards goal system the goal differs from the start in every dimension (known finding of C03)",
               "a goal system given for the types that scale their goal runs from 0 to 1"]
required = ["read-back", "same-as-built", "tau-same-path", "tau-velocities", "tau-accelerations", "starts-there", "ends-there",
            "train-is-fresh", "history-around-training", "returned-values-stay", "wrong-size", "subsystem-parameters"]


# times and states that are asked for again and again, whatever has changed in between
ASKED = {}


def asked(rng, d, tau):
    """Questions of this case; the same arrays are used each time."""
    ASKED.clear()
    ASKED.update(ts=np.linspace(0, float(rng.uniform(0.5, 1.5)) * tau, int(rng.integers(9, 30))), x=rng.normal(size=d.dim_x), dt=0.002 * tau)


def ask(d):
    ts, x, dt = ASKED["ts"], ASKED["x"], ASKED["dt"]
    out = list(d.analytical_solution(ts))
    if d.dim_x == x.size:
        out += [d.differential_equation(x), d.integrate_step(dt, x)[0]]
    return out


def compare(mon, key, a, b, tau, rng, msg, **w):
    """The movements of two DMPs, seen through everything that shows them."""
    if ASKED:
        with np.errstate(all="ignore"):
            pairs = list(zip(ask(a), ask(b)))
        for x, y in pairs:
            if not np.max(np.abs(y), initial=0.0) < 1e9:
                continue  # steps that have become too large for the springs
            mon.close(key, x, y, rtol=1e-8, atol=1e-9 * gen.scale(y), msg=f"{msg}: the same question as before", **w)
    n = int(rng.integers(12, 40))
    ts = np.sort(rng.uniform(0, 1.6 * tau, n)) if gen.chance(rng, 0.3) else np.linspace(0, 1.6 * tau, n)
    ts[0] = 0.0
    # compare at a step at which even the stiffest spring is stable
    fine = np.linspace(0, 1.3 * tau, 161)
    for nm, t in (("as given", fine),):
        A, B = a.analytical_solution(t.copy()), b.analytical_solution(t.copy())
        for x, y, v in zip(A, B, ("states", "rates", "forcing terms", "approximator outputs")):
            mon.close(key, x, y, rtol=1e-8, atol=1e-9 * gen.scale(y), msg=f"{msg}: {v} of the solution", **w)
    A, B = dmpgen.stepped(a, fine[:81]), dmpgen.stepped(b, fine[:81])
    for x, y, v in zip(A, B, ("states", "rates")):
        mon.close(key, x, y, rtol=1e-8, atol=1e-9 * gen.scale(y), msg=f"{msg}: {v} of the steps", **w)
    A, B = dmpgen.stepped(a, fine[:41], "integrate_step_euler"), dmpgen.stepped(b, fine[:41], "integrate_step_euler")
    mon.close(key, A[0], B[0], rtol=1e-8, atol=1e-9 * gen.scale(B[0]), msg=f"{msg}: Euler steps", **w)
    p, q = a.states_as_pos_vel_acc(*A), b.states_as_pos_vel_acc(*B)
    for x, y, v in zip(p, q, ("positions", "velocities", "accelerations")):
        mon.close(key, x, y, rtol=1e-8, atol=1e-9 * gen.scale(y), msg=f"{msg}: {v}", **w)
    xr = rng.normal(size=a.dim_x)
    mon.close(key, a.differential_equation(xr.copy()), b.differential_equation(xr.copy()), rtol=1e-8,
              atol=1e-9 * gen.scale(b.differential_equation(xr.copy())), msg=f"{msg}: rate at a random state", **w)


def point(rng, now, other):
    """A start or goal; may coincide with the other one unless the goal system is an unscaled Richards."""
    if now.get("apart", True):
        return gen.away(rng, now[other], 0.2, 2)
    return gen.vec(rng, now[other].size, -2, 2)


def one_change(rng, mon, d, now, hist):
    """One setting through any of the public ways; now is updated to what must be in effect."""
    D = now["y_init"].size
    op = gen.choice(rng, ["tau", "tau", "y_init", "goal", "start(y)", "goal-param", "both", "same", "restore", "nudge", "decouple", "wrong-size"])
    hist.append(op)
    held = d.y_init, d.y_attr
    values = [np.array(h) for h in held]
    if op == "tau":
        now["tau"] = gen.tau_(rng) if gen.chance(rng) else float(now["tau"] * rng.uniform(0.3, 3.0))
        d.tau = now["tau"]
    elif op == "y_init":
        v = point(rng, now, "y_attr")
        now["y_init"] = v.copy()
        d.y_init = v
        v += 5.0
    elif op == "goal":
        v = point(rng, now, "y_init")
        now["y_attr"] = v.copy()
        d.y_attr = v
        v *= -3.0
    elif op == "start(y)":
        v = point(rng, now, "y_attr")
        now["y_init"] = v.copy()
        x, xd = d.integrate_start(v)
        v -= 4.0
        mon.close("starts-there", x[d.SPRING_Y], now["y_init"], rtol=1e-13, atol=1e-13, msg="integrate_start(y_init)")
    elif op == "nudge":
        # a value close to the current one
        k = gen.choice(rng, ["tau", "y_init", "y_attr"])
        e = 10.0 ** rng.uniform(-5, -1.5)
        if k == "tau":
            now["tau"] = now["tau"] * (1 + e)
        else:
            other = now["y_attr" if k == "y_init" else "y_init"]
            v = now[k] + e * np.where(now[k] >= other, 1, -1)
            now[k] = v
        setattr(d, k, gen.cp(now[k]))
    elif op == "decouple":
        d.decouple_parameters()
        dmpgen.decoupled(mon, d)
    elif op == "wrong-size":
        bad = gen.vec(rng, D + 1)
        mon.raises("wrong-size", ValueError, lambda: setattr(d, gen.choice(rng, ["y_init", "y_attr"]), bad), "start or goal of the wrong size")
        mon.raises("wrong-size", ValueError, lambda: d.set_param_vector(np.zeros(d.get_param_vector_size() + 1)), "parameter vector of the wrong size")
    elif op == "goal-param":
        v = point(rng, now, "y_init")
        now["y_attr"] = v.copy()
        d.set_selected_param_names("goal" if gen.chance(rng) else ["goal"])
        d.set_param_vector(v)
        v += 1.0
        mon.close("read-back", d.get_param_vector(), now["y_attr"], rtol=0, atol=0, msg="goal as parameter")
    elif op == "both":
        v = gen.vec(rng, D, -2, 2)
        w = gen.away(rng, v, 0.2, 2)
        now["y_init"], now["y_attr"] = v.copy(), w.copy()
        if gen.chance(rng):
            d.y_init, d.y_attr = v, w
        else:
            d.y_attr, d.y_init = w, v
    elif op == "restore":
        # what was read is set again later
        d.y_init, d.y_attr = gen.vec(rng, D, -2, 2), gen.vec(rng, D, 3, 4)
        use(rng, d, now["tau"], hist)
        d.y_init, d.y_attr = held
    else:
        d.tau = now["tau"]
        d.y_attr = now["y_attr"].copy()
        d.y_init = now["y_init"].copy()
    for h, v, nm in zip(held, values, ("y_init", "y_attr")):
        mon.equal("returned-values-stay", np.asarray(h, dtype=float), v, f"{nm} that was read before the change")
    mon.close("read-back", d.tau, now["tau"], rtol=1e-12, atol=0, msg="tau read back")
    mon.equal("read-back", np.asarray(d.y_init, dtype=float), now["y_init"], "y_init read back")
    mon.equal("read-back", np.asarray(d.y_attr, dtype=float), now["y_attr"], "y_attr read back")


def use(rng, d, tau, hist):
    op = gen.choice(rng, ["solve", "steps", "rate", "nothing", "suppress", "half", "ask", "ask"])
    hist.append(op)
    if op == "ask" and ASKED:
        for a in ask(d):
            a += 7.0  # results belong to the caller
    elif op == "solve":
        d.analytical_solution(np.linspace(0, 2 * tau, 15))
    elif op == "suppress":
        d.analytical_solution(np.linspace(0, tau, 5), suppress_forcing_term=True)
    elif op == "steps":
        dmpgen.stepped(d, np.linspace(0, 2 * tau, 121))
    elif op == "half":
        dmpgen.stepped(d, np.linspace(0, 0.4 * tau, 21))
    elif op == "rate":
        d.differential_equation(rng.normal(size=d.dim_x))


def history(rng, mon):
    s = dmpgen.dmp_spec(rng, partial=0.15)
    mon.describe(**dmpgen.brief(s))
    sched = gen.chance(rng, 0.2)
    if sched:
        d = dmpgen.dmp_build(s, DmpWithSchedules, [])
    else:
        d = dmpgen.dmp_build(s)
    asked(rng, d, s["tau"])
    now = {k: s[k] for k in ("tau", "y_init", "y_attr")}
    now["apart"] = "NO_SCALING" in s["type"] or s["custom"].get("goal") == "richards"
    hist = []
    for _ in range(int(rng.integers(1, 8))):
        one_change(rng, mon, d, now, hist)
        if gen.chance(rng, 0.5):
            use(rng, d, now["tau"], hist)
        if gen.chance(rng, 0.1):
            hist.append("copy")
            old = d
            d = copy.deepcopy(d)
            old.tau = now["tau"] * 7
            old.y_attr = now["y_attr"] + 3
    mon.describe(history=hist, final=now)
    f = dict(s)
    f.update(now)
    fresh = dmpgen.dmp_build(f)
    compare(mon, "same-as-built", d, fresh, now["tau"], rng, "changed vs. built")
    # the movement starts and ends where it was told to
    ts = np.linspace(0, 10 * now["tau"], 2401)
    xs, xds, _, _ = d.analytical_solution(ts)
    y, yd, _ = d.states_as_pos_vel_acc(xs, xds)
    mon.close("starts-there", y[0], now["y_init"], rtol=1e-12, atol=1e-12, msg="first position")
    mon.close("ends-there", y[-1], now["y_attr"], rtol=0, atol=2e-4 * gen.scale(y), msg="last position")
    if s["fas"] is not None and len(hist) >= 2:
        mon.nontrivial(dmpgen.brief(s), hist, now)


def subsystems(rng, mon):
    """Parameters of the subsystems set on an existing DMP: as built with them."""
    ASKED.clear()
    s = dmpgen.dmp_spec(rng, custom=False)
    d, tau = len(s["y_init"]), s["tau"]
    s["custom"] = {"goal": "exp", "goal_alpha": gen.per_dim(rng, d, 8.0, 20.0), "spring_damping": gen.per_dim(rng, d, 15.0, 40.0),
                   "spring_constant": gen.per_dim(rng, d, 60.0, 300.0), "spring_mass": 1.0}
    own_damping = gen.chance(rng, 0.3)
    if own_damping:
        s["custom"].update(damping="exp", damping_init=rng.uniform(2, 10, d), damping_final=rng.uniform(15.0, 40.0, d), damping_alpha=gen.per_dim(rng, d, 2.0, 8.0))
    dmp = dmpgen.dmp_build(s)
    f = copy.deepcopy(s)
    given = {}
    if gen.chance(rng, 0.7):
        f["custom"]["goal_alpha"] = gen.per_dim(rng, d, 8.0, 20.0)
        given["goal_system"] = {"alpha": gen.cp(f["custom"]["goal_alpha"])}
    if own_damping and gen.chance(rng, 0.8):
        f["custom"]["damping_alpha"] = gen.per_dim(rng, d, 2.0, 8.0)
        given["damping_system"] = {"alpha": gen.cp(f["custom"]["damping_alpha"])}
    if gen.chance(rng, 0.7) or not given:
        k, nm, lo, hi = gen.choice(rng, [("spring_damping", "damping_coefficient", 15.0, 40.0), ("spring_constant", "spring_constant", 60.0, 300.0), ("spring_mass", "mass", 0.5, 2.0)])
        f["custom"][k] = gen.per_dim(rng, d, lo, hi)
        given["spring_system"] = {nm: gen.cp(f["custom"][k])}
    mon.describe(**dmpgen.brief(s), given=given)
    asked(rng, dmp, tau)
    if gen.chance(rng):
        use(rng, dmp, tau, [])
    with mon.untouched("arguments", given):
        dmp.set_params_dyn_sys(given)
    has_damping = np.ptp(dmpgen.dmp_build(f).analytical_solution(np.linspace(0, tau, 5))[0][:, -1]) != 0
    if not (has_damping and "damping_coefficient" in given.get("spring_system", {})):  # the damping may be a state of its own
        compare(mon, "subsystem-parameters", dmp, dmpgen.dmp_build(f), tau, rng, "set on the subsystems vs. built")
    for wrong in ({"goal_system": {"no_such_parameter": 1.0}}, {"no_such_system": {"alpha": 1.0}}):
        mon.raises("subsystem-parameters", Exception, lambda: dmp.set_params_dyn_sys(wrong), f"{wrong}")
    mon.nontrivial(dmpgen.brief(s), given)


def duration(rng, mon):
    ASKED.clear()
    s = dmpgen.dmp_spec(rng, partial=0.15)
    mon.describe(**dmpgen.brief(s))
    d = dmpgen.dmp_build(s)
    tau = s["tau"]
    ts = np.linspace(0, 1.5 * tau, 301)
    at_tau = np.abs(ts - tau) < 1e-9 * tau
    ts[at_tau] += 1e-4 * tau
    xs, xds, _, _ = d.analytical_solution(ts)
    sx, sxd = dmpgen.stepped(d, ts[:201])
    ref = d.states_as_pos_vel_acc(xs, xds)
    sref = d.states_as_pos_vel_acc(sx, sxd)
    for k in (float(gen.choice(rng, [0.5, 2.0, rng.uniform(0.1, 10)])), float(rng.uniform(0.3, 3))):
        d.tau = k * tau
        for got, want, w in (
            (d.states_as_pos_vel_acc(*d.analytical_solution(k * ts)[:2]), ref, "solution"),
            (d.states_as_pos_vel_acc(*dmpgen.stepped(d, k * ts[:201])), sref, "steps"),
        ):
            mon.close("tau-same-path", got[0], want[0], rtol=1e-7, atol=1e-8 * gen.scale(want[0]), msg=f"{w}: path after tau*{k}")
            mon.close("tau-velocities", got[1] * k, want[1], rtol=1e-7, atol=1e-7 * gen.scale(want[1]), msg=f"{w}: velocities after tau*{k}")
            mon.close("tau-accelerations", got[2] * k * k, want[2], rtol=1e-6, atol=1e-7 * gen.scale(want[2]), msg=f"{w}: accelerations after tau*{k}")
    d.tau = tau
    x2, xd2, _, _ = d.analytical_solution(ts)
    mon.close("tau-same-path", x2, xs, rtol=1e-8, atol=1e-9 * gen.scale(xs), msg="tau changed and restored")
    if s["fas"] is not None:
        mon.nontrivial(dmpgen.brief(s))


def training(rng, mon):
    D = int(rng.integers(1, 4))
    demos = [dmpgen.demonstration(rng, n_dims=D, wiggle=1.0) for _ in range(2)]
    s = dmpgen.dmp_spec(rng, d=D, no_fa=0.0)
    kw = dict(dmp_type=s["type"], forcing_term_scaling=s["scaling"], alpha_spring_damper=s["alpha"])
    mon.describe(**kw, fas=[f["spec"] for f in s["fas"]], T=[float(t.ts[-1]) for t in demos])
    fas = lambda: [dmpgen.fa_build(f["spec"]) for f in s["fas"]]  # noqa: E731
    if gen.chance(rng):
        demos = demos[::-1]
    d = Dmp.from_traj(demos[0], fas(), **kw)
    asked(rng, d, d.tau)
    hist = ["from_traj"]
    now = {"tau": float(demos[0].ts[-1]), "y_init": demos[0].ys[0].copy(), "y_attr": demos[0].ys[-1].copy()}
    for i in range(int(rng.integers(0, 4))):
        one_change(rng, mon, d, now, hist)
        use(rng, d, now["tau"], hist)
    last = demos[0]
    if gen.chance(rng, 0.6):
        d.train(demos[1])
        hist.append("train")
        last = demos[1]
        now = {"tau": float(last.ts[-1]), "y_init": last.ys[0].copy(), "y_attr": last.ys[-1].copy()}
        mon.describe(history=hist)
        compare(mon, "train-is-fresh", d, Dmp.from_traj(last, fas(), **kw), now["tau"], rng, "trained after changes vs. only trained")
        mon.close("read-back", d.tau, now["tau"], rtol=1e-12, atol=0, msg="tau after training")
        mon.close("read-back", d.y_init, now["y_init"], rtol=1e-12, atol=0, msg="y_init after training")
        mon.close("read-back", d.y_attr, now["y_attr"], rtol=1e-12, atol=0, msg="y_attr after training")
        for i in range(int(rng.integers(0, 4))):
            one_change(rng, mon, d, now, hist)
            use(rng, d, now["tau"], hist)
    mon.describe(history=hist)
    # the same trained forcing term in a DMP built with the final values
    other = Dmp.from_traj(last, fas(), **kw)
    trained = other._function_approximators
    fresh = Dmp(now["tau"], now["y_init"].copy(), now["y_attr"].copy(), trained,
                scaling_amplitudes=last.ys.max(axis=0) - last.ys.min(axis=0), **kw)
    compare(mon, "history-around-training", d, fresh, now["tau"], rng, "changed after training vs. built")
    if len(hist) > 2:
        mon.nontrivial(kw, [f["spec"] for f in s["fas"]], hist)


FAMILIES = {"history": (history, 160, 2500), "subsystems": (subsystems, 24, 300), "duration": (duration, 60, 800), "training": (training, 60, 800)}
CASE_TIMEOUT = 120
