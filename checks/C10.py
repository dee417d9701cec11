"""C10 A DMP always converges to its goal."""
import numpy as np

from dmpbbo.dmps.Dmp import Dmp
from mon import dmpgen, gen

RULE = ("A case is a DMP of any type (default or user-specified subsystems, any forcing term scaling, 1-4 "
        "dimensions) with forcing term parameters up to hundreds of times the movement, rolled out for 12 tau "
        "step by step and in closed form. Non-trivial if the forcing term displaces the movement or the goal "
        "differs from the start. Distinct by parameters.")
ASSUMPTIONS = ["step sizes small compared to the time constants of the spring-damper",
               "with the unscaled Richards goal system the goal differs from the start in every dimension (known finding of C03)",
               "a goal system given for the types that scale their goal runs from 0 to 1"]
required = ["starts-at-init", "starts-at-rest", "finite", "reaches-goal", "velocity-vanishes", "no-forcing-is-spring"]


def amplitude(s):
    return max(1.0, float(np.max(np.abs(np.concatenate((s["y_init"], s["y_attr"]))))))


def judge_rollout(mon, d, s, xs, xds, what, y_init=None, goal=None):
    y_init = s["y_init"] if y_init is None else y_init
    goal = s["y_attr"] if goal is None else goal
    ys, yds, ydds = d.states_as_pos_vel_acc(xs, xds)
    mon.ok("finite", np.all(np.isfinite(xs)) and np.all(np.isfinite(xds)), f"{what}: states not finite")
    mon.close("starts-at-init", ys[0], y_init, rtol=1e-12, atol=1e-12, msg=f"{what}: first position")
    mon.close("starts-at-rest", yds[0], np.zeros(goal.size), rtol=0, atol=1e-12, msg=f"{what}: first velocity")
    sc = gen.scale(ys)
    sv = gen.scale(yds)
    mon.close("reaches-goal", ys[-1], goal, rtol=0, atol=1e-4 * sc, msg=f"{what}: final position vs goal")
    mon.close("velocity-vanishes", yds[-1], np.zeros(goal.size), rtol=0, atol=1e-4 * sv + 1e-4 * sc, msg=f"{what}: final velocity")
    mon.close("velocity-vanishes", ydds[-1], np.zeros(goal.size), rtol=0, atol=1e-3 * gen.scale(ydds), msg=f"{what}: final acceleration")


def converge(rng, mon):
    s = dmpgen.dmp_spec(rng, partial=0.15, amp=float(gen.choice(rng, [0.0, 10.0, 100.0, 1000.0])))
    equal = gen.chance(rng, 0.15)
    if equal and "NO_SCALING" not in s["type"] and s["custom"].get("goal") != "richards":
        i = int(rng.integers(s["y_init"].size))
        s["y_attr"][i] = s["y_init"][i]
    mon.describe(**dmpgen.brief(s))
    d = dmpgen.dmp_build(s)
    tau = s["tau"]
    if s["fas"] is not None and gen.chance(rng, 0.5):
        kinds = {f["spec"]["kind"] for f in s["fas"]}
        if len(kinds) == 1:
            d.set_selected_param_names(["weights"] if kinds == {"rbfn"} else ["offsets", "slopes"])
            n = d.get_param_vector_size()
            d.set_param_vector(rng.normal(size=n) * float(gen.choice(rng, [1.0, 50.0, 500.0])))
    y_init, goal = s["y_init"].copy(), s["y_attr"].copy()
    changed = gen.chance(rng, 0.4)
    if changed:
        if "NO_SCALING" in s["type"] or s["custom"].get("goal") == "richards":
            goal = gen.away(rng, y_init, 0.5, 2)
            d.y_attr = goal.copy()
        else:
            goal = gen.vec(rng, goal.size, -2, 2)
            y_init = gen.vec(rng, goal.size, -2, 2)
            d.y_attr = goal.copy()
            if gen.chance(rng):
                d.y_init = y_init.copy()
            else:
                d.integrate_start(y_init.copy())
    tf = np.linspace(0, 12 * tau, 3000)
    with mon.untouched("arguments-untouched", tf):
        xs, xds, ft, fo = d.analytical_solution(tf)
    judge_rollout(mon, d, s, xs, xds, "closed form", y_init, goal)
    mon.ok("forcing-fades", np.abs(ft[-1]) <= 1e-3 * (1.0 + np.max(np.abs(ft), axis=0)), "forcing term has not faded", last=ft[-1])
    n = 60 if mon.tier == "quick" else 100
    ts = np.linspace(0, 12 * tau, 12 * n)
    start = None
    if changed and gen.chance(rng):
        start = d.integrate_start(y_init.copy())
    xs2, xds2 = dmpgen.stepped(d, ts, x0=start)
    judge_rollout(mon, d, s, xs2, xds2, "steps", y_init, goal)
    # the whole state settles: goal at the goal, damping constant
    mon.ok("settles", np.max(np.abs(xds2[-1])) <= 1e-3 * gen.scale(xds2), "state still moving at the end", xd=xds2[-1])
    if np.any(np.abs(ft) > 1e-6) or np.any(goal != y_init):
        mon.nontrivial(dmpgen.brief(s), y_init, goal)


def no_forcing(rng, mon):
    """Without forcing term: the spring-damper pulled by the delayed goal, integrated independently."""
    s = dmpgen.dmp_spec(rng, no_fa=0.5, partial=0.2)
    mon.describe(**dmpgen.brief(s))
    d = dmpgen.dmp_build(s)
    plain = dmpgen.dmp_build(dict(s, fas=None))
    n, tau = s["y_init"].size, s["tau"]
    ts = np.linspace(0, 2.5 * tau, 501)
    xs, xds, ft, fo = d.analytical_solution(ts, suppress_forcing_term=True)
    xp, xdp, ftp, _ = plain.analytical_solution(ts)
    mon.close("no-forcing-is-spring", xs, xp, rtol=1e-12, atol=1e-12, msg="suppressed forcing vs. no approximators")
    mon.close("no-forcing-is-spring", xds, xdp, rtol=1e-12, atol=1e-12, msg="rates with suppressed forcing")
    mon.close("no-forcing-is-spring", ft, np.zeros(ft.shape), rtol=0, atol=0, msg="suppressed forcing terms")
    c = s["custom"]
    if "spring_damping" in c:
        cd = np.broadcast_to(np.asarray(c["spring_damping"], float), (n,))
        m = c["spring_mass"]
        k = cd * cd / (4 * m) if isinstance(c["spring_constant"], str) else np.broadcast_to(np.asarray(c["spring_constant"], float), (n,))
    else:
        cd, m = np.full(n, s["alpha"]), 1.0
        k = cd * cd / 4

    # delayed goal and damping from their own states, on a grid twice as fine (for the middle stages)
    def run(dmp, f):
        t2 = np.linspace(0, 2.5 * tau, 2 * (ts.size - 1) * f + 1)
        X = dmp.analytical_solution(t2, suppress_forcing_term=True)[0]
        goal = X[:, dmp.GOAL]
        if dmp.goal_system_requires_scaling:
            goal = s["y_init"] + (s["y_attr"] - s["y_init"]) * goal
        damp = X[:, dmp.DAMPING]
        y, z = s["y_init"].copy(), np.zeros(n)
        h = t2[2] - t2[0]
        out = [np.concatenate((y, z))]

        def rhs(w, i):
            return np.concatenate((w[n:] / tau, (-k * (w[:n] - goal[i]) - damp[i] * w[n:]) / (m * tau)))
        w = out[0]
        for i in range(0, len(t2) - 2, 2):
            k1 = rhs(w, i)
            k2 = rhs(w + 0.5 * h * k1, i + 1)
            k3 = rhs(w + 0.5 * h * k2, i + 1)
            k4 = rhs(w + h * k3, i + 2)
            w = w + h * (k1 + 2 * k2 + 2 * k3 + k4) / 6
            out.append(w)
        return np.array(out)[::f]
    ref = run(plain, 2)
    own = s["custom"].get("damping", "exp" if "DAMPING" in s["type"] else "none")
    if own == "exp" and "damping" in s["custom"]:
        c = s["custom"]
        want = c["damping_final"] + (c["damping_init"] - c["damping_final"]) * np.exp(-np.outer(ts / tau, np.ones(len(c["damping_final"])) * c["damping_alpha"]))
        mon.close("no-forcing-is-spring", xp[:, plain.DAMPING], want, rtol=1e-9, msg="damping given by a system of its own")
    if own == "none":
        mon.close("no-forcing-is-spring", xp[:, plain.DAMPING], np.tile(cd, (ts.size, 1)), rtol=1e-12, atol=0, msg="constant damping")
    xr, xdr = dmpgen.stepped(plain, ts)
    sc = gen.scale(ref)
    mon.close("no-forcing-is-spring", xr[:, plain.SPRING], ref, rtol=0, atol=2e-4 * sc, msg="steps without approximators vs. independent spring-damper")
    # closed form integrates the spring with Euler steps: first order in the step
    e = np.max(np.abs(xp[:, plain.SPRING] - ref)) / sc
    mon.ok("no-forcing-is-spring", e < 0.15, "solution over a time vector far from the spring-damper", error=e)
    fine = np.linspace(0, 2.5 * tau, 4001)
    e2 = np.max(np.abs(plain.analytical_solution(fine)[0][::8][:, plain.SPRING] - ref)) / sc
    mon.ok("no-forcing-is-spring", e2 < 0.35 * e + 1e-6, "solution does not approach the spring-damper with smaller steps", e=e, e2=e2)
    mon.nontrivial(dmpgen.brief(s))


FAMILIES = {"converge": (converge, 60, 700), "no-forcing": (no_forcing, 60, 600)}
CASE_TIMEOUT = 120
