"""C15 A contextual DMP reproduces its demonstrations at their task parameters."""
import copy

import numpy as np

from dmpbbo.dmps.Dmp import Dmp
from dmpbbo.dmps.DmpContextualTwoStep import DmpContextualTwoStep
from mon import dmpgen, gen

RULE = ("A case is a set of 3-7 demonstrations with one or two task parameters, a DMP type, approximator, selected "
        "parameters (possibly with the goal) and class of policy parameter function (one for all or one each), and a random "
        "sequence of queries: solutions, step-wise rollouts, task parameters set between steps, new start positions. "
        "Non-trivial if the demonstrations' parameters differ and at least three different task parameters "
        "were asked. Distinct by parameters and queries.")
ASSUMPTIONS = ["all parameters of the forcing term that differ between demonstrations are selected",
               "task parameters are queried as an array with one row",
               "forcing term not scaled by amplitude (which amplitude applies is unspecified)"]
QUICK = 3
required = ["predicts-parameters", "own-parameters", "own-movement", "solution-uses-parameters", "steps-use-parameters", "last-query-counts", "trained-again", "duration-and-start", "given-dmp-untouched"]

TYPES = ["IJSPEERT_2002_MOVEMENT", "KULVICIUS_2012_JOINING", "COUNTDOWN_2013", "SCT23", "SCT23_NO_SCALING", "SCT23_DAMPING", "2022"]


def demonstrations(rng, n, n_task, D, same_frame):
    """Demonstrations that depend smoothly on the task parameters, as lists of (parameters, trajectory)."""
    T = float(gen.choice(rng, [1.0, 0.5, rng.uniform(0.4, 3.0)]))
    length = int(rng.integers(80, 150))
    y0 = gen.vec(rng, D, -1, 1)
    y1 = gen.away(rng, y0, 0.5, 2.0)
    if n_task == 1:
        P = np.linspace(0, 1, n)[:, None] * rng.uniform(0.5, 2.0)
    else:
        a, b = np.meshgrid(np.linspace(0, 1, 3), np.linspace(0, 1, 2))
        P = np.stack((a.ravel(), b.ravel()), axis=1)[:max(4, min(n, 6))]
    P = P[rng.permutation(len(P))]
    w1, w2 = rng.uniform(-1, 1, n_task), rng.uniform(-1, 1, n_task)
    out = []
    from dmpbbo.dmps.Trajectory import Trajectory
    for p in P:
        Ti = T if same_frame else T * (1 + 0.3 * np.tanh(p @ w1))
        ts = np.linspace(0, Ti, length)
        s = ts / Ti
        a = y0 if same_frame else y0 + 0.3 * np.sin(p @ w2)
        b = y1 if same_frame else y1 + 0.3 * np.cos(p @ w1) * np.sign(y1 - y0)
        # smooth in the task parameters: same shapes, weighted by them
        mj = 10 * s ** 3 - 15 * s ** 4 + 6 * s ** 5
        bell = (s * (1 - s)) ** 3
        ys = np.outer(1 - mj, a) + np.outer(mj, b) + np.stack([60 * bell * np.sin((k + 1) * 4 * s + p @ w2) * (0.3 + p @ w1) for k in range(D)], axis=1)
        tr = Trajectory(ts, ys) if gen.chance(rng, 0.3) else Trajectory(ts, ys, np.gradient(ys, ts, axis=0), np.gradient(np.gradient(ys, ts, axis=0), ts, axis=0))
        out.append((p.copy(), tr))
    return out


def ppf_spec(rng, n_task, n):
    k = gen.choice(rng, ["gpr", "gpr", "gpr", "wls", "rbfn", "lwr"])
    if k == "gpr":
        return {"kind": "gpr", "max_cov": float(rng.uniform(0.5, 4)), "lengths": float(rng.uniform(0.1, 0.3)) if n_task == 1 else rng.uniform(0.2, 0.5, n_task)}
    if k == "wls":
        return {"kind": "wls", "offset": True, "reg": 1e-6}
    return {"kind": k, "n_bfs": 3 if n_task == 1 else 2, "height": 0.6, "reg": 1e-4}


def reads_back(mon, c, tau, y_init):
    mon.close("duration-and-start", c.tau, tau, rtol=1e-9, msg="duration of the contextual DMP")
    mon.close("duration-and-start", c.y_init, y_init, rtol=1e-9, atol=1e-9, msg="start of the contextual DMP")


def same_dmp(mon, d, was, untrained):
    """The DMP from which a contextual one was made is still the same."""
    mon.equal("given-dmp-untouched", d.get_param_vector(), was.get_param_vector(), "selected parameters")
    mon.ok("given-dmp-untouched", d.get_param_vector_size() == was.get_param_vector_size(), "number of selected parameters")
    ts = np.linspace(0, 1.2 * was.tau, 20)
    for a, b in zip(d.analytical_solution(ts), was.analytical_solution(ts)):
        mon.equal("given-dmp-untouched", a, b, "movement")


def run(rng, mon):
    D = int(rng.integers(1, 4))
    n_task = int(gen.choice(rng, [1, 1, 2]))
    same = gen.chance(rng)
    demos = demonstrations(rng, int(rng.integers(3, 8)), n_task, D, same)
    scalar = n_task == 1 and gen.chance(rng)
    fa = gen.choice(rng, [{"kind": "rbfn", "n_bfs": int(rng.integers(4, 10)), "height": 0.7, "reg": 1e-6},
                          {"kind": "lwr", "n_bfs": int(rng.integers(3, 8)), "height": 0.6, "reg": 1e-6}])
    base = ["weights"] if fa["kind"] == "rbfn" else ["slopes", "offsets"]
    names = base + ["goal"] * gen.chance(rng, 0.4)
    if gen.chance(rng, 0.3):
        names = names[::-1]
    if len(names) == 1 and gen.chance(rng):
        names = names[0]
    kw = dict(dmp_type=gen.choice(rng, TYPES), forcing_term_scaling=gen.choice(rng, ["NO_SCALING", "G_MINUS_Y0_SCALING"]))
    if gen.chance(rng):
        kw["alpha_spring_damper"] = float(rng.uniform(15, 30))
    ps = ppf_spec(rng, n_task, len(demos))
    mon.describe(**kw, n_dims=D, n_demos=len(demos), n_task=n_task, same_frame=same, fa=fa, names=names, ppf=ps, scalar=scalar)
    fas = lambda: [dmpgen.fa_build(fa) for _ in range(D)]  # noqa: E731

    # the reference: one DMP per demonstration, one regression per parameter
    single, vectors = [], []
    for p, t in demos:
        d = Dmp.from_traj(t, fas(), **kw)
        d.set_selected_param_names(copy.copy(names))
        single.append(d)
        vectors.append(np.array(d.get_param_vector()))
    V = np.array(vectors)
    P = np.array([p for p, _ in demos])
    regs = []
    # one policy parameter function for all, or one for each parameter, which need not be of the same kind
    listed = gen.chance(rng, 0.35)
    pss = [ppf_spec(rng, n_task, len(demos)) if listed and gen.chance(rng, 0.4) else ps for _ in range(V.shape[1])]
    for j in range(V.shape[1]):
        r = dmpgen.fa_build(pss[j])
        r.train(P.copy(), V[:, j].copy())
        regs.append(r)

    given = [((float(p[0]) if scalar else p.copy()), t) for p, t in demos]
    ppf = [dmpgen.fa_build(p) for p in pss] if listed else dmpgen.fa_build(ps)
    ekw = dict(save_training_data=True) if gen.chance(rng, 0.2) else {}
    given_dmp = None
    with mon.untouched("demonstrations-untouched", *[x for _, t in given for x in (t.ts, t.ys, t.yds, t.ydds)]):
        if gen.chance(rng, 0.6):
            c = DmpContextualTwoStep.from_trajs(given, fas(), copy.copy(names), ppf, **kw, **ekw)
        else:
            t0 = demos[int(rng.integers(len(demos)))][1]
            untrained = gen.chance(rng)
            d0 = Dmp(float(t0.ts[-1]), t0.ys[0].copy(), t0.ys[-1].copy(), fas(), **kw) if untrained else Dmp.from_traj(t0, fas(), **kw)
            if not untrained:
                # what the caller selected, and goes on using
                d0.set_selected_param_names(gen.choice(rng, [[base[0]], ["goal"], list(base)]))
            was = copy.deepcopy(d0)
            c = DmpContextualTwoStep.from_dmp(given, d0, copy.copy(names), ppf, **ekw)
            given_dmp = (d0, was, untrained)

    now = {"tau": float(np.mean([d.tau for d in single])), "y_init": np.mean([d.y_init for d in single], axis=0),
           "y_attr": np.mean([d.y_attr for d in single], axis=0)}
    trained = copy.deepcopy(single[0]._function_approximators)
    ref = Dmp(now["tau"], now["y_init"], now["y_attr"], trained, **kw)
    ref.set_selected_param_names(copy.copy(names))

    def predict(p):
        return np.array([float(np.asarray(r.predict(p.reshape(1, -1))).reshape(-1)[0]) for r in regs])

    def ask(p):
        v = predict(p)
        ref.set_param_vector(v.copy())
        return v

    mon.ok("predicts-parameters", c.dim_dmp() == D, "number of dimensions")
    reads_back(mon, c, now["tau"], now["y_init"])
    if isinstance(ppf, list):
        for bad in (ppf[:-1], ppf + [dmpgen.fa_build(ps)]):
            mon.raises("one-function-per-parameter", RuntimeError, lambda: DmpContextualTwoStep.from_dmp(
                given, Dmp.from_traj(demos[0][1], fas(), **kw), copy.copy(names), copy.deepcopy(bad)), "policy parameter functions of the wrong number")
    if gen.chance(rng, 0.3):
        c.decouple_parameters()
        if getattr(c, "dmp", None) is not None:
            dmpgen.decoupled(mon, c.dmp)
        ref.decouple_parameters()
    queries = []
    tol = lambda a: 1e-7 * gen.scale(a)  # noqa: E731
    ts = np.linspace(0, 1.3 * now["tau"], 60)
    lo, hi = P.min(axis=0), P.max(axis=0)
    x = None
    dt = now["tau"] / 60
    for q in range(int(rng.integers(5, 12))):
        i = int(rng.integers(len(demos))) if gen.chance(rng) else None
        p = P[i].copy() if i is not None else rng.uniform(lo - 0.1, hi + 0.1)
        row = p.reshape(1, -1).copy()
        op = gen.choice(rng, ["solution", "solution", "steps", "set", "start(y)", "between", "suppress"])
        if gen.chance(rng, 0.12):
            # slower or faster than the demonstrations
            dt *= (tau := float(now["tau"] * rng.uniform(0.6, 1.7))) / ref.tau
            c.tau = ref.tau = tau
            queries.append(("tau", [tau]))
            reads_back(mon, c, tau, ref.y_init)
        if gen.chance(rng, 0.12) and "NO_SCALING" not in kw["dmp_type"]:
            y = now["y_init"] + rng.uniform(-0.2, 0.2, D)
            c.y_init = y.copy()
            ref.y_init = y.copy()
            queries.append(("y_init", [float(z) for z in y]))
            reads_back(mon, c, ref.tau, y)
        if op == "start(y)" and "NO_SCALING" in kw["dmp_type"]:
            op = "steps"
        queries.append((op, [round(float(z), 6) for z in p]))
        w = dict(queries=queries[-5:])
        v = ask(p)
        if op == "set":
            c.set_task_params(row)
        elif op in ("solution", "suppress"):
            sup = op == "suppress"
            n = int(rng.integers(2, 60))
            got = c.analytical_solution(row, ts[:n].copy(), sup) if sup or gen.chance(rng) else c.analytical_solution(row, ts=ts[:n].copy())
            want = ref.analytical_solution(ts[:n], sup)
            for a, b, m in zip(got, want, ("states", "rates", "forcing terms", "approximator outputs")):
                mon.close("solution-uses-parameters", a, b, rtol=1e-7, atol=tol(b), msg=f"{m} of the solution", **w)
        elif op in ("steps", "start(y)"):
            if op == "start(y)":
                y = gen.vec(rng, D, -1, 1)
                x, xd = c.integrate_start(row, y.copy())
                r, rd = ref.integrate_start(y.copy())
            else:
                x, xd = c.integrate_start(row)
                r, rd = ref.integrate_start()
            mon.close("steps-use-parameters", x, r, rtol=1e-8, atol=tol(r), msg="first state", **w)
            sx, rx = np.array([x, x]), np.array([r, r])
            g, h = c.states_as_trajectory(ts[:2].copy(), sx, sx + 0.1), ref.states_as_trajectory(ts[:2].copy(), rx, rx + 0.1)
            for e in ("ts", "ys", "yds", "ydds"):
                mon.close("steps-use-parameters", getattr(g, e), getattr(h, e), rtol=1e-7, atol=tol(getattr(h, e)), msg=f"states as trajectory: {e}", **w)
            mon.close("steps-use-parameters", xd, rd, rtol=1e-7, atol=tol(rd), msg="first rate", **w)
            for _ in range(int(rng.integers(1, 50))):
                m = "integrate_step" if gen.chance(rng, 0.8) else "integrate_step_euler"
                x, xd = getattr(c, m)(dt, x)
                r, rd = getattr(ref, m)(dt, r)
                mon.close("steps-use-parameters", x, r, rtol=1e-7, atol=tol(r), msg="state of a step", **w)
                mon.close("steps-use-parameters", xd, rd, rtol=1e-7, atol=tol(rd), msg="rate of a step", **w)
            a, b = c.states_as_pos_vel_acc(x, xd), ref.states_as_pos_vel_acc(r, rd)
            for g, h in zip(a, b):
                mon.close("steps-use-parameters", g, h, rtol=1e-7, atol=tol(h), msg="extracted", **w)
        elif op == "between":
            # task parameters that change while a rollout is in progress
            x, xd = c.integrate_start(row)
            r, rd = ref.integrate_start()
            p2 = rng.uniform(lo, hi)
            v = ask(p2)
            if gen.chance(rng):
                c.set_task_params(p2.reshape(1, -1))
            else:
                c.analytical_solution(p2.reshape(1, -1), ts[:9])
            queries.append(("...", [float(z) for z in p2]))
            for _ in range(5):
                x, xd = c.integrate_step(dt, x)
                r, rd = ref.integrate_step(dt, r)
                mon.close("last-query-counts", x, r, rtol=1e-7, atol=tol(r), msg="after another query during a rollout", **w)
        mon.equal("arguments-untouched", row, p.reshape(1, -1), "task parameters")
        if gen.chance(rng, 0.3):
            # parameters written to the DMP in between do not outlive the next query, not even the same one
            c.dmp.set_param_vector(1.3 * c.dmp.get_param_vector() + 0.05)
            queries.append(("written", []))
            (c.set_task_params if gen.chance(rng) else c.integrate_start)((p2 if op == "between" else p).reshape(1, -1))
        got = c.dmp.get_param_vector()
        vs = np.maximum(1.0, np.max(np.abs(V), axis=0))
        mon.close("predicts-parameters", got / vs, v / vs, rtol=1e-8, atol=1e-8, msg="parameters vs. prediction of the policy parameter functions", **w)
        if given_dmp and gen.chance(rng, 0.3):
            same_dmp(mon, *given_dmp)
        if i is not None and all(q["kind"] == "gpr" for q in pss) and op != "between":
            mon.close("own-parameters", got / vs, V[i] / vs, rtol=1e-4, atol=1e-4, msg="own parameters of a demonstration", demo=i, **w)
            if same and op == "solution":
                # the movement of the DMP trained on that demonstration alone
                if not any(o in ("start(y)", "tau", "y_init") for o, _ in queries):
                    g, h = c.analytical_solution(row, ts), single[i].analytical_solution(ts)
                    mon.close("own-movement", g[0][:, c.dmp.SPRING_Y], h[0][:, c.dmp.SPRING_Y], rtol=0, atol=2e-3 * gen.scale(h[0][:, c.dmp.SPRING_Y]), msg="movement at a demonstration's task parameters", demo=i, **w)
        if gen.chance(rng, 0.1):
            old = c
            c = copy.deepcopy(c)
            old.set_task_params(rng.uniform(lo, hi).reshape(1, -1))
            queries.append(("copy", []))
    keep = sorted(rng.permutation(len(demos))[:len(demos) - 1])
    if gen.chance(rng, 0.7) and len(demos) > 3 and np.all(np.ptp(P[keep], axis=0) > 0.1):
        # trained again with fewer demonstrations: the same query is answered from the new ones alone
        again = listed and gen.chance(rng)
        regs = []
        for j in range(V.shape[1]):
            r = dmpgen.fa_build(pss[j] if again else ps)
            r.train(P[keep].copy(), V[keep, j].copy())
            regs.append(r)
        last = (p2 if op == "between" else p).reshape(1, -1)
        c.train([given[k] for k in keep], copy.copy(names), ppf if again else dmpgen.fa_build(ps))
        for row in (last, rng.uniform(lo, hi).reshape(1, -1)):
            c.set_task_params(row.copy())
            v = predict(row)
            vs = np.maximum(1.0, np.max(np.abs(V), axis=0))
            mon.close("trained-again", c.dmp.get_param_vector() / vs, v / vs, rtol=1e-6, atol=1e-6, msg="parameters after training again", queries=queries[-3:])
        mon.close("trained-again", c.dmp.tau, np.mean([single[k].tau for k in keep]), rtol=1e-9, msg="duration after training again")
    if np.max(np.ptp(V, axis=0)) > 1e-3 and len({tuple(p) for _, p in queries}) >= 3:
        mon.nontrivial(mon.context, queries)


FAMILIES = {"run": (run, 110, 1600)}
CASE_TIMEOUT = 120
