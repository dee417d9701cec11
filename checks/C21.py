"""C21 An optimization run evaluates, updates and records every sample exactly once."""
import copy
import os
import shutil
import tempfile
from pathlib import Path

import numpy as np

from dmpbbo.bbo.LearningSession import LearningSession
from dmpbbo.bbo.run_optimization import run_optimization
from dmpbbo.bbo.updaters import UpdaterCovarAdaptation, UpdaterCovarDecay, UpdaterMean
from dmpbbo.bbo_of_dmps.LearningSessionTask import LearningSessionTask
from dmpbbo.bbo_of_dmps.run_optimization_task import run_optimization_task
from dmpbbo.bbo_of_dmps.TaskSolverDmp import TaskSolverDmp
from mon import dmpgen, gen, tasks

RULE = ("A case is a whole optimization (0-12 updates, 1-40 samples, a few with more than 100 samples, 1-6 parameters, "
        "plain and bounded distributions, all updaters and weightings, costs with and without components, in memory and on disk) of "
        "user code that records every call: the event log is judged against the trace specification, and the session - also "
        "reopened from disk - against the event log. Costs and rollouts differ at every call, so that a sample with the costs or rollout of "
        "another one, or of an earlier call, shows. Non-trivial with at least one update. Distinct by parameters.")
ASSUMPTIONS = ["the order of the evaluation of the mean relative to the samples of its update is free",
               "arrays with one element, row or column are compared by content (see C22)"]
required = ["sampled-once", "from-updated-distribution", "evaluated-once-in-order", "mean-evaluated", "updater-input", "updater-distribution",
            "stored-distribution", "stored-samples", "stored-costs", "stored-weights", "stored-distribution-new", "stored-eval",
            "n-updates", "learning-curve", "cost-ratio", "own-rollout", "stored-rollout", "dmp-rollout", "same-on-disk", "exactly-these"]


def updater(rng, d):
    h = int(rng.integers(2, 12))
    w = gen.choice(rng, ["PI-BB", "CEM", "CMA-ES"])
    k = int(rng.integers(3))
    if k == 0:
        return UpdaterMean(eliteness=h, weighting_method=w)
    if k == 1:
        return UpdaterCovarDecay(eliteness=h, weighting_method=w, covar_decay_factor=float(rng.uniform(0.5, 1.0)))
    return UpdaterCovarAdaptation(
        eliteness=h, weighting_method=w, diagonal_max=gen.choice(rng, [None, 2.0, rng.uniform(0.5, 3, d)]),
        diagonal_min=gen.choice(rng, [None, 0.05]), diag_only=gen.chance(rng), learning_rate=float(rng.uniform(0.2, 1.0)))


def distribution(rng, d):
    mean = rng.normal(size=d) * 3
    A = rng.normal(size=(d, d))
    covar = gen.choice(rng, [np.eye(d), A @ A.T / d + 0.05 * np.eye(d), np.diag(rng.uniform(0.01, 2, d)), np.zeros((d, d))])
    if gen.chance(rng, 0.25):
        return tasks.RecDistributionBounded(mean, covar, -3.0, mean + 0.5)
    return tasks.RecDistribution(mean, covar)


def sizes(rng):
    d = int(gen.choice(rng, [1, 1, 2, 2, 3, 6]))
    n = int(gen.choice(rng, [1, 2, 3, 5, 10, int(rng.integers(2, 40))]))
    u = int(gen.choice(rng, [0, 1, 1, 2, 3, 5, 12]))
    if gen.chance(rng, 0.04):
        n, u = int(rng.integers(101, 130)), 2
    return d, n, u


def without_mean(log, between, samples, mean, costs):
    """Leave out the evaluation of the mean, if it takes place among those of the samples.

    If samples are equal to the mean, then which of them it is shows only in the costs (which differ at every call)."""
    if len(between) != len(samples) + 1:
        return between
    fits = []
    for skip in between:
        rest = [k for k in between if k != skip]
        if np.array_equal(log[skip][1]["sample"], mean) and all(np.array_equal(log[k][1]["sample"], s) for k, s in zip(rest, samples)):
            fits.append(rest)
    for rest in fits:
        if len(costs) == len(rest) and all(np.atleast_1d(log[k][1]["cost"])[0] == np.atleast_1d(c)[0] for k, c in zip(rest, costs)):
            return rest
    return fits[0] if fits else between


def judge_log(mon, log, dist0, n, u, task):
    """The trace specification. Returns the history per update."""
    gens = [(k, e) for k, (t, e) in enumerate(log) if t == "generate"]
    upds = [(k, e) for k, (t, e) in enumerate(log) if t == "update"]
    mon.must("sampled-once", len(gens) == u, "number of times samples were drawn", got=len(gens), expected=u)
    mon.must("updated-once", len(upds) == u, "number of updates", got=len(upds), expected=u)
    evals = [k for k, (t, e) in enumerate(log) if t == "evaluate"]
    used = set()
    hist = []
    mean, covar, uid = dist0.mean, dist0.covar, dist0.uid
    for i in range(u):
        (kg, g), (ku, up) = gens[i], upds[i]
        mon.must("order", kg < ku and (i == 0 or upds[i - 1][0] < kg), "samples are drawn, then the distribution is updated", update=i)
        mon.ok("sampled-once", g["n"] == n and np.shape(g["samples"]) == (n, mean.size), "number of samples", update=i, got=np.shape(g["samples"]))
        mon.equal("from-updated-distribution", g["mean"], mean, f"update {i}: mean of the distribution sampled from")
        mon.equal("from-updated-distribution", g["covar"], covar, f"update {i}: covariance of the distribution sampled from")
        mon.ok("from-updated-distribution", g["uid"] == uid, "which distribution is sampled from", update=i, got=g["uid"], expected=uid)
        # every sample once, in between
        between = [k for k in evals if kg < k < ku]
        between = without_mean(log, between, g["samples"], mean, up["costs"])
        costs, rollouts, at = [], [], 0
        for j in range(n):
            while at < len(between) and not np.array_equal(log[between[at]][1]["sample"], g["samples"][j]):
                at += 1
            mon.must("evaluated-once-in-order", at < len(between), "sample was not evaluated (or not in order) between being drawn and the update",
                     update=i, sample=j)
            e = log[between[at]][1]
            used.add(between[at])
            costs.append(e["cost"])
            rollouts.append(e.get("cost_vars"))
            at += 1
        mon.ok("updater-input", np.array_equal(np.asarray(up["samples"]), g["samples"]), "samples given to the updater", update=i)
        mon.must("updater-input", len(up["costs"]) == n, "number of costs given to the updater", update=i, got=len(up["costs"]))
        for j in range(n):
            got, exp = np.atleast_1d(up["costs"][j]), np.atleast_1d(costs[j])
            mon.ok("updater-input", got[0] == exp[0] and (got.size == 1 or np.array_equal(got, exp)),
                   "cost given to the updater is not that of the sample", update=i, sample=j, got=got, expected=exp)
        mon.ok("updater-distribution", up["uid"] == uid and np.array_equal(up["mean"], mean) and np.array_equal(up["covar"], covar),
               "the distribution updated is not the one sampled from", update=i)
        hist.append(dict(mean=mean, covar=covar, samples=g["samples"], costs=costs, rollouts=rollouts, weights=up["weights"],
                         new_mean=up["new_mean"], new_covar=up["new_covar"]))
        mean, covar, uid = up["new_mean"], up["new_covar"], up["new_uid"]
    rest = [log[k][1] for k in evals if k not in used]
    mon.must("mean-evaluated", len(rest) == u, "evaluations other than of the samples: one per update", got=len(rest), expected=u)
    for i, e in enumerate(rest):
        mon.equal("mean-evaluated", e["sample"], hist[i]["mean"], f"update {i}: sample evaluated as the mean")
        hist[i]["eval_cost"], hist[i]["eval_rollout"] = e["cost"], e.get("cost_vars")
    if task:
        rollouts = [(k, e) for k, (t, e) in enumerate(log) if t == "rollout"]
        mon.must("own-rollout", len(rollouts) == len(evals), "one rollout per evaluation", got=len(rollouts), expected=len(evals))
        free = dict(enumerate(rollouts))
        for k in evals:
            e = log[k][1]
            hit = [j for j, (kr, r) in free.items() if kr < k and np.array_equal(np.asarray(r["cost_vars"]), np.asarray(e["cost_vars"]))]
            mon.must("own-rollout", bool(hit), "cost computed from something which is not a rollout of its own", event=k)
            r = free.pop(hit[0])[1]
            mon.ok("own-rollout", np.array_equal(r["sample"], e["sample"]), "cost computed from the rollout of another sample", event=k,
                   rollout_of=r["sample"], sample=e["sample"])
    return hist


def flat(x):
    return np.asarray(getattr(x, "values", x), dtype=float).reshape(-1)


def judge_session(mon, session, hist, n, u, labels, task, where):
    mon.ok("n-updates", session.get_n_updates() == u, f"{where}: number of updates", got=session.get_n_updates(), expected=u)
    same = lambda key, a, b, msg: mon.close(key, flat(a), flat(b), rtol=1e-9, atol=1e-12, msg=f"{where}: {msg}")  # noqa: E731
    for i, h in enumerate(hist):
        dist, new = session.ask("distribution", i), session.ask("distribution_new", i)
        same("stored-distribution", dist.mean, h["mean"], f"mean before update {i}")
        same("stored-distribution", dist.covar, h["covar"], f"covariance before update {i}")
        same("stored-distribution-new", new.mean, h["new_mean"], f"mean after update {i}")
        same("stored-distribution-new", new.covar, h["new_covar"], f"covariance after update {i}")
        same("stored-samples", session.ask("samples", i), h["samples"], f"samples of update {i}")
        same("stored-costs", session.ask("costs", i), h["costs"], f"costs of update {i}")
        same("stored-costs", session.get_sample_costs(i), h["costs"], f"costs of update {i}")
        same("stored-weights", session.ask("weights", i), h["weights"], f"weights of update {i}")
        same("stored-eval", session.ask("eval_cost", i), h["eval_cost"], f"evaluation of update {i}")
        same("stored-eval", session.ask("eval_sample", i), h["mean"], f"evaluated sample of update {i}")
        cost, at = session.get_eval_costs(i)
        same("stored-eval", cost, h["eval_cost"], f"evaluation of update {i}")
        mon.ok("stored-eval", at == i * n, f"{where}: number of samples at the evaluation", update=i, got=at)
        if task:
            same("stored-eval", session.ask("eval_cost_vars", i), h["eval_rollout"], f"rollout of the evaluation of update {i}")
            for s in range(n):
                same("stored-rollout", session.ask("cost_vars", i, s), h["rollouts"][s], f"rollout {s} of update {i}")
                same("stored-rollout", session.ask("sample", i, s), h["samples"][s], f"sample {s} of update {i}")
                same("stored-rollout", session.ask("cost", i, s), h["costs"][s], f"cost {s} of update {i}")
            mon.ok("exactly-these", not any(session.exists(k, i, n) for k in ("sample", "cost_vars", "cost")), f"{where}: more rollouts than samples", update=i)
    for k in ("samples", "costs", "weights", "distribution_new", "eval_cost", "eval_sample"):
        mon.ok("exactly-these", not session.exists(k, u), f"{where}: {k} of an update that never ran")
    curve, got_labels = session.get_learning_curve()
    mon.ok("learning-curve", len(curve) == u, f"{where}: rows of the learning curve", got=len(curve), expected=u)
    for i, row in enumerate(curve):
        same("learning-curve", row, np.concatenate(([i * n], flat(h_cost(hist[i])))), f"row {i} of the learning curve")
    mon.ok("learning-curve", got_labels == labels, f"{where}: labels of the costs", got=got_labels, expected=labels)
    if u > 0:
        before, after = session.get_eval_cost_before_after()
        same("cost-ratio", before, hist[0]["eval_cost"], "cost before")
        same("cost-ratio", after, hist[-1]["eval_cost"], "cost after")
        same("cost-ratio", session.get_cost_ratio(), flat(hist[-1]["eval_cost"])[0] / flat(hist[0]["eval_cost"])[0], "ratio of the costs")
    mon.ok("n-samples", int(flat(session.ask("n_samples_per_update"))[0]) == n, f"{where}: samples per update")


def h_cost(h):
    return h["eval_cost"]


def judge_plots(rng, mon, session, hist, n, u, task):
    """What the figures show."""
    import matplotlib.pyplot as plt
    ax = plt.figure().add_subplot()
    lines, _ = session.plot_learning_curve(ax)
    c = np.array([flat(h["eval_cost"]) for h in hist])
    mon.close("plotted-curve", lines[0].get_xdata(), np.arange(u) * n, msg="samples of the learning curve")
    mon.close("plotted-curve", lines[0].get_ydata(), c[:, 0], msg="costs of the learning curve")
    for k in range(1, c.shape[1]):
        mon.close("plotted-curve", lines[k].get_ydata(), c[:, k], msg="component of the learning curve")
    dots = [l for l in ax.lines if l.get_marker() == "."]
    if mon.ok("plotted-curve", len(dots) == 1, "costs of the samples"):
        mon.close("plotted-curve", dots[0].get_ydata(), [flat(x)[0] for h in hist for x in h["costs"]], msg="costs of the samples")
    ax = plt.figure().add_subplot()
    line, _ = session.plot_exploration_curve(ax)
    mon.close("plotted-exploration", line[0].get_xdata(), np.arange(u) * n, msg="samples of the exploration curve")
    mon.close("plotted-exploration", line[0].get_ydata(), [np.sqrt(max(np.linalg.eigvalsh(h["covar"])[-1], 0)) for h in hist], atol=1e-7, msg="exploration curve")
    plt.close("all")


def run(rng, mon, task):
    d, n, u = sizes(rng)
    form = gen.choice(rng, ["float", "numpy", "array", "array", "array1"] + ([] if task else ["list"]))
    labels = gen.choice(rng, [None, ["dist", "regularization"]])
    dist0 = distribution(rng, d)
    upd = tasks.RecUpdater(updater(rng, d))
    seed = int(rng.integers(2 ** 31))
    point = rng.normal(size=d) if not task else float(rng.normal())
    steps = int(gen.choice(rng, [1, 2, 7]))
    rform = gen.choice(rng, ["matrix", "vector", "frame"])
    mon.describe(n_dims=d, n_samples=n, n_updates=u, form=form, bounded=hasattr(dist0, "lower_bound"), updater=type(upd.inner).__name__,
                 settings={k: v for k, v in vars(upd.inner).items()}, mean=dist0.mean, covar=dist0.covar, rollouts=rform if task else None)
    if u:
        mon.nontrivial(d, n, u, form, dist0.mean, type(upd.inner).__name__, seed)
    hists = []
    tmp = Path(tempfile.mkdtemp(dir=mon.ctx.scratch))
    try:
        for directory in (None, tmp / "deep" / "run"):
            cost = tasks.RecTask(point, form, labels) if task else tasks.RecCost(point, form, labels)
            up, di = copy.deepcopy(upd), copy.deepcopy(dist0)
            tasks.LOG.clear()
            np.random.seed(seed)
            if directory is not None:
                os.makedirs(directory)
                directory = str(directory) if gen.chance(rng) else directory
            with mon.untouched("initial-distribution-untouched", di):
                if task:
                    session = run_optimization_task(cost, tasks.RecSolver(steps, rform), di, up, u, n, directory)
                else:
                    session = run_optimization(cost, di, up, u, n, directory)
            log = list(tasks.LOG)
            mon.event("events", len(log))
            hist = judge_log(mon, log, dist0, n, u, task)
            hists.append(hist)
            judge_session(mon, session, hist, n, u, labels if labels is not None else None, task, "session" if directory is None else "session on disk")
            mon.ok("no-further-calls", len(tasks.LOG) == len(log), "the session calls the cost function or updater again")
            if directory is not None:
                again = (LearningSessionTask if task else LearningSession).from_dir(directory)
                judge_session(mon, again, hist, n, u, labels, task, "reopened session")
                src = Path(directory, "task.py" if task else "cost_function.py").read_text()
                mon.ok("source-saved", f"class {type(cost).__name__}" in src, "source code of the cost function")
            elif gen.chance(rng, 0.3):
                session.save_all(tmp / "saved")
                again = (LearningSessionTask if task else LearningSession).from_dir(tmp / "saved")
                judge_session(mon, again, hist, n, u, labels, task, "saved session")
            if u and gen.chance(rng, 0.08):
                judge_plots(rng, mon, session, hist, n, u, task)
        a, b = hists
        for x, y in zip(a, b):
            mon.ok("same-on-disk", np.array_equal(x["samples"], y["samples"]) and all(np.array_equal(flat(p), flat(q)) for p, q in zip(x["costs"], y["costs"]))
                   and np.array_equal(x["new_mean"], y["new_mean"]), "the run depends on whether it is saved")
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def cost_function(rng, mon):
    run(rng, mon, False)


def task(rng, mon):
    run(rng, mon, True)


def dmp_solver(rng, mon):
    """The library's own solver: each rollout is the movement of the DMP with exactly this sample's parameters."""
    s = dmpgen.dmp_spec(rng, no_fa=0.0, kinds=("rbfn",), amp=20.0)
    ts0 = np.linspace(0, s["tau"], 61)
    dmp = dmpgen.dmp_build(s)
    names = gen.choice(rng, ["weights", ["weights"], ["goal", "weights"], "goal"])
    dmp.set_selected_param_names(names)
    d = len(s["y_init"])
    factor = float(gen.choice(rng, [1.0, 1.3, rng.uniform(0.8, 2.0)]))
    dt = float(s["tau"] / rng.integers(10, 40))
    frame = gen.chance(rng, 0.3)
    n, u = int(rng.integers(1, 6)), int(rng.integers(1, 4))
    mon.describe(dmp=dmpgen.brief(s), names=names, factor=factor, dt=dt, frame=frame, n_samples=n, n_updates=u)
    mon.nontrivial(dmpgen.brief(s), factor, dt)
    del ts0
    p0 = np.asarray(dmp.get_param_vector(), dtype=float)
    dist0 = tasks.RecDistribution(p0, np.diag(0.01 + (0.1 * p0) ** 2))
    ref = copy.deepcopy(dmp)
    with mon.untouched("dmp-untouched", dmp):
        solver = TaskSolverDmp(dmp, dt, factor, frame)
        tasks.LOG.clear()
        np.random.seed(int(rng.integers(2 ** 31)))
        session = run_optimization_task(tasks.RecTask(0.0, "array"), solver, dist0, tasks.RecUpdater(updater(rng, p0.size)), u, n)
    mon.equal("dmp-untouched", dmp.get_param_vector(), p0, "parameters of the DMP of the caller")
    ns = int(np.floor(s["tau"] * factor / dt)) + 1
    # steps per rollout: the borderline where the duration is a multiple of dt may go either way
    ts = None
    for i in range(u):
        samples = session.ask("samples", i)
        for j in list(range(n)) + ["eval"]:
            got = session.ask("cost_vars", i, j) if j != "eval" else session.ask("eval_cost_vars", i)
            sample = samples[j] if j != "eval" else session.ask("distribution", i).mean
            if frame:
                got = got.values
            if ts is None:
                ts = got[:, 0]
                mon.ok("dmp-rollout", abs(len(ts) - ns) <= 1, "number of time steps", got=len(ts), expected=ns)
                mon.close("dmp-rollout", ts, np.linspace(0, s["tau"] * factor, len(ts)), msg="times of the rollout")
            fresh = copy.deepcopy(ref)
            fresh.set_param_vector(np.array(sample))
            xs, xds, _, _ = fresh.analytical_solution(ts)
            traj = fresh.states_as_trajectory(ts, xs, xds)
            exp = np.column_stack((ts, traj.ys, traj.yds, traj.ydds))
            mon.close("dmp-rollout", got[:, :1 + 3 * d], exp, rtol=1e-8, atol=1e-8 * gen.scale(exp), msg=f"rollout {j} of update {i}")
    # the solver on its own: an array that is used again for the next sample, results that are changed by the caller, other DMPs
    values = lambda m: m.values if frame else m  # noqa: E731
    own = TaskSolverDmp(dmp, dt, factor, frame)
    buf = np.array(p0)
    for _ in range(3):
        buf[:] = p0 * rng.uniform(0.8, 1.2, p0.size) + 0.05 * rng.uniform(-1, 1, p0.size)
        fresh = copy.deepcopy(ref)
        fresh.set_param_vector(np.array(buf))
        xs, xds, _, _ = fresh.analytical_solution(ts)
        traj = fresh.states_as_trajectory(ts, xs, xds)
        exp = np.column_stack((ts, traj.ys, traj.yds, traj.ydds))
        for how, got in (("perform_rollout", own.perform_rollout(buf)), ("perform_rollout_dmp", own.perform_rollout_dmp(fresh)), ("perform_rollout", own.perform_rollout(buf))):
            mon.close("dmp-rollout", values(got)[:, :1 + 3 * d], exp, rtol=1e-8, atol=1e-8 * gen.scale(exp), msg=f"{how} of an array that is used again")
            got *= 0.5


FAMILIES = {"cost_function": (cost_function, 400, 3000), "task": (task, 250, 2000), "dmp_solver": (dmp_solver, 80, 600)}
