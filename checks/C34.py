"""C34 Optimization gets to low costs, in the same way wherever the optimum, start and scale of the costs are."""
import copy

import numpy as np

from demos.python.bbo_of_dmps.TaskViapoint import TaskViapoint
from dmpbbo.bbo.CostFunction import CostFunction
from dmpbbo.bbo.DistributionGaussian import DistributionGaussian
from dmpbbo.bbo.DistributionGaussianBounded import DistributionGaussianBounded
from dmpbbo.bbo.run_optimization import run_optimization
from dmpbbo.bbo.updaters import UpdaterCovarAdaptation, UpdaterCovarDecay, UpdaterMean
from dmpbbo.bbo_of_dmps.TaskSolverDmp import TaskSolverDmp
from dmpbbo.bbo_of_dmps.run_optimization_task import run_optimization_task
from dmpbbo.bbo_of_dmps.step_by_step_optimization import prepare_optimization, update_step
from dmpbbo.dmps.Dmp import Dmp
from dmpbbo.functionapproximators.FunctionApproximatorRBFN import FunctionApproximatorRBFN
from mon import dmpgen, gen
from mon.gen import chance, choice

RULE = ("A case is one optimization of a random convex cost (or of a DMP towards a viapoint), with any updater and weighting, repeated from the same random state with the "
        "problem moved, its costs scaled, shifted or in another form, or unchanged. The cost at the mean after the updates is compared with the cost at the start with wide margins, "
        "and the runs with each other exactly. Distinct by problem and updater.")
ASSUMPTIONS = ["at least 16 samples for each update, exploration of the size of the distance to the optimum, at most 4 parameters", "the random generator is the one of numpy"]
QUICK = 1
required = ["lower-cost", "close-to-optimum", "explores-less", "dmp-lower-cost", "repeatable", "moved", "scaled", "separable", "bounded", "steps"]
WEIGHTINGS = [("PI-BB", 10), ("PI-BB", 5), ("CEM", 5), ("CEM", 8), ("CMA-ES", 8), ("CMA-ES", 5)]


class Quadratic(CostFunction):
    def __init__(self, optimum, curvature, scale=1.0, offset=0.0, parts=False):
        self.optimum, self.curvature, self.scale, self.offset, self.parts = optimum, curvature, scale, offset, parts

    def evaluate(self, sample):
        q = self.curvature * (np.asarray(sample) - self.optimum) ** 2
        if self.parts:
            return np.concatenate(([self.scale * q.sum() + self.offset], self.scale * q))
        return self.scale * q.sum() + self.offset


def updater(rng, kind, sigma):
    method, e = choice(rng, WEIGHTINGS)
    kw = dict(weighting_method=method, eliteness=e)
    if kind == "mean":
        return UpdaterMean(**kw), kw
    if kind == "decay":
        kw["covar_decay_factor"] = float(rng.uniform(0.85, 0.95))
        return UpdaterCovarDecay(**kw), kw
    kw.update(diagonal_max=2 * sigma, diagonal_min=0.02 * sigma, learning_rate=float(choice(rng, [0.3, 0.5])), diag_only=bool(chance(rng)))
    return UpdaterCovarAdaptation(**kw), kw


def problem(rng):
    d = int(rng.integers(1, 5))
    sigma = float(choice(rng, [1.0, 1.0, 1e-3, 1e3, np.exp(rng.uniform(-3, 3))]))
    optimum = gen.vec(rng, d) * sigma * float(choice(rng, [0.0, 1.0, 10.0]))
    away = rng.normal(size=d)
    start = optimum + away / np.linalg.norm(away) * sigma * float(rng.uniform(2.5, 4.0)) * np.sqrt(d)
    return dict(d=d, sigma=sigma, optimum=optimum, start=start, curvature=rng.uniform(0.5, 2.0, d), n=int(choice(rng, [16, 20, 30])), u=40)


def run(P, upd, seed, shift=0.0, scale=1.0, offset=0.0, parts=False, n_updates=None, bounds=None):
    np.random.seed(seed)
    cost = Quadratic(P["optimum"] + shift, P["curvature"], scale, offset, parts)
    covar = P["sigma"] ** 2 * np.eye(P["d"])
    if bounds is None:
        dist = DistributionGaussian(P["start"] + shift, covar)
    else:
        dist = DistributionGaussianBounded(P["start"] + shift, covar, *bounds)
    session = run_optimization(cost, dist, copy.deepcopy(upd), n_updates or P["u"], P["n"])
    return session, [session.ask("distribution", i) for i in range(n_updates or P["u"])] + [session.ask("distribution_new", (n_updates or P["u"]) - 1)]


def convex(rng, mon):
    P, seed = problem(rng), int(rng.integers(2 ** 30))
    kind = choice(rng, ["mean", "decay", "adaptation"])
    upd, kw = updater(rng, kind, P["sigma"])
    parts = chance(rng)
    mon.describe(kind=kind, seed=seed, **kw, **P)
    session, dists = run(P, upd, seed, parts=parts)
    true = Quadratic(P["optimum"], P["curvature"])
    first, last = true.evaluate(P["start"]), true.evaluate(dists[-1].mean)
    mon.event("ratio<%g" % next(b for b in (1e-3, 1e-2, 0.1, 0.3, 0.6, 1, np.inf) if last / first < b or b == np.inf))
    mon.ok("lower-cost", last < 0.6 * first, "the cost at the mean is well below the one at the start", first=first, last=last)
    if kind == "adaptation":
        mon.ok("close-to-optimum", last < 0.2 * first, "adapting exploration gets close to the optimum", first=first, last=last)
    if kind == "decay":
        mon.ok("explores-less", np.trace(dists[-1].covar) < 0.1 * np.trace(dists[0].covar), "exploration decays", before=dists[0].covar, after=dists[-1].covar)
    if kind == "mean":
        mon.close("explores-less", dists[-1].covar, dists[0].covar, 1e-12, 0, "exploration stays")
    curve, _ = session.get_learning_curve()
    totals = np.array([np.atleast_1d(r)[1] for r in curve], dtype=float)
    mon.ok("lower-cost", totals[-1] < 0.7 * totals[0], "the learning curve goes down", totals=totals)
    # again, and elsewhere
    # (as long as no two samples are so close in cost that rounding decides about their rank)
    U = 0
    while U < 8 and clear([true.evaluate(x) for x in np.reshape(session.ask("samples", U), (P["n"], -1))]):
        U += 1
    if U == 0:
        return
    base = dists[: U + 1]
    again = run(P, upd, seed, n_updates=U, parts=not parts)[1]
    compare(mon, "repeatable", again, base, 0.0, P, "from the same random state, with the costs in another form")
    shift = gen.vec(rng, P["d"]) * P["sigma"]
    # (rounding may turn the axes along which a full covariance matrix is sampled)
    V = 1 if kind == "adaptation" and not kw["diag_only"] else U
    compare(mon, "moved", run(P, upd, seed, shift=shift, n_updates=V)[1], base, shift, P, "with start and optimum moved")
    # powers of two are exact, so the ranks and the normalized costs are the same
    scale, offset = 2.0 ** int(rng.integers(-8, 9)), float(choice(rng, [0.0, 0.0, -first, first]))
    compare(mon, "scaled", run(P, upd, seed, scale=scale, offset=offset * scale, n_updates=V if offset else U)[1], base, 0.0, P, "with the costs scaled and shifted")
    mon.nontrivial(P, kw, kind)


def clear(costs):
    c = np.sort(costs)
    return np.diff(c).min() > 1e-7 * (c[-1] - c[0])


def compare(mon, key, got, want, shift, P, msg):
    for i, (a, b) in enumerate(zip(got, want)):
        tol = 1e-6 * P["sigma"] + 1e-9 * gen.scale(b.mean)
        mon.close(key, a.mean - shift, b.mean, 0, tol, f"mean after {i} updates, {msg}")
        mon.close(key, a.covar, b.covar, 0, 1e-6 * P["sigma"] ** 2, f"covariance after {i} updates, {msg}")


def separable(rng, mon):
    """Parameters that do not matter for the costs are not pulled anywhere, those that do matter are."""
    P, seed = problem(rng), int(rng.integers(2 ** 30))
    P["d"] = 3
    P["optimum"], P["start"] = np.zeros(3), np.array([3.0, -3.0, 0.0]) * P["sigma"]
    P["curvature"] = np.array([1.0, 1.0, 0.0])
    upd, kw = updater(rng, "decay", P["sigma"])
    mon.describe(seed=seed, **kw, **P)
    ends = [run(P, upd, seed + k, n_updates=30)[1][-1].mean / P["sigma"] for k in range(12)]
    m = np.mean(ends, axis=0)
    mon.ok("separable", abs(m[0]) < 1.5 and abs(m[1]) < 1.5, "parameters that matter go to their optimum", mean=m)
    # each end deviates by about 1 at most (a random walk with decaying steps), the mean of 12 by 0.3
    mon.ok("separable", abs(m[2]) < 2.5, "a parameter that does not matter is not pulled", mean=m, ends=ends)
    mon.nontrivial(P, kw, seed)


def bounded(rng, mon):
    """Samples within bounds get to the optimum within bounds."""
    P, seed = problem(rng), int(rng.integers(2 ** 30))
    upd, kw = updater(rng, choice(rng, ["decay", "adaptation"]), P["sigma"])
    span = 3 * np.abs(P["start"] - P["optimum"]) + P["sigma"]
    lower, upper = np.minimum(P["start"], P["optimum"]) - span, np.maximum(P["start"], P["optimum"]) + span
    outside = chance(rng)
    if outside:
        # the optimum is out of bounds
        k = int(rng.integers(P["d"]))
        mid = 0.5 * (P["start"][k] + P["optimum"][k])
        if P["start"][k] < P["optimum"][k]:
            upper[k] = mid
        else:
            lower[k] = mid
    mon.describe(seed=seed, lower=lower, upper=upper, **kw, **P)
    session, dists = run(P, upd, seed, bounds=(lower, upper))
    best = np.clip(P["optimum"], lower, upper)
    f = Quadratic(P["optimum"], P["curvature"]).evaluate
    first, last = f(P["start"]) - f(best), f(dists[-1].mean) - f(best)
    tol = 1e-9 * gen.scale(lower, upper)
    mon.ok("bounded", np.all(dists[-1].mean >= lower - tol) and np.all(dists[-1].mean <= upper + tol), "the mean is within the bounds", mean=dists[-1].mean)
    mon.ok("bounded", last < 0.6 * first + 1e-9 * f(P["start"]), "the cost gets close to the lowest one within the bounds", first=first, last=last, outside=outside)
    mon.nontrivial(P, kw, seed)


def movement(rng, mon):
    """A DMP learns to go through a viapoint, in one go and step by step."""
    d, seed = int(choice(rng, [1, 2])), int(rng.integers(2 ** 30))
    traj = dmpgen.demonstration(rng, n_dims=d, T=1.0, wiggle=0.3)
    n_bfs = int(rng.integers(4, 6))
    dmp = Dmp.from_traj(traj, [FunctionApproximatorRBFN(n_bfs, 0.7) for _ in range(d)], dmp_type=choice(rng, ["KULVICIUS_2012_JOINING", "IJSPEERT_2002_MOVEMENT"]))
    dmp.set_selected_param_names("weights")
    theta = dmp.get_param_vector()
    solver = TaskSolverDmp(dmp, 0.02, 1.0)
    t_via = 0.5
    # how far the exploration moves the movement sets the distance of the viapoint
    sigma = float(np.exp(rng.uniform(2.5, 3.5)))
    ts = np.linspace(0, 1.0, 51)
    np.random.seed(seed)
    base = solver.perform_rollout(theta)
    spread = []
    for _ in range(12):
        M = solver.perform_rollout(theta + sigma * np.random.normal(size=theta.size))
        spread.append(M[25, 1:1 + d] - base[25, 1:1 + d])
    reach = np.std(spread, axis=0)
    if np.any(reach < 1e-6):
        return
    via = base[25, 1:1 + d] + 2.5 * reach * rng.choice([-1, 1], d)
    task = TaskViapoint(via, viapoint_time=t_via, acceleration_weight=0.0)
    kind = choice(rng, ["decay", "adaptation"])
    upd, kw = updater(rng, kind, sigma)
    n, u = 20, 20
    dist = DistributionGaussian(theta.copy(), sigma ** 2 * np.eye(theta.size))
    mon.describe(seed=seed, d=d, sigma=sigma, viapoint=via, reach=reach, kind=kind, **kw)
    np.random.seed(seed)
    session = run_optimization_task(task, solver, copy.deepcopy(dist), copy.deepcopy(upd), u, n)
    end = session.ask("distribution_new", u - 1).mean
    costs = [task.evaluate_rollout(solver.perform_rollout(p), p)[0] for p in (theta, end)]
    mon.event("dmp-ratio<%g" % next(b for b in (1e-2, 0.1, 0.3, 0.6, 1, np.inf) if costs[1] / costs[0] < b or b == np.inf))
    mon.ok("dmp-lower-cost", costs[1] < 0.75 * costs[0], "the movement gets closer to the viapoint", costs=costs)
    mon.nontrivial(d, via, kw, seed)


def steps(rng, mon):
    """Step by step, with rollouts by somebody else."""
    import shutil
    import tempfile
    d, seed = 1, int(rng.integers(2 ** 30))
    traj = dmpgen.demonstration(rng, n_dims=d, T=1.0, wiggle=0.3)
    dmp = Dmp.from_traj(traj, [FunctionApproximatorRBFN(4, 0.7)], dmp_type="KULVICIUS_2012_JOINING")
    dmp.set_selected_param_names("goal")
    theta = dmp.get_param_vector()
    solver = TaskSolverDmp(dmp, 0.05, 1.2)
    goal = theta + rng.uniform(2, 3) * choice(rng, [-1, 1])
    task = TaskViapoint(goal.copy(), viapoint_time=1.15, acceleration_weight=0.0)
    upd, kw = updater(rng, choice(rng, ["decay", "adaptation"]), 1.0)
    u, n = 8, 20
    mon.describe(seed=seed, goal=goal, theta=theta, **kw)
    tmp = tempfile.mkdtemp(dir=mon.ctx.scratch)
    try:
        np.random.seed(seed)
        session = prepare_optimization(tmp, task, None, DistributionGaussian(theta.copy(), np.eye(1)), n, upd, dmp)
        for i in range(u):
            for s in list(range(n)) + ["eval"]:
                session.tell(solver.perform_rollout_dmp(session.ask("dmp", i, s)), "cost_vars", i, s)
            update_step(session, i)
        end = session.ask("distribution", u).mean
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    costs = [task.evaluate_rollout(solver.perform_rollout(p), p)[0] for p in (theta, end)]
    mon.ok("steps", costs[1] < 0.85 * costs[0], "the movement gets closer to its new goal", costs=costs, end=end)
    mon.nontrivial(goal, theta, kw, seed)


FAMILIES = {"convex": (convex, 200, 4000), "separable": (separable, 24, 300), "bounded": (bounded, 60, 1000), "movement": (movement, 40, 500), "steps": (steps, 24, 300)}
