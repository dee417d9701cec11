"""C19 A distribution update is the reward-weighted mean and keeps a valid covariance."""
import copy
import warnings

import numpy as np

from dmpbbo.bbo.DistributionGaussian import DistributionGaussian
from dmpbbo.bbo.DistributionGaussianBounded import DistributionGaussianBounded
from dmpbbo.bbo.updaters import UpdaterCovarAdaptation, UpdaterCovarDecay, UpdaterMean, costs_to_weights
from mon import gen

RULE = ("A case is an updater with random settings (method, eliteness, decay, learning rate, diagonal only, minimum and maximum "
        "exploration as scalars or per dimension), a distribution of 1-8 dimensions (also degenerate, badly scaled or bounded), samples "
        "(also fewer than dimensions, one, or all equal) and costs; single updates, or chains of up to 60. Non-trivial if "
        "the samples and costs are not all equal. Distinct by parameters.")
ASSUMPTIONS = ["minimum exploration not above maximum exploration", "weights as in C18"]
QUICK = 3
required = ["mean", "bounding-box", "covar-kept", "covar-decayed", "covar-adapted", "diagonal-limits", "symmetric", "positive-semidefinite",
            "can-be-sampled", "arguments-untouched", "deterministic", "chain", "own-distribution", "kind-kept"]
METHODS = ["PI-BB", "CEM", "CMA-ES"]


def covariance(rng, d):
    kind = gen.choice(rng, ["full", "full", "diag", "spherical", "rank1", "scaled", "correlated", "zero-dim"])
    A = rng.normal(size=(d, d))
    if kind == "full":
        C = A @ A.T / d
    elif kind == "diag":
        C = np.diag(rng.uniform(0.01, 4, d))
    elif kind == "spherical":
        C = np.eye(d) * float(rng.uniform(0.01, 4))
    elif kind == "rank1":
        C = np.outer(A[0], A[0])
    elif kind == "scaled":
        s = 10.0 ** rng.uniform(-4, 4, d)
        C = (A @ A.T / d + 0.1 * np.eye(d)) * np.outer(s, s)
    elif kind == "correlated":
        C = 0.98 * np.ones((d, d)) + 0.02 * np.eye(d)
    else:
        C = np.diag(rng.uniform(0.01, 4, d))
        C[0, 0] = 0.0
    return (C + C.T) / 2, kind


def limits(rng, d):
    mn = mx = None
    per = lambda lo, hi: float(rng.uniform(lo, hi)) if gen.chance(rng) else rng.uniform(lo, hi, d)  # noqa: E731
    if gen.chance(rng, 0.5):
        mx = per(0.3, 2.0)
    if gen.chance(rng, 0.5):
        mn = per(0.01, 0.3)
    if gen.chance(rng, 0.1):
        mn = 0.0
    if gen.chance(rng, 0.1):
        mn, mx = 0.2, 0.2
    if isinstance(mx, np.ndarray) and gen.chance(rng):
        mx = list(mx)
    return mn, mx


def updater(rng, d):
    kw = {}
    if gen.chance(rng, 0.8):
        kw["weighting_method"] = gen.choice(rng, METHODS)
    if gen.chance(rng, 0.8):
        kw["eliteness"] = int(gen.choice(rng, [1, 2, 5, 10, 40]))
    kind = gen.choice(rng, ["mean", "decay", "adapt", "adapt", "adapt"])
    if kind == "decay" and gen.chance(rng, 0.8):
        kw["covar_decay_factor"] = float(gen.choice(rng, [0.9, 1.0, 0.5, rng.uniform(0.1, 1.0)]))
    if kind == "adapt":
        if gen.chance(rng):
            kw["diag_only"] = gen.chance(rng)
        if gen.chance(rng, 0.7):
            kw["learning_rate"] = float(gen.choice(rng, [0.0, 1.0, 0.5, rng.uniform(0, 1)]))
        mn, mx = limits(rng, d)
        if mn is not None:
            kw["diagonal_min"] = mn
        if mx is not None:
            kw["diagonal_max"] = mx
    cls = {"mean": UpdaterMean, "decay": UpdaterCovarDecay, "adapt": UpdaterCovarAdaptation}[kind]
    return kind, kw, lambda: cls(**copy.deepcopy(kw))


def judge(mon, kind, kw, dist, samples, costs, new, w):
    d = samples.shape[1]
    total = np.asarray([np.atleast_1d(c)[0] for c in costs], dtype=float)
    ref = costs_to_weights(total, kw.get("weighting_method", "PI-BB"), kw.get("eliteness", 10))
    s = np.max(np.abs(samples)) + 1e-300
    mon.close("mean", new.mean, ref @ samples, rtol=1e-9, atol=1e-10 * s, msg="new mean vs. weighted samples")
    lo, hi = samples.min(axis=0), samples.max(axis=0)
    mon.ok("bounding-box", np.all(new.mean >= lo - 1e-12 * s) and np.all(new.mean <= hi + 1e-12 * s), "mean outside the samples", mean=new.mean)
    old = np.asarray(dist.covar, dtype=float)
    C = np.asarray(new.covar)
    mon.must("covar-shape", C.shape == (d, d), "shape of the covariance", got=C.shape)
    cs = np.max(np.abs(C)) + 1e-300
    if kind == "mean":
        mon.equal("covar-kept", C, old, "covariance after a mean-only update")
    elif kind == "decay":
        f = kw.get("covar_decay_factor", 0.8)
        mon.close("covar-decayed", C, f * f * old, rtol=1e-12, atol=0, msg="decayed covariance")
    else:
        eps = samples - np.asarray(dist.mean)
        R = (eps * ref[:, None]).T @ eps
        if kw.get("diag_only", False):
            R = np.diag(np.diag(R))
        lr = kw.get("learning_rate", 1.0)
        R = (1 - lr) * old + lr * R
        rs = np.max(np.abs(R)) + 1e-300
        mn = np.broadcast_to(np.asarray(kw.get("diagonal_min", 0.0), float), (d,)) ** 2
        mx = np.broadcast_to(np.asarray(kw.get("diagonal_max", np.inf), float), (d,)) ** 2
        want = np.maximum(np.minimum(np.diag(R), mx), mn)
        mon.close("diagonal-limits", np.diag(C), want, rtol=1e-9, atol=1e-12 * rs, msg="diagonal of the covariance vs. limits")
        free = np.diag(R) <= mx
        for i in range(d):
            for j in range(d):
                if i == j:
                    continue
                if free[i] and free[j]:
                    mon.close("covar-adapted", C[i, j], R[i, j], rtol=1e-8, atol=1e-11 * rs, msg="covariance vs. weighted scatter", at=(i, j))
                else:
                    # limited exploration may take the covariances along, never invent any
                    mon.ok("covar-adapted", abs(C[i, j]) <= abs(R[i, j]) * (1 + 1e-9) + 1e-12 * rs and C[i, j] * R[i, j] >= -1e-18 * rs ** 2,
                           "covariance of a limited dimension", at=(i, j), got=C[i, j], unlimited=R[i, j])
        if free.all():
            mon.event("no-limit-active")
        else:
            mon.event("limit-active")
    mon.ok("symmetric", np.all(np.abs(C - C.T) <= 1e-12 * cs), "covariance not symmetric", covar=C)
    ev = np.linalg.eigvalsh((C + C.T) / 2)
    mon.ok("positive-semidefinite", ev[0] >= -1e-9 * max(ev[-1], 1e-300), "covariance not positive semi-definite", eigenvalues=ev, covar=C)
    with warnings.catch_warnings():
        # numpy judges small entries of large matrices with an absolute tolerance
        warnings.simplefilter("error" if cs < 1e3 else "ignore")
        st = np.random.get_state()
        try:
            x = new.generate_samples(5)
            mon.ok("can-be-sampled", np.asarray(x).shape == (5, d) and np.all(np.isfinite(x)), "samples of the new distribution")
        except RuntimeWarning as e:
            mon.ok("can-be-sampled", False, f"sampling warns: {e}", covar=C)
        np.random.set_state(st)
    mon.close("weights", w, ref, rtol=1e-12, atol=1e-15, msg="weights returned")


def distribution(rng, d):
    C, kind = covariance(rng, d)
    mean = rng.normal(size=d) * float(gen.choice(rng, [1.0, 100.0, 0.01]))
    if gen.chance(rng, 0.3):
        lo = gen.choice(rng, [None, -1.0, rng.uniform(-2, -1, d)])
        hi = gen.choice(rng, [None, 1.0, rng.uniform(1, 2, d)])
        return DistributionGaussianBounded(mean, C, lo, hi), "bounded-" + kind
    return DistributionGaussian(mean, C), kind


def costs_for(rng, n):
    c = gen.choice(rng, [rng.normal(size=n), rng.exponential(size=n) * 100, rng.integers(0, 3, n).astype(float), np.zeros(n), rng.normal(size=n) - 1e4])
    if gen.chance(rng, 0.3):
        c = np.column_stack((c, rng.normal(size=(n, 2))))
    if gen.chance(rng, 0.2):
        c = [list(r) if np.ndim(r) else float(r) for r in c]
    return c


def once(rng, mon):
    d = int(gen.choice(rng, [1, 1, 2, 2, 3, 5, 8]))
    n = int(gen.choice(rng, [1, 2, 3, 10, 10, 30]))
    dist, ck = distribution(rng, d)
    kind, kw, build = updater(rng, d)
    how = gen.choice(rng, ["sampled", "sampled", "random", "equal", "far"])
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        samples = {"sampled": lambda: dist.generate_samples(n), "random": lambda: rng.normal(size=(n, d)) * 3,
                   "equal": lambda: np.tile(rng.normal(size=d), (n, 1)), "far": lambda: rng.normal(size=(n, d)) + 50}[how]()
    costs = costs_for(rng, n)
    mon.describe(updater=kind, settings=kw, n_dims=d, n_samples=n, covar=ck, samples=how, mean=dist.mean, covar_values=dist.covar, costs=costs)
    u = build()
    with mon.untouched("arguments-untouched", dist, samples, costs, msg="update"):
        new, w = u.update_distribution(dist, samples, costs)
    judge(mon, kind, kw, dist, samples, costs, new, w)
    mon.ok("kind-kept", type(new) is type(dist), "class of the distribution")
    if isinstance(dist, DistributionGaussianBounded):
        mon.equal("kind-kept", new.lower_bound is None, dist.lower_bound is None, "lower bound")
        for a, b in ((new.lower_bound, dist.lower_bound), (new.upper_bound, dist.upper_bound)):
            if b is not None:
                mon.equal("kind-kept", a, b, "bounds of the new distribution")
    again = build().update_distribution(copy.deepcopy(dist), samples.copy(), copy.deepcopy(costs))[0]
    twice = u.update_distribution(dist, samples, costs)[0]
    for o in (again, twice):
        mon.equal("deterministic", o.mean, new.mean, "mean of the same update")
        mon.equal("deterministic", o.covar, new.covar, "covariance of the same update")
    # the new distribution shares nothing with what it was made of
    m, C = np.array(new.mean), np.array(new.covar)
    dist.mean += 5.0
    dist.covar *= 3.0
    samples[:] = 0.0
    mon.equal("own-distribution", new.mean, m, "mean after the old distribution changed")
    mon.equal("own-distribution", new.covar, C, "covariance after the old distribution changed")
    if n > 1 and how != "equal":
        mon.nontrivial(kind, kw, d, n, ck, how, m)


def chain(rng, mon):
    """A whole optimization's worth of updates: every distribution stays valid."""
    d = int(gen.choice(rng, [1, 2, 3, 5]))
    n = int(gen.choice(rng, [4, 10, 20]))
    C, _ = covariance(rng, d)
    dist = DistributionGaussian(rng.normal(size=d), C + 0.05 * np.eye(d))
    kind, kw, build = updater(rng, d)
    u = build()
    mon.describe(updater=kind, settings=kw, n_dims=d, n_samples=n)
    goal = rng.normal(size=d) * 3
    for i in range(int(rng.integers(10, 60))):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            samples = dist.generate_samples(n)
        costs = np.sum((samples - goal) ** 2, axis=1) if gen.chance(rng, 0.9) else np.ones(n)
        new, w = u.update_distribution(dist, samples, costs)
        judge(mon, kind, kw, dist, samples, costs, new, w)
        mon.event("chain")
        dist = new
    mon.nontrivial(kind, kw, d, n, goal)


def refuses(rng, mon):
    lr = float(gen.choice(rng, [-0.1, 1.1, 2.0, -5.0]))
    mon.raises("refuses-learning-rate", ValueError, lambda: UpdaterCovarAdaptation(learning_rate=lr), f"learning rate {lr}")
    mon.nontrivial(lr)


FAMILIES = {"once": (once, 12000, 200000), "chain": (chain, 400, 6000), "refuses": (refuses, 8, 8)}
