"""C20 Samples follow the requested distribution and respect its bounds."""
import copy

import numpy as np

from dmpbbo.bbo.DistributionGaussian import DistributionGaussian
from dmpbbo.bbo.DistributionGaussianBounded import DistributionGaussianBounded
from mon import gen
from checks.C19 import covariance

RULE = ("A case is a distribution (1-8 dimensions, any mean, covariance also degenerate or badly scaled, bounds absent, "
        "scalar, per dimension or one-sided), a number of samples and a seed; moments are judged on 20000-40000 samples "
        "at six standard errors. Non-trivial if the covariance is not zero. Distinct by parameters.")
ASSUMPTIONS = ["lower bounds do not exceed upper bounds", "reproducible from numpy's global random seed",
               "moment tests may err with a probability below 1e-8 per comparison"]
QUICK = 3
required = ["count", "reproducible", "distribution-untouched", "mean", "covariance", "clipped", "within-bounds", "max-eigen-value", "rejects-sizes",
            "fresh-samples"]


def make(rng):
    d = int(gen.choice(rng, [1, 1, 2, 3, 5, 8]))
    C, kind = covariance(rng, d)
    mean = rng.normal(size=d) * float(gen.choice(rng, [1.0, 100.0, 0.01, 0.0]))
    if d == 1 and gen.chance(rng):
        return d, float(mean[0]), float(C[0, 0]), np.atleast_1d(mean), np.atleast_2d(C), kind
    if gen.chance(rng, 0.1):
        mean = np.round(mean).astype(int)
    return d, mean, C, np.atleast_1d(mean), np.atleast_2d(C), kind


def samples(rng, mon):
    d, m, c, mean, C, kind = make(rng)
    n = int(gen.choice(rng, [1, 1, 2, 5, 10, 100]))
    seed = int(rng.integers(2 ** 31))
    mon.describe(mean=mean, covar=C, kind=kind, n=n, seed=seed)
    dist = DistributionGaussian(copy.copy(m), copy.copy(c))
    np.random.seed(seed)
    with mon.untouched("distribution-untouched", dist):
        x = dist.generate_samples(n)
        y = dist.generate_samples(n)
    np.random.seed(seed)
    x2 = dist.generate_samples(n)
    np.random.seed(seed)
    x3 = copy.deepcopy(dist).generate_samples(n)
    mon.ok("count", np.shape(x) == (n, d), "shape of the samples", got=np.shape(x))
    mon.equal("reproducible", x2, x, "samples with the same seed")
    mon.equal("reproducible", x3, x, "samples of a copy with the same seed")
    if np.max(np.abs(C)) > 1e-12:
        mon.ok("fresh-samples", not np.array_equal(x, y), "the same samples twice")
    mon.finite("finite", x, "samples")
    mon.ok("count", np.shape(dist.generate_samples()) == (1, d), "default number of samples")
    # every direction without variance stays at the mean
    ev, V = np.linalg.eigh(C)
    for i in np.flatnonzero(ev < 1e-12 * max(ev[-1], 1e-300)):
        mon.close("degenerate", (x - mean) @ V[:, i], np.zeros(n), rtol=0, atol=1e-5 * np.sqrt(max(ev[-1], 0)) + 1e-9 * gen.scale(mean), msg="direction without variance")
    # bounded
    per = lambda lo, hi: gen.choice(rng, [None, float(rng.uniform(lo, hi)), mean + rng.uniform(lo, hi, d) * np.sqrt(np.diag(C)), 0, 0.0])  # noqa: E731
    lo, hi = per(-1.5, 0.0), per(0.0, 1.5)
    if lo is not None and hi is not None and not np.all(np.broadcast_to(lo, d) <= np.broadcast_to(hi, d)):
        lo, hi = np.minimum(np.broadcast_to(lo, d), hi), np.maximum(np.broadcast_to(lo, d), hi)
    if isinstance(lo, np.ndarray) and gen.chance(rng, 0.2):
        lo = list(lo)
    mon.describe(lower=lo, upper=hi)
    kw = {}
    if lo is not None or gen.chance(rng):
        kw["lower_bound"] = copy.copy(lo)
    if hi is not None or gen.chance(rng):
        kw["upper_bound"] = copy.copy(hi)
    b = DistributionGaussianBounded(copy.copy(m), copy.copy(c), **kw)
    np.random.seed(seed)
    with mon.untouched("distribution-untouched", b):
        z = b.generate_samples(n) if n > 1 or gen.chance(rng) else b.generate_samples()
    want = x.copy()
    if lo is not None:
        want = np.maximum(want, lo)
    if hi is not None:
        want = np.minimum(want, hi)
    mon.close("clipped", z, want, rtol=0, atol=0, msg="bounded samples vs. clipped samples")
    mon.ok("within-bounds", (lo is None or np.all(z >= np.asarray(lo))) and (hi is None or np.all(z <= np.asarray(hi))), "sample outside the bounds", got=z)
    mon.close("max-eigen-value", b.max_eigen_value(), dist.max_eigen_value(), rtol=1e-12, msg="of a bounded distribution")
    if np.any(C):
        mon.nontrivial(mean, C, n, seed, lo, hi)


def moments(rng, mon):
    d, m, c, mean, C, kind = make(rng)
    n = int(gen.choice(rng, [20000, 40000]))
    mon.describe(mean=mean, covar=C, kind=kind, n=n)
    np.random.seed(int(rng.integers(2 ** 31)))
    bounded = gen.chance(rng, 0.3)
    dist = DistributionGaussianBounded(m, c) if bounded else DistributionGaussian(m, c)
    if gen.chance(rng):
        x = dist.generate_samples(n)
    else:  # in portions
        x = np.concatenate([dist.generate_samples(n // 20) for _ in range(20)])
    sd = np.sqrt(np.diag(C))
    e = np.abs(x.mean(axis=0) - mean)
    mon.ok("mean", np.all(e <= 6 * sd / np.sqrt(n) + 1e-9 * gen.scale(mean)), "mean of the samples", error=e, deviation=sd)
    S = (x - mean).T @ (x - mean) / n
    se = np.sqrt((np.outer(np.diag(C), np.diag(C)) + C * C) / n)
    mon.ok("covariance", np.all(np.abs(S - C) <= 6.5 * se + 1e-9 * np.max(np.abs(C)) + 1e-12 * gen.scale(mean) ** 2), "covariance of the samples", got=S, expected=C)
    # Gaussian: standardized along the largest direction, kurtosis and symmetry
    ev, V = np.linalg.eigh(C)
    if ev[-1] > 0:
        u = (x - mean) @ V[:, -1] / np.sqrt(ev[-1])
        mon.close("gaussian", np.mean(u ** 3), 0.0, rtol=0, atol=6.5 * np.sqrt(15 / n), msg="third moment")
        mon.close("gaussian", np.mean(u ** 4), 3.0, rtol=0, atol=7 * np.sqrt(96 / n), msg="fourth moment")
    # successive samples are independent
    if ev[-1] > 0:
        mon.close("independent", np.mean(u[1:] * u[:-1]), 0.0, rtol=0, atol=6.5 / np.sqrt(n), msg="correlation of successive samples")
    if np.any(C):
        mon.nontrivial(mean, C, n)


def eigen(rng, mon):
    d, m, c, mean, C, kind = make(rng)
    mon.describe(covar=C, kind=kind)
    dist = DistributionGaussian(m, c)
    with mon.untouched("distribution-untouched", dist):
        v = dist.max_eigen_value()
    s = np.max(np.abs(C)) + 1e-300
    mon.ok("max-eigen-value", np.ndim(v) == 0 and np.isrealobj(v), "not a real scalar", got=v)
    dirs = rng.normal(size=(200, d))
    dirs /= np.linalg.norm(dirs, axis=1)[:, None]
    q = np.einsum("ij,jk,ik->i", dirs, C, dirs)
    mon.ok("max-eigen-value", np.all(q <= v + 1e-9 * s), "a direction with more variance than the largest eigenvalue", value=v, direction=np.max(q))
    mon.close("max-eigen-value", v, np.linalg.svd(C, compute_uv=False)[0], rtol=1e-9, atol=1e-10 * s, msg="largest eigenvalue")
    k = d + int(gen.choice(rng, [1, 2])) if gen.chance(rng) or d == 1 else d - 1
    for cls in (DistributionGaussian, DistributionGaussianBounded):
        mon.raises("rejects-sizes", ValueError, lambda: cls(rng.normal(size=k), C), f"mean of size {k} with a {d}x{d} covariance")
    mon.nontrivial(C)


FAMILIES = {"samples": (samples, 12000, 200000), "moments": (moments, 400, 8000), "eigen": (eigen, 1500, 20000)}
