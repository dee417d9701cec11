"""C18 Costs become a probability weighting that prefers lower costs."""
import contextlib
import io

import numpy as np

from dmpbbo.bbo.DistributionGaussian import DistributionGaussian
from dmpbbo.bbo.updaters import UpdaterCovarAdaptation, UpdaterCovarDecay, UpdaterMean, costs_to_weights
from mon import gen

RULE = ("A case is a vector or matrix of costs (1-60 samples; negative, tied, constant, tiny or huge ranges, lists or "
        "arrays, integers, with cost components), a weighting method and an eliteness (up to beyond the number of samples). "
        "Non-trivial if the costs are not all equal. Distinct by parameters.")
ASSUMPTIONS = ["costs below 1e150 in magnitude", "eliteness is a positive integer for CEM and CMA-ES, positive for PI-BB",
               "rank-based methods may break ties in any way"]
QUICK = 2
required = ["non-negative", "sums-to-one", "one-per-sample", "monotone", "equal-costs-equal-weights", "shift-invariant", "scale-invariant",
            "permutation", "first-component-only", "pi-bb-formula", "cem-formula", "cma-es-formula", "updater-weights", "costs-untouched"]
METHODS = ["PI-BB", "CEM", "CMA-ES"]


def costs_(rng):
    n = int(gen.choice(rng, [1, 2, 3, 5, 10, int(rng.integers(2, 60))]))
    kind = gen.choice(rng, ["normal", "normal", "positive", "ties", "constant", "huge", "tiny", "offset", "outlier", "integers", "equal-spaced", "zeros"])
    c = rng.normal(size=n) * 10
    if kind == "positive":
        c = rng.exponential(size=n) * 100
    elif kind == "ties":
        c = rng.integers(0, 3, n).astype(float)
    elif kind == "constant":
        c = np.full(n, float(gen.choice(rng, [0.0, 1.0, -3.7, 1e9])))
    elif kind == "huge":
        c = rng.normal(size=n) * 10.0 ** rng.integers(20, 140)
    elif kind == "tiny":
        c = rng.normal(size=n) * 10.0 ** -rng.integers(10, 140).astype(float)
    elif kind == "offset":
        c = 1e6 + rng.normal(size=n)
    elif kind == "outlier":
        c[int(rng.integers(n))] = 1e12
    elif kind == "integers":
        c = rng.integers(-50, 50, n)
    elif kind == "equal-spaced":
        c = np.arange(n) * 0.5
        rng.shuffle(c)
    elif kind == "zeros":
        c[rng.random(n) < 0.5] = 0.0
    return c, kind


def shape_as(rng, c):
    """The forms in which costs arrive: vector, list, one row per sample with components, lists of lists."""
    form = gen.choice(rng, ["vector", "list", "matrix", "lists", "arrays", "column"])
    if form == "list":
        return [float(x) for x in c], form
    if form == "column":
        return np.array(c, dtype=float).reshape(-1, 1), form
    if form in ("matrix", "lists", "arrays"):
        k = int(rng.integers(1, 4))
        m = np.column_stack((np.asarray(c, dtype=float), rng.normal(size=(len(c), k)) * 10))
        if form == "matrix":
            return m, form
        return ([list(r) for r in m] if form == "lists" else list(m)), form
    return np.array(c), form


def weights(rng, mon):
    c, kind = costs_(rng)
    n = len(c)
    method = gen.choice(rng, METHODS)
    h = int(gen.choice(rng, [1, 2, 5, 10, n, n + 3, 100, int(rng.integers(1, 40))]))
    if method == "PI-BB":
        h = gen.choice(rng, [h, float(rng.uniform(0.1, 50)), 1000])
    given, form = shape_as(rng, c)
    mon.describe(costs=c, kind=kind, form=form, method=method, eliteness=h)
    f = np.asarray(c, dtype=float)
    with mon.untouched("costs-untouched", given):
        w = costs_to_weights(given, method, h)
    if gen.chance(rng, 0.02):
        with contextlib.redirect_stdout(io.StringIO()):
            u = costs_to_weights(given, "PIBBB", h)
        mon.equal("unknown-method", u, costs_to_weights(given, "PI-BB", h), "a method that is not known stands for PI-BB")
    w = np.asarray(w)
    mon.must("one-per-sample", w.shape == (n,), "shape of weights", got=w.shape)
    mon.finite("non-negative", w, "weights not finite")
    mon.ok("non-negative", np.all(w >= 0), "negative weight", weights=w)
    mon.close("sums-to-one", np.sum(w), 1.0, rtol=0, atol=1e-12 * n + 1e-14, msg="sum of weights")
    o = np.argsort(f, kind="stable")
    fs, ws = f[o], w[o]
    lower = fs[:-1] < fs[1:]
    mon.ok("monotone", np.all((ws[:-1] >= ws[1:] - 1e-15)[lower]), "lower cost with lower weight", costs=fs, weights=ws)
    # every pair that is ordered, not only neighbours (ties in between)
    best = np.minimum.accumulate(ws)
    for i in range(1, n):
        j = np.searchsorted(fs, fs[i], side="left")
        if j > 0:
            mon.ok("monotone", ws[i] <= best[j - 1] + 1e-15, "higher cost with higher weight")
    if method == "PI-BB":
        for v in np.unique(f):
            g = w[f == v]
            if g.size > 1:
                mon.ok("equal-costs-equal-weights", np.ptp(g) <= 1e-14, "equal costs with different weights", weights=g)
        r = f.max() - f.min()
        ref = np.ones(n) if r == 0 else np.exp(-h * ((f - f.min()) / r))
        mon.close("pi-bb-formula", w, ref / ref.sum(), rtol=1e-9, atol=1e-14, msg="PI-BB weights")
        if r > 0:
            # slope of the logarithm against the normalized cost
            a, b = np.argmin(f), np.argmax(f)
            if w[b] > 1e-250:
                mon.close("pi-bb-formula", np.log(w[a]) - np.log(w[b]), float(h), rtol=1e-9, atol=1e-9, msg="exponential slope")
    else:
        mu = min(h, n)
        top = np.sort(w)[::-1]
        mon.ok("cem-formula" if method == "CEM" else "cma-es-formula", np.all(top[mu:] == 0), "more than 'eliteness' samples with weight", weights=top)
        if method == "CEM":
            mon.close("cem-formula", top[:mu], np.full(mu, 1.0 / mu), rtol=1e-12, atol=0, msg="weights of the best samples")
        else:
            mon.ok("cma-es-formula", np.all(top[:mu] > 0) and np.all(np.diff(top[:mu]) < 0), "weights do not decrease with the rank", weights=top)
            if h <= n:
                ref = np.log(mu + 0.5) - np.log(np.arange(1, mu + 1))
                mon.close("cma-es-formula", top[:mu], ref / ref.sum(), rtol=1e-10, atol=1e-14, msg="logarithmic weights")
        if np.unique(f).size == n:
            mon.ok("cem-formula" if method == "CEM" else "cma-es-formula", set(np.flatnonzero(w > 0)) == set(o[:mu]), "not the best samples", weights=w)
    # invariances
    distinct = np.unique(f).size == n
    r = np.ptp(f) if n > 1 else 0.0
    gap = np.min(np.diff(np.sort(f))) if n > 1 and distinct else 0.0
    if distinct or method == "PI-BB":
        p = rng.permutation(n)
        mon.close("permutation", costs_to_weights(f[p], method, h), w[p], rtol=1e-10, atol=1e-14, msg="permuted samples")
        k = float(gen.choice(rng, [2.0, 0.25, 1024.0, rng.uniform(0.01, 100)]))
        if np.max(np.abs(f)) < 1e140:
            mon.close("scale-invariant", costs_to_weights(f * k, method, h), w, rtol=1e-7, atol=1e-10, msg=f"costs times {k}")
        s = float(rng.uniform(-3, 3) * max(r, 1e-300))
        m = max(abs(s), np.max(np.abs(f)))
        if (method == "PI-BB" and (r == 0 or r > 1e-6 * m)) or gap > 1e-12 * m:
            if r > 0 or not np.any(f):
                mon.close("shift-invariant", costs_to_weights(f + s, method, h), w, rtol=1e-6, atol=1e-6, msg=f"costs plus {s}")
    # components besides the total do not matter, whatever they are
    other = np.column_stack((f, rng.normal(size=(n, 2)) * 10.0 ** rng.integers(-3, 9)))
    mon.close("first-component-only", costs_to_weights(other, method, h), costs_to_weights(f, method, h), rtol=0, atol=0, msg="with cost components")
    mon.close("first-component-only", w, costs_to_weights(f, method, h), rtol=0, atol=0, msg=f"costs given as {form}")
    if r > 0:
        mon.nontrivial(f, method, h, form)


def updaters(rng, mon):
    """The weights an update returns are those of the costs."""
    c, kind = costs_(rng)
    n = len(c)
    method = gen.choice(rng, METHODS)
    h = int(rng.integers(1, 15))
    d = int(rng.integers(1, 4))
    given, form = shape_as(rng, c)
    mon.describe(costs=c, form=form, method=method, eliteness=h)
    dist = DistributionGaussian(rng.normal(size=d), np.eye(d))
    samples = rng.normal(size=(n, d))
    u = gen.choice(rng, [UpdaterMean, UpdaterCovarDecay, UpdaterCovarAdaptation])(eliteness=h, weighting_method=method)
    _, w = u.update_distribution(dist, samples, given)
    mon.close("updater-weights", w, costs_to_weights(np.asarray(c, dtype=float), method, h), rtol=1e-12, atol=0, msg="weights of the update")
    d2 = gen.choice(rng, [UpdaterMean, UpdaterCovarDecay, UpdaterCovarAdaptation])()
    _, w = d2.update_distribution(dist, samples, given)
    mon.close("updater-weights", w, costs_to_weights(np.asarray(c, dtype=float), "PI-BB", 10), rtol=1e-12, atol=0, msg="weights of an update with default settings")
    if np.ptp(np.asarray(c, float)) > 0:
        mon.nontrivial(c, form, method, h, d)


FAMILIES = {"weights": (weights, 30000, 400000), "updaters": (updaters, 6000, 60000)}
