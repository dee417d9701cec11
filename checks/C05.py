"""C05 Gaussian basis functions cover the input range with the requested overlap."""
import itertools

import numpy as np

from dmpbbo.functionapproximators.basis_functions import Gaussian
from mon import dmpgen, gen

RULE = ("A case is a set of inputs (1-4 dimensions, 1-D arrays included), a number of basis functions (one "
        "for all or per dimension, 1 allowed) and an intersection height, or random centers and widths with "
        "query points near, on and far from the centers. Non-trivial if there are at least two basis functions. "
        "Distinct by parameters.")
ASSUMPTIONS = ["the range of the inputs is not empty in a dimension with several basis functions",
               "activations may underflow to zero more than 30 widths away from a center"]
QUICK = 6
required = ["grid", "one-row-per-combination", "intersection", "gaussian", "one-at-center", "in-0-1", "sum-to-one",
            "non-negative", "far-away"]


def act(x, c, w, normalized):
    return Gaussian.activations(x, centers=c, widths=w, normalized=normalized)


def ref(x, c, w):
    x, c, w = (np.asarray(a, float).reshape(len(a), -1) for a in (x, c, w))
    return np.exp(-0.5 * np.sum(((x[:, None, :] - c[None]) / w[None]) ** 2, axis=2))


def grid(rng, mon):
    d = int(gen.choice(rng, [1, 1, 2, 2, 3, 4]))
    n_s = int(rng.integers(2, 40))
    lo = gen.vec(rng, d)
    span = 10 ** rng.uniform(-3, 3, d)
    X = lo + rng.random((n_s, d)) * span
    i = rng.permutation(n_s)
    X[i[0]], X[i[1]] = lo, lo + span
    per = rng.integers(1, 6 if d > 2 else 12, d)
    scalar = gen.chance(rng, 0.4)
    if scalar:
        per = np.full(d, int(rng.integers(1, 4 if d > 2 else 10)))
    if d <= 2 and gen.chance(rng, 0.15):
        per = np.full(d, int(rng.integers(10, 20 if d == 2 else 130))) if scalar else rng.integers(2, 22 if d == 2 else 130, d)
    n = int(per[0]) if scalar else per.copy()
    if scalar and gen.chance(rng):
        n = np.array([n])
    h = float(gen.choice(rng, [0.5, 0.7, rng.uniform(0.05, 0.98)]))
    arg = X.reshape(-1) if (d == 1 and gen.chance(rng)) else X
    mon.describe(d=d, n=n, h=h, lo=lo, span=span)
    with mon.untouched("arguments-untouched", arg, n):
        c, w = Gaussian.get_centers_and_widths(arg, n, h)
    c, w = np.asarray(c), np.asarray(w)
    total = int(np.prod(per))
    mon.must("one-row-per-combination", c.shape == (total, d) == w.shape, "wrong number of basis functions",
             centers=c.shape, widths=w.shape, expected=(total, d))
    axes = [np.linspace(X[:, k].min(), X[:, k].max(), per[k]) for k in range(d)]
    combos = np.array(list(itertools.product(*axes)))
    # compare as sets of rows, in units of the range
    u, v = (c - lo) / span, (combos - lo) / span
    order = lambda a: a[np.lexsort(np.round(a, 9).T)]  # noqa
    mon.close("grid", order(u), order(v), rtol=0, atol=1e-7, msg="centers vs. full even grid (in units of the range)")
    mon.ok("width-positive", np.all(w > 0) and np.all(np.isfinite(w)), "width not positive", w=w)
    # neighbours along one dimension
    for k in range(d):
        if per[k] < 2:
            continue
        step = span[k] / (per[k] - 1)
        for _ in range(3):
            i = int(rng.integers(total))
            same = np.all(np.isclose(np.delete(u, k, 1), np.delete(u[i], k), atol=1e-7), axis=1)
            js = np.nonzero(same & np.isclose(np.abs(c[:, k] - c[i, k]), step, rtol=1e-6))[0]
            for j in js:
                mid = 0.5 * (c[i] + c[j])
                a = act(mid[None, :], c, w, False)[0]
                mon.close("intersection", a[[i, j]], [h, h], rtol=1e-6, atol=1e-9,
                          msg="activation of two neighbours halfway between them", i=i, j=int(j), dim=k)
    # the functions of an approximator trained on these inputs are these
    if d <= 2 and total <= 40 and n_s >= 6:
        y = rng.normal(size=n_s)
        for kind in ("rbfn", "lwr"):
            fa = dmpgen.fa_build({"kind": kind, "n_bfs": n, "height": h, "reg": 1e-3})
            fa.train(arg, y)
            fa.set_selected_param_names("centers")
            mon.close("used-by-approximator", (fa.get_param_vector().reshape(-1, d) - lo) / span, u, rtol=0, atol=1e-9,
                      msg=f"centers of {kind}")
            fa.set_selected_param_names(["widths"])
            mon.close("used-by-approximator", fa.get_param_vector().reshape(-1, d) / span, w / span, rtol=1e-9, atol=1e-12,
                      msg=f"widths of {kind}")
    if total > 1:
        mon.nontrivial(n, h, lo, span)


def activation(rng, mon):
    d = int(gen.choice(rng, [1, 1, 2, 3]))
    n = int(rng.integers(1, 12))
    c = rng.normal(size=(n, d)) * 3
    w = 10 ** rng.uniform(-2, 1, (n, d))
    m = int(rng.integers(1, 15)) if gen.chance(rng, 0.97) else int(rng.integers(300, 1200))
    near = c[rng.integers(n, size=m)] + rng.normal(size=(m, d)) * w[rng.integers(n, size=m)] * 2
    far = rng.normal(size=(m, d)) * 10 ** rng.uniform(2, 8)
    X = np.vstack((near, c, far))
    flat = d == 1 and gen.chance(rng)
    args = (X.reshape(-1), c.reshape(-1), w.reshape(-1)) if flat else (X, c, w)
    if d == 1 and gen.chance(rng):
        args = (X, c, w)
    mon.describe(centers=c, widths=w, X=X)
    with mon.untouched("arguments-untouched", *args):
        a = np.asarray(act(*args, False))
        b = np.asarray(act(*args, True))
    mon.must("shape", a.shape == (len(X), n) == b.shape, "shape of activations", got=a.shape)
    r = ref(X, c, w)
    mon.close("gaussian", a, r, rtol=1e-9, atol=1e-300, msg="activation vs. axis-aligned Gaussian")
    dist = np.sqrt(np.sum(((X[:, None] - c[None]) / w[None]) ** 2, axis=2))
    mon.ok("in-0-1", np.all(a >= 0) and np.all(a <= 1) and np.all(a[dist < 30] > 0), "activation outside (0, 1]")
    for i in range(n):
        mon.close("one-at-center", a[m + i, i], 1.0, rtol=0, atol=1e-15, msg="activation at the own center")
    mon.ok("non-negative", np.all(b >= 0) and np.all(np.isfinite(b)), "normalized activation negative or not finite", b=b)
    mon.close("sum-to-one", b.sum(axis=1), np.ones(len(X)), rtol=0, atol=1e-9, msg="sum of normalized activations")
    mon.close("far-away", b[-m:].sum(axis=1), np.ones(m), rtol=0, atol=1e-9, msg="sum far from all centers")
    tot = r.sum(axis=1, keepdims=True)
    good = tot[:, 0] > 1e-290
    mon.close("normalized-ratio", b[good], (r / np.where(tot > 0, tot, 1))[good], rtol=1e-7, atol=1e-12,
              msg="normalized activation vs. share")
    # pointwise
    i = int(rng.integers(len(X)))
    xi = args[0][i:i + 1]
    mon.close("pointwise", act(xi, *args[1:], True)[0], b[i], rtol=1e-12, atol=1e-15, msg="single input")
    if n > 1:
        mon.nontrivial(c, w, X)


FAMILIES = {"grid": (grid, 250, 3000), "activation": (activation, 250, 4000)}
