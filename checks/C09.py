"""C09 Gaussian process regression is the kernel interpolant of its training data."""
import numpy as np

from mon import dmpgen, gen

RULE = ("A case is a set of 2-14 (one in 20: 15-80) distinct training inputs in 1-3 dimensions (min. distance "
        "0.3-0.9 length scales, so that the condition number of the kernel matrix is between 1 and 1e8), scalar or per-dimension length scales, "
        "and a maximum covariance, compared with an independently solved kernel interpolant. Non-trivial if "
        "the targets are not all equal. Distinct by data.")
ASSUMPTIONS = ["condition number of the kernel matrix below 1e8"]
QUICK = 4
required = ["interpolates", "kernel-combination", "order-irrelevant", "max-covariance-irrelevant", "linear", "far-zero"]


def kernel(A, B, ls):
    return np.exp(-0.5 * np.sum(((A[:, None] - B[None]) / ls) ** 2, axis=2))


def case(rng, mon):
    d = int(gen.choice(rng, [1, 1, 2, 3]))
    n = int(rng.integers(15, 80)) if gen.chance(rng, 0.05) else int(rng.integers(2, 15))
    ls = rng.uniform(0.1, 3.0, d) if gen.chance(rng, 0.6) and d > 1 else float(rng.uniform(0.1, 3.0))
    mc = float(gen.choice(rng, [1.0, 0.01, 25.0, 10 ** rng.uniform(-4, 5), rng.uniform(0.1, 5)]))
    # inputs in units of the length scales, some far apart (well conditioned), some close to each other
    apart = float(gen.choice(rng, [0.9, 0.9, 0.6, 0.4, 0.3]))
    P = []
    for _ in range(4000):
        c = rng.uniform(-4, 4, d) * (2.5 if d == 1 else 1.0) * apart * max(1.0, n / 14) ** (1 / d)
        if all(np.linalg.norm(c - q) > apart for q in P):
            P.append(c)
        if len(P) == n:
            break
    X = np.array(P) * ls
    n = len(X)
    if n < 2:
        return
    y = gen.vec(rng, n, -3, 3)
    mon.describe(d=d, n=n, lengths=ls, max_covariance=mc, X=X, y=y)
    K = kernel(X, X, ls)
    cond = np.linalg.cond(K)
    if cond > 1e8:
        mon.event("ill-conditioned-skipped")
        return
    tol = 1e-8 + 1e-12 * cond
    mon.event(f"condition-1e{int(np.log10(cond))}")
    spec = {"kind": "gpr", "max_cov": mc, "lengths": ls}
    fa = dmpgen.fa_build(spec)
    Xa = X.reshape(-1) if (d == 1 and gen.chance(rng)) else X
    with mon.untouched("arguments-untouched", Xa, y):
        fa.train(Xa, y)
    sy = gen.scale(y)
    mon.close("interpolates", fa.predict(Xa), y, rtol=tol, atol=tol * sy, msg="prediction at the training inputs")
    Q = rng.uniform(-6, 6, (10, d)) * ls
    ex = kernel(Q, X, ls) @ np.linalg.solve(K, y)
    p = np.asarray(fa.predict(Q))
    mon.close("kernel-combination", p, ex, rtol=tol, atol=tol * gen.scale(ex, y), msg="prediction vs. kernel interpolant")
    i = rng.permutation(n)
    f2 = dmpgen.fa_build(spec)
    f2.train(X[i], y[i])
    mon.close("order-irrelevant", f2.predict(Q), p, rtol=tol, atol=tol * gen.scale(p, y), msg="training samples permuted")
    f3 = dmpgen.fa_build(dict(spec, max_cov=mc * float(rng.uniform(0.1, 20))))
    f3.train(X, y)
    mon.close("max-covariance-irrelevant", f3.predict(Q), p, rtol=tol, atol=tol * gen.scale(p, y), msg="other maximum covariance")
    y2, a, b = gen.vec(rng, n), rng.normal(), rng.normal()
    f4, f5 = dmpgen.fa_build(spec), dmpgen.fa_build(spec)
    f4.train(X, y2)
    f5.train(X, a * y + b * y2)
    lin = a * p + b * np.asarray(f4.predict(Q))
    mon.close("linear", f5.predict(Q), lin, rtol=tol, atol=tol * gen.scale(lin, y, y2), msg="prediction of combined targets")
    far = X[:3] + np.sign(rng.normal(size=d)) * (np.ptp(X) + 60 * np.max(ls)) * 10 ** rng.uniform(0, 4)
    mon.close("far-zero", fa.predict(far), np.zeros(len(far)), rtol=0, atol=1e-9 * sy, msg="prediction far from all data")
    # between: decays with distance from an isolated sample
    f6 = dmpgen.fa_build(spec)
    f6.train(X[:1], y[:1])
    r = np.linspace(0, 5, 12)[:, None] * np.ones(d) * ls
    v = np.asarray(f6.predict(X[:1] + r))
    if np.ndim(ls) == 0 or True:
        mon.close("kernel-combination", v, y[0] * np.exp(-0.5 * d * np.linspace(0, 5, 12) ** 2), rtol=1e-9, atol=1e-12 * sy,
                  msg="single sample")
    # overwriting the targets through training again
    f2.train(X, y2)
    mon.close("interpolates", f2.predict(X), y2, rtol=tol, atol=tol * gen.scale(y2), msg="after retraining")
    if np.ptp(y) > 0:
        mon.nontrivial(X, y, ls)


FAMILIES = {"interpolant": (case, 1500, 20000)}
