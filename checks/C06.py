"""C06 Training solves the regularized weighted least-squares problem it states."""
import numpy as np

from dmpbbo.functionapproximators.basis_functions import Gaussian
from mon import dmpgen, gen

RULE = ("A case is a random training set (1-3 input dimensions, weights with zeros, offset or not, "
        "regularization from 0 to 10) trained with WLS, RBFN or LWR, or data generated by a model of the same "
        "form. Non-trivial if the targets are not constant. Distinct by data and parameters.")
ASSUMPTIONS = ["the regularized normal equations are well conditioned (condition number below 1e9)",
               "the parameter vector lists the selected parameters in the order in which they are selected"]
QUICK = 5
required = ["gradient-zero", "minimum", "prediction", "recovery", "reg-shrinks", "lwr-gradient-zero", "rbfn-gradient-zero"]


def data(rng, d, n):
    X = rng.uniform(-2, 2, (n, d)) * 10 ** rng.uniform(-0.7, 0.7)
    y = dmpgen.smooth_function(rng, d)(X) + rng.normal(size=n) * float(gen.choice(rng, [0.0, 0.1, 1.0]))
    return X, y


def params(fa, *names):
    out = []
    for nm in names:
        fa.set_selected_param_names(nm)
        out.append(np.array(fa.get_param_vector(), dtype=float))
    return out


def objective(A, y, w, reg, b):
    return float(np.sum(w * (y - A @ b) ** 2) + reg * np.sum(b ** 2))


def judge(mon, key, A, y, w, reg, b, rng):
    """b minimizes the objective: zero gradient, and no perturbation is better."""
    H = (A.T * w) @ A + reg * np.eye(A.shape[1])
    cond = np.linalg.cond(H)
    if cond > 1e9:
        mon.event("ill-conditioned-skipped")
        return False
    g = (A.T * w) @ (A @ b - y) + reg * b
    tol = 1e-14 * cond * (np.linalg.norm(H, 2) * np.linalg.norm(b) + np.linalg.norm((A.T * w) @ y)) + 1e-12
    mon.ok(key, np.linalg.norm(g) <= 50 * tol, "gradient of the objective is not zero at the trained parameters",
           gradient=g, parameters=b, reg=reg, tol=tol)
    J = objective(A, y, w, reg, b)
    for _ in range(3):
        p = rng.normal(size=b.size) * 10 ** rng.uniform(-4, 0) * max(1.0, np.linalg.norm(b))
        mon.ok("minimum", objective(A, y, w, reg, b + p) >= J * (1 - 1e-7) - 1e-9 * (1 + np.sum(w * y ** 2)),
               "other parameters have a lower objective", J=J, reg=reg)
    return True


def wls(rng, mon):
    d, n = int(rng.integers(1, 4)), int(rng.integers(5, 60))
    X, y = data(rng, d, n)
    off = gen.chance(rng)
    reg = float(gen.choice(rng, [0.0, 0.0, 1e-4, 0.1, 1.0, 10.0]))
    if n <= d + 1:
        reg = max(reg, 0.1)
    w = None
    if gen.chance(rng, 0.7):
        w = rng.uniform(0, 3, n) * (rng.random(n) < 0.8)
        w[: d + 2] += 0.5
    fa = dmpgen.fa_build({"kind": "wls", "offset": off, "reg": reg})
    if not off and gen.chance(rng, 0.2):
        X = X + 3.0
    Xa = X.reshape(-1) if (d == 1 and gen.chance(rng)) else X
    mon.describe(d=d, n=n, offset=off, reg=reg, weighted=w is not None)
    kw = {} if w is None else {"weights": w}
    with mon.untouched("arguments-untouched", Xa, y, w):
        fa.train(Xa, y, **kw)
    b = params(fa, "slope")[0]
    if off:
        b = np.concatenate((b, params(fa, "offset")[0]))
    A = np.column_stack((X, np.ones(n))) if off else X
    mon.must("size", b.size == A.shape[1], "number of parameters", got=b.size, expected=A.shape[1])
    judge(mon, "gradient-zero", A, y, np.ones(n) if w is None else w, reg, b, rng)
    Q = rng.normal(size=(7, d)) * 3
    Aq = np.column_stack((Q, np.ones(7))) if off else Q
    mon.close("prediction", fa.predict(Q), Aq @ b, rtol=1e-10, atol=1e-10 * gen.scale(b) * 10, msg="prediction of WLS")
    # weights all equal to a constant: same as regularization divided by it
    c = float(rng.uniform(0.5, 4))
    f2 = dmpgen.fa_build({"kind": "wls", "offset": off, "reg": reg * c})
    f2.train(X, y, weights=np.full(n, c))
    f3 = dmpgen.fa_build({"kind": "wls", "offset": off, "reg": reg})
    f3.train(X, y)
    if np.linalg.cond(A.T @ A + reg * np.eye(A.shape[1])) < 1e8:
        mon.close("weights-scale", f2.predict(Q), f3.predict(Q), rtol=1e-6, atol=1e-6 * gen.scale(y),
                  msg="weights and regularization scaled alike")
    mon.nontrivial(X, y, off, reg)


def fa_bfs(rng, d):
    s = dmpgen.fa_spec(rng, "rbfn", d)
    if d > 1:
        s["n_bfs"] = rng.integers(2, 4, d)
    s["reg"] = float(gen.choice(rng, [0.0, 1e-6, 1e-3, 0.1, 1.0]))
    return s


def rbfn(rng, mon):
    d = int(gen.choice(rng, [1, 1, 2, 3]))
    s = fa_bfs(rng, d)
    X, y = data(rng, d, int(rng.integers(25, 70)))
    mon.describe(spec=s, d=d)
    fa = dmpgen.fa_build(s)
    with mon.untouched("arguments-untouched", X, y):
        fa.train(X, y)
    c, w, wt = params(fa, "centers", "widths", "weights")
    c, w = c.reshape(-1, d), w.reshape(-1, d)
    A = np.exp(-0.5 * np.sum(((X[:, None] - c[None]) / w[None]) ** 2, axis=2))
    mon.must("size", wt.size == A.shape[1], "one weight per basis function", got=wt.size)
    if judge(mon, "rbfn-gradient-zero", A, y, np.ones(len(y)), s["reg"], wt, rng):
        mon.nontrivial(s, X, y)
    Q = rng.uniform(-3, 3, (9, d))
    Aq = np.exp(-0.5 * np.sum(((Q[:, None] - c[None]) / w[None]) ** 2, axis=2))
    mon.close("prediction", fa.predict(Q), Aq @ wt, rtol=1e-8, atol=1e-9 * gen.scale(wt), msg="prediction of RBFN")


def lwr(rng, mon):
    d = int(gen.choice(rng, [1, 1, 2, 3]))
    s = fa_bfs(rng, d)
    s["kind"] = "lwr"
    X, y = data(rng, d, int(rng.integers(25, 70)))
    mon.describe(spec=s, d=d)
    fa = dmpgen.fa_build(s)
    with mon.untouched("arguments-untouched", X, y):
        fa.train(X, y)
    c, w, sl, of = params(fa, "centers", "widths", "slopes", "offsets")
    n = of.size
    mon.must("size", sl.size == n * d == c.size == w.size, "number of parameters", slopes=sl.size, offsets=n)
    c, w, sl = c.reshape(n, d), w.reshape(n, d), sl.reshape(n, d)

    def act(Z):
        a = np.exp(-0.5 * np.sum(((Z[:, None] - c[None]) / w[None]) ** 2, axis=2))
        return a / a.sum(axis=1, keepdims=True)
    acts = act(X)
    A = np.column_stack((X, np.ones(len(y))))
    ok = False
    for i in range(n):
        ok |= judge(mon, "lwr-gradient-zero", A, y, acts[:, i], s["reg"], np.append(sl[i], of[i]), rng)
    Q = rng.uniform(-2, 2, (9, d)) * X.max()
    aq = Gaussian.activations(Q, centers=c, widths=w, normalized=True)
    lines = Q @ sl.T + of
    mon.close("prediction", fa.predict(Q), np.sum(aq * lines, axis=1), rtol=1e-8, atol=1e-9 * gen.scale(lines),
              msg="prediction of LWR")
    if ok:
        mon.nontrivial(s, X, y)


def recovery(rng, mon):
    """Data generated by a model of the same form are reproduced exactly."""
    kind = gen.choice(rng, ["wls", "rbfn", "lwr"])
    d = int(gen.choice(rng, [1, 1, 2]))
    n = int(rng.integers(40, 80))
    X = rng.uniform(-1, 1, (n, d))
    s = dmpgen.fa_spec(rng, kind, d, reg=0.0, bfs=int(rng.integers(2, 8)))
    if kind in ("rbfn", "lwr"):
        s["n_bfs"] = np.full(d, int(rng.integers(2, 8 if d == 1 else 4)))
        s["height"] = float(rng.uniform(0.3, 0.7))
    mon.describe(spec=s, d=d)
    slope, off = rng.normal(size=d) * 3, rng.normal() * 3
    fa = dmpgen.fa_build(s)
    Q = rng.uniform(-1, 1, (20, d))
    if kind == "rbfn":
        fa.train(X, rng.normal(size=n))
        fa.set_selected_param_names("weights")
        truth = rng.normal(size=fa.get_param_vector_size()) * 2
        fa.set_param_vector(truth)
        y, q = np.array(fa.predict(X)), np.array(fa.predict(Q))
        f2 = dmpgen.fa_build(s)
        f2.train(X, y)
        acts = Gaussian.activations(X, centers=params(f2, "centers")[0].reshape(-1, d),
                                    widths=params(f2, "widths")[0].reshape(-1, d), normalized=False)
        cond = np.linalg.cond(acts.T @ acts)
        if cond > 1e8:
            mon.event("ill-conditioned-skipped")
            return
        tol = 1e-9 + 1e-13 * cond
        mon.close("recovery", params(f2, "weights")[0], truth, rtol=tol, atol=tol, msg="weights of the generating network")
        mon.close("recovery", f2.predict(Q), q, rtol=tol, atol=tol, msg="prediction of the retrained network")
    else:
        use_off = s.get("offset", True)
        f = lambda Z: Z @ slope + (off if use_off else 0.0)  # noqa
        fa.train(X, f(X))
        mon.close("recovery", fa.predict(Q), f(Q), rtol=1e-6, atol=1e-6, msg="linear data reproduced")
        mon.close("recovery", fa.predict(X), f(X), rtol=1e-6, atol=1e-6, msg="linear data reproduced at the training inputs")
    mon.nontrivial(s, X)


def regularization(rng, mon):
    """The regularization given at construction acts: more of it never increases the norm of the parameters
    nor decreases the residual."""
    kind = gen.choice(rng, ["wls", "rbfn", "lwr"])
    X, y = data(rng, 1, 50)
    X = X / np.max(np.abs(X))
    y = y + float(gen.choice(rng, [0.0, 5.0]))
    s = dmpgen.fa_spec(rng, kind, 1)
    mon.describe(spec=s)
    names = {"wls": ["slope", "offset"] if s.get("offset", True) else ["slope"], "rbfn": ["weights"],
             "lwr": ["slopes", "offsets"]}[kind]
    norms, res, preds = [], [], []
    for reg in (1e-3, 0.3, 30.0, 1e6):
        fa = dmpgen.fa_build(dict(s, reg=reg))
        fa.train(X, y)
        fa.set_selected_param_names(names)
        norms.append(np.linalg.norm(fa.get_param_vector()))
        preds.append(np.max(np.abs(fa.predict(X))))
        res.append(np.linalg.norm(fa.predict(X) - y))
    mon.ok("reg-shrinks", all(norms[i + 1] <= norms[i] * (1 + 1e-6) + 1e-9 for i in range(3)) if kind != "lwr" else True,
           "norm of the parameters grows with the regularization", norms=norms)
    mon.ok("reg-shrinks", norms[3] < 0.01 * max(norms[0], 1e-2) and preds[3] < 0.01 * np.max(np.abs(y)) + 1e-6,
           "huge regularization does not suppress the parameters", norms=norms, preds=preds)
    if kind != "lwr":
        mon.ok("reg-residual", all(res[i + 1] >= res[i] * (1 - 1e-6) for i in range(3)), "residual shrinks with regularization", res=res)
    mon.nontrivial(s, X, y)


FAMILIES = {"wls": (wls, 200, 3000), "rbfn": (rbfn, 80, 1000), "lwr": (lwr, 80, 1000),
            "recovery": (recovery, 90, 1000), "regularization": (regularization, 60, 600)}
