"""C25 C++ function approximators predict what the Python ones predict."""
import numpy as np

from dmpbbo.functionapproximators.basis_functions import Gaussian
from mon import cpp, dmpgen, gen
from mon.gen import chance, choice

RULE = ("A case is a set of approximators (both classes C++ can load; 1 to 3 input dimensions; any overlap, number of basis functions, regularisation), trained "
        "in Python, possibly with parameters set afterwards, saved for C++ and loaded by a program compiled from the current C++ sources, where the batch and "
        "real-time predictions at inputs inside, at the edge of and far outside the training range are compared with those of Python. Distinct by configuration.")
ASSUMPTIONS = ["predictions equal to within 1e-9 relative to the magnitude of the parameters",
               "inputs at which the normalised activations are quotients of denormal numbers are left out"]
required = ["batch", "real-time", "rt-is-batch", "printed", "far", "activations", "asymmetric"]
VARIANTS = ["checked"]


def setup(ctx):
    cpp.build(ctx, VARIANTS)


def usable(fa, X):
    """Not in the band where all activations are about to underflow."""
    c, w = np.asarray(fa._model_params["centers"]), np.asarray(fa._model_params["widths"])
    if len(c) == 1:
        return np.full(len(X), True)
    e = np.array([np.max(np.sum(-0.5 * ((x - c) / w) ** 2, axis=1)) for x in X])
    return ~((e < -600) & (e > -770))


def inputs_for(rng, n_in, lo, hi):
    span = hi - lo
    parts = [rng.uniform(lo, hi, (int(rng.integers(1, 12)), n_in))]
    parts.append(rng.uniform(lo - span, hi + span, (int(rng.integers(1, 8)), n_in)))
    far = rng.uniform(3, 60, (int(rng.integers(1, 5)), n_in)) * span * choice(rng, [1.0, 1.0, 30.0])
    far *= np.where(rng.random(far.shape) < 0.5, -1, 1)
    parts.append(lo + far)
    parts.append(np.full((1, n_in), choice(rng, [lo, hi, 0.0])))
    X = np.concatenate(parts)
    return X[rng.permutation(len(X))]


def trained(rng, mon):
    job = cpp.Job(mon)
    fas, plan = [], []
    for i in range(int(rng.integers(2, 6))):
        n_in = int(choice(rng, [1, 1, 1, 2, 2, 3]))
        spec = dmpgen.fa_spec(rng, choice(rng, ["rbfn", "lwr"]), n_in)
        lo = float(choice(rng, [0.0, 0.0, -2.0, rng.uniform(-5, 5)]))
        hi = lo + float(choice(rng, [1.0, 1.0, rng.uniform(0.3, 8)]))
        fa, _, _ = dmpgen.fa_trained(rng, spec, n_in, lo, hi, float(choice(rng, [1.0, 50.0, 0.01])))
        changed = None
        if chance(rng, 0.4):
            names = [n for n in dmpgen.FA_PARAMS[spec["kind"]] if chance(rng, 0.6)] or ["centers"]
            fa.set_selected_param_names(names)
            v = fa.get_param_vector()
            fa.set_param_vector(v * rng.uniform(0.8, 1.25, v.size))
            changed = names
        fas.append((f"f{i}", fa, spec, n_in, lo, hi, changed))
        job.load(f"f{i}", fa, "fa")
    for _ in range(int(rng.integers(len(fas), 3 * len(fas)))):
        k = fas[int(rng.integers(len(fas)))] if plan and len(plan) >= len(fas) else fas[min(len(plan), len(fas) - 1)]
        X = inputs_for(rng, k[3], k[4], k[5])
        X = X[usable(k[1], X)]
        if len(X) == 0:
            continue
        kw = {"out_rows": int(rng.integers(1, 40))} if chance(rng, 0.4) else {}
        plan.append((job.op("predict", k[0], inputs=X, **kw), k, X))
        if chance(rng, 0.3):
            plan.append((job.op("print_fa", k[0]), k, None))
    plan.append((job.op("print_fa", fas[0][0]), fas[0], None))
    for k in fas:
        if chance(rng):
            job.op("delete", k[0])
    mon.describe(approximators=[(k[2], k[3], k[4], k[5], k[6]) for k in fas], inputs=[p[2] for p in plan if p[2] is not None][:2])
    outs = job.run("checked").outs
    for idx, k, X in plan:
        fa, o = k[1], outs[idx]
        if X is None:
            p = o["printed"]["_model_params"]
            for name, v in fa._model_params.items():
                mon.ok("printed", name in p, "parameter missing in the printed object", name=name)
                mon.close("printed", np.asarray(p[name], dtype=float).reshape(-1), np.asarray(v).reshape(-1), 1e-12, 1e-300,
                          "printed parameter " + name)
            mon.ok("printed", o["printed"]["class"] == type(fa).__name__, "printed class", got=o["printed"]["class"])
            continue
        expected = np.asarray(fa.predict(X)).reshape(-1)
        amp = gen.scale(*[v for n, v in fa._model_params.items() if n in ("weights", "offsets", "slopes")]) * gen.scale(X)
        mon.close("batch", o["outputs"].reshape(-1), expected, 1e-9, 1e-11 * amp, "C++ batch prediction")
        mon.close("real-time", o["realtime"].reshape(-1), expected, 1e-9, 1e-11 * amp, "C++ real-time prediction")
        mon.close("rt-is-batch", o["realtime"], o["outputs"], 1e-11, 1e-13 * amp, "real-time and batch prediction in C++")
        mon.ok("rt-is-batch", o["rt_size"] == 1 and o["outputs"].shape == (len(X), 1), "size of the outputs", shape=o["outputs"].shape)
        far = np.any((X < k[4] - 2 * (k[5] - k[4])) | (X > k[5] + 2 * (k[5] - k[4])), axis=1)
        mon.event("far", int(far.sum()))
    mon.nontrivial([(k[2], k[3], k[6]) for k in fas], len(plan))
    job.close()


def gauss(X, mus, sig, normalized, asym):
    A = np.ones((len(X), len(mus)))
    for b in range(len(mus)):
        for d in range(X.shape[1]):
            w = np.where((X[:, d] < mus[b, d]) & asym & (b > 0), sig[max(b - 1, 0), d], sig[b, d])
            A[:, b] *= np.exp(-0.5 * ((X[:, d] - mus[b, d]) / w) ** 2)
    if normalized:
        A = np.ones_like(A) if len(mus) == 1 else A / A.sum(axis=1, keepdims=True)
    return A


def basis(rng, mon):
    job = cpp.Job(mon)
    plan = []
    for _ in range(int(rng.integers(3, 8))):
        d, nb, n = int(rng.integers(1, 4)), int(rng.integers(1, 8)), int(rng.integers(1, 15))
        X = rng.uniform(-2, 2, (n, d))
        mus = rng.uniform(-2, 2, (nb, d))
        mus = mus[np.argsort(mus[:, 0])]
        kind = choice(rng, ["matrix", "matrix", "covar", "cosine", "lwr"])
        norm = chance(rng)
        if kind == "matrix":
            sig, asym = rng.uniform(0.5, 2, (nb, d)), chance(rng)
            plan.append((job.op("gaussian", mus=mus, sigmas=sig, inputs=X, normalized=norm, asymmetric=asym),
                         "activations", gauss(X, mus, sig, norm, asym)))
            if not asym:
                mon.close("python-activations", np.asarray(Gaussian.activations(X, centers=mus, widths=sig, normalized=norm)),
                          gauss(X, mus, sig, norm, asym), 1e-10, 1e-13, "Python activations")
        elif kind == "covar":
            covars = []
            for _b in range(nb):
                a = rng.normal(size=(d, d))
                covars.append(a @ a.T + 0.5 * np.eye(d))
            pri = rng.uniform(0.2, 2.0, nb)
            A = np.array([[pri[b] * np.exp(-0.5 * (x - mus[b]) @ np.linalg.solve(covars[b], x - mus[b])) for b in range(nb)]
                          for x in X])
            if norm:
                A = np.ones_like(A) if nb == 1 else A / A.sum(axis=1, keepdims=True)
            plan.append((job.op("gaussian", mus=mus, covars=[c.tolist() for c in covars], priors=pri, inputs=X, normalized=norm),
                         "activations", A))
        elif kind == "cosine":
            ph = rng.uniform(0, 6, nb)
            i = job.op("cosine", freqs=mus, phases=ph, inputs=X)
            plan.append((i, "activations", np.cos(X @ mus.T + ph)))
        else:
            sig, asym = rng.uniform(0.5, 2, (nb, d)), chance(rng, 0.7)
            sl, of = rng.normal(size=(nb, d)), rng.normal(size=(nb, 1))
            fid = f"l{len(job.ops)}"
            job.op("new_fa", fid, kind="lwr", centers=mus, widths=sig, slopes=sl, offsets=of, asymmetric=asym)
            y = np.sum(gauss(X, mus, sig, True, asym) * (X @ sl.T + of.T), axis=1)
            plan.append((job.op("predict", fid, inputs=X), "asymmetric", y))
    mon.describe(ops=[{k: v for k, v in o.items() if k != "inputs"} for o in job.ops])
    outs = job.run("checked").outs
    for i, key, e in plan:
        o = outs[i]
        if key == "asymmetric":
            mon.close(key, o["outputs"].reshape(-1), e, 1e-9, 1e-10, "prediction with (a)symmetric kernels")
            mon.close(key, o["realtime"].reshape(-1), e, 1e-9, 1e-10, "real-time prediction with (a)symmetric kernels")
        else:
            mon.close(key, o["act"], e, 1e-9, 1e-12, "C++ activations")
            if "act2" in o:
                mon.close(key, o["act2"], e, 1e-9, 1e-12, "C++ activations from vectors")
    mon.nontrivial([(o["op"], np.shape(o.get("inputs", o.get("centers")))) for o in job.ops])
    job.close()


FAMILIES = {"trained": (trained, 700, 5000), "basis": (basis, 250, 2000)}
