"""C08 Prediction is a pure, pointwise function of the trained model and the input."""
import copy

import numpy as np

from mon import dmpgen, gen

RULE = ("A case is one approximator trained on 1-3 dimensional data and queried alone, in batches, permuted, "
        "grouped, repeated and far away, retrained and compared with a fresh one, with bit-exact monitors on "
        "every array handed over. Non-trivial if predictions differ between inputs. Distinct by model and queries.")
QUICK = 5
required = ["row-by-row", "permutation", "grouping", "repeat", "inputs-untouched", "retrain-no-trace",
            "untrained-rejected", "wrong-dimension-rejected", "one-value-per-input", "training-data-copied"]


def queries(rng, d, lo, hi):
    n = int(rng.integers(1, 14))
    Q = rng.uniform(lo - 0.5 * (hi - lo), hi + 0.5 * (hi - lo), (n, d))
    if gen.chance(rng, 0.3):
        Q[int(rng.integers(n))] *= 1e4
    return Q


def flat(x):
    return np.array(x, dtype=float).reshape(-1)


def case(kind):
    def f(rng, mon):
        d = int(gen.choice(rng, [1, 1, 2, 3])) if kind != "lwr" else int(gen.choice(rng, [1, 1, 2]))
        s = dmpgen.fa_spec(rng, kind, d, bfs=int(rng.integers(1, 9)))
        if kind in ("rbfn", "lwr") and d > 1:
            s["n_bfs"] = rng.integers(1, 4, d)
        if kind in ("rbfn", "lwr"):
            s["reg"] = max(s["reg"], 1e-6)
        lo, hi = -1.0, float(rng.uniform(0.5, 3))
        mon.describe(spec=s, d=d)
        fa = dmpgen.fa_build(s)
        Q0 = rng.random((3, d))
        mon.ok("untrained-rejected", not fa.is_trained(), "untrained model claims to be trained")
        mon.raises("untrained-rejected", ValueError, lambda: fa.predict(Q0), "predict of an untrained model")
        n = int(rng.integers(15, 40)) if kind != "gpr" else int(rng.integers(4, 10))
        X = rng.uniform(lo, hi, (n, d))
        X[0], X[1] = lo, hi
        y = dmpgen.smooth_function(rng, d)(X)
        Xa = X.reshape(-1) if (d == 1 and gen.chance(rng)) else X
        ya = y.reshape(-1, 1) if (kind in ("wls",) and False) else y
        if gen.chance(rng, 0.3):
            Xa = np.asfortranarray(Xa)
        with mon.untouched("inputs-untouched", Xa, ya):
            if kind == "wls" and gen.chance(rng):
                w = rng.uniform(0.5, 2, n)
                with mon.untouched("inputs-untouched", w):
                    fa.train(Xa, ya, weights=w)
            else:
                fa.train(Xa, ya)
        mon.ok("untrained-rejected", fa.is_trained() and fa.dim_input() == d, "trained model claims to be untrained")
        Q = queries(rng, d, lo, hi)
        if d == 1 and gen.chance(rng, 0.4):
            Qa = Q.reshape(-1)
        else:
            Qa = Q
        with mon.untouched("inputs-untouched", Qa):
            p = flat(fa.predict(Qa))
        mon.must("one-value-per-input", p.size == len(Q), "number of predictions", got=p.size, expected=len(Q))
        mon.finite("finite", p)
        s_ = gen.scale(p)
        one = np.array([flat(fa.predict(Qa[i:i + 1]))[0] for i in range(len(Q))])
        mon.close("row-by-row", p, one, rtol=1e-10, atol=1e-11 * s_, msg="batch vs. single inputs")
        perm = rng.permutation(len(Q))
        mon.close("permutation", flat(fa.predict(Qa[perm])), p[perm], rtol=1e-10, atol=1e-11 * s_, msg="permuted batch")
        cut = int(rng.integers(0, len(Q) + 1))
        parts = [flat(fa.predict(q)) for q in (Qa[:cut], Qa[cut:]) if len(q)]
        mon.close("grouping", np.concatenate(parts), p, rtol=1e-10, atol=1e-11 * s_, msg="batch in two groups")
        big = np.concatenate((Qa, Qa, X.reshape(Qa.shape[1:] and (-1, d) or -1)))
        mon.close("grouping", flat(fa.predict(big))[: 2 * len(Q)], np.tile(p, 2), rtol=1e-10, atol=1e-11 * s_, msg="within a larger batch")
        mon.close("repeat", flat(fa.predict(Qa)), p, rtol=1e-13, atol=1e-14 * s_, msg="same query again")
        for bad in (d + 1, d + 2):
            mon.raises("wrong-dimension-rejected", ValueError, lambda: fa.predict(np.zeros((3, bad))), f"{bad} of {d}")
        if d > 1:
            mon.raises("wrong-dimension-rejected", ValueError, lambda: fa.predict(np.zeros(4)), "1-D input")
            mon.raises("wrong-dimension-rejected", ValueError, lambda: fa.predict(np.zeros((4, d - 1))), "")
        mon.close("repeat", flat(fa.predict(Qa)), p, rtol=1e-13, atol=1e-14 * s_, msg="after rejected queries")
        # later changes of the training arrays
        Xm, ym = np.array(Xa), np.array(ya)
        f2 = dmpgen.fa_build(s)
        f2.train(Xm, ym)
        q2 = flat(f2.predict(Qa))
        Xm += 3.0
        ym -= 2.0
        mon.close("training-data-copied", flat(f2.predict(Qa)), q2, rtol=1e-13, atol=1e-14 * s_, msg="after the caller changed his training data")
        r = f2.predict(Qa)
        r += 1.0
        mon.close("training-data-copied", flat(f2.predict(Qa)), q2, rtol=1e-13, atol=1e-14 * s_, msg="after the caller changed a prediction")
        # retraining, also with another input dimension and number of samples
        d3 = int(gen.choice(rng, [d, d, 1, 2]))
        if kind in ("rbfn", "lwr") and np.size(s["n_bfs"]) not in (1, d3):
            d3 = d
        if kind == "gpr" and np.size(s["lengths"]) not in (1, d3):
            d3 = d
        n3 = int(rng.integers(12, 25)) if kind != "gpr" else int(rng.integers(3, 8))
        X3 = rng.uniform(lo, hi, (n3, d3))
        X3[0], X3[1] = lo - 0.1, hi
        y3 = dmpgen.smooth_function(rng, d3)(X3)
        used, fresh = copy.deepcopy(fa), dmpgen.fa_build(s)
        if gen.chance(rng):
            used.set_selected_param_names(dmpgen.FA_PARAMS[kind][0])
            used.set_param_vector(np.full(used.get_param_vector_size(), 0.3))
        ret = used.train(X3, y3)
        fresh.train(X3.copy(), y3.copy())
        Q3 = queries(rng, d3, lo, hi)
        a, b = flat(used.predict(Q3)), flat(fresh.predict(Q3))
        mon.close("retrain-no-trace", a, b, rtol=1e-9, atol=1e-10 * gen.scale(b), msg="retrained vs. freshly trained")
        mon.ok("retrain-no-trace", used.dim_input() == d3, "input dimension after retraining", got=used.dim_input())
        mon.close("repeat", flat(fa.predict(Qa)), p, rtol=1e-13, atol=1e-14 * s_, msg="original after retraining a copy")
        mon.close("row-by-row", flat(used.predict(Q3)), np.array([flat(used.predict(q[None, :]))[0] for q in Q3]),
                  rtol=1e-10, atol=1e-11 * gen.scale(a), msg="after retraining")
        if np.ptp(p) > 0 or len(Q) == 1:
            mon.nontrivial(s, X, Q)
    return f


FAMILIES = {k: (case(k), 100, 1200) for k in dmpgen.FA_KINDS}
