"""C07 Parameter vectors round-trip and mean what was selected."""
import copy

import numpy as np

from dmpbbo.dmps.Dmp import Dmp
from dmpbbo.dmps.DmpWithSchedules import DmpWithSchedules
from mon import dmpgen, gen

RULE = ("A case is one trained approximator, DMP or DMP with schedules and a random history of selecting "
        "names, reading, writing, writing back, wrong-length writes, in-place changes of vectors and "
        "retraining, judged against a shadow copy of every parameter. Non-trivial if a write of new values "
        "happened. Distinct by object and history.")
ASSUMPTIONS = ["vectors are numpy arrays or lists of floats", "names exist in the model",
               "in a DMP the parameters of the approximators come first, the goal after them, then the schedules"]
QUICK = 3
required = ["read-size", "read-values", "write-read", "write-back-behaviour", "unselected-unchanged",
            "wrong-length-rejected", "isolated", "meaning", "forgets-selection"]


def gauss(X, c, w):
    return np.exp(-0.5 * np.sum(((X[:, None] - c[None]) / w[None]) ** 2, axis=2))


def evaluate(kind, p, X, d):
    if kind == "rbfn":
        n = p["weights"].size
        return gauss(X, p["centers"].reshape(n, d), p["widths"].reshape(n, d)) @ p["weights"].reshape(-1)
    if kind == "lwr":
        n = p["offsets"].size
        a = gauss(X, p["centers"].reshape(n, d), p["widths"].reshape(n, d))
        if n == 1:
            a = np.ones_like(a)
        a = a / a.sum(axis=1, keepdims=True)
        return np.sum(a * (X @ p["slopes"].reshape(n, d).T + p["offsets"].reshape(-1)), axis=1)
    if kind == "wls":
        return X @ p["slope"].reshape(-1) + (p["offset"].reshape(-1)[0] if "offset" in p else 0.0)
    return None


def names_of(s):
    n = list(dmpgen.FA_PARAMS[s["kind"]])
    if s["kind"] == "wls" and not s["offset"]:
        n.remove("offset")
    return n


def read_all(fa, names, current):
    """Read every parameter through the public interface, restoring the selection."""
    out = {}
    for nm in names:
        fa.set_selected_param_names([nm])
        out[nm] = np.array(fa.get_param_vector(), dtype=float)
    fa.set_selected_param_names(current)
    return out


def new_values(rng, names, shadow):
    out = []
    for nm in names:
        v = shadow[nm]
        if nm == "widths":
            out.append(v * rng.uniform(0.7, 1.5, v.size))
        elif nm == "centers":
            out.append(v + rng.normal(size=v.size) * 0.1)
        else:
            out.append(gen.vec(rng, v.size, -5, 5))
    return np.concatenate(out) if out else np.zeros(0)


def fa_history(kind):
    def f(rng, mon):
        d = int(gen.choice(rng, [1, 1, 2]))
        s = dmpgen.fa_spec(rng, kind, d)
        if kind in ("rbfn", "lwr") and gen.chance(rng, 0.15):
            s["n_bfs"] = 1 if d == 1 else np.ones(d, dtype=int)
            s["reg"] = 0.1
        fa, X0, y0 = dmpgen.fa_trained(rng, s, d)
        X = rng.uniform(-0.2, 1.2, (8, d))
        names = names_of(s)
        sel = None
        hist = []
        mon.describe(spec=s, d=d, history=hist)
        mon.ok("read-size", fa.get_param_vector_size() == 0 and len(fa.get_param_vector()) == 0, "nothing selected: empty vector")
        shadow = read_all(fa, names, [])
        wrote = False
        for _ in range(int(rng.integers(4, 16))):
            op = gen.choice(rng, ["select", "select", "write", "write", "back", "wrong", "mutate", "retrain", "predict"])
            if sel is None and op not in ("select", "predict"):
                op = "select"
            hist.append(op)
            before = np.array(fa.predict(X))
            if op == "select":
                k = int(rng.integers(0, len(names) + 1))
                sel = [names[i] for i in rng.permutation(len(names))[:k]]
                hist[-1] = f"select{sel}"
                want = sel[0] if (k == 1 and gen.chance(rng)) else list(sel)
                fa.set_selected_param_names(want)
                if isinstance(want, list):
                    mon.ok("names-untouched", want == sel, "the list of names after selecting", got=want, expected=sel)
                    want += ["widths"]
                mon.equal("selecting-changes-nothing", fa.predict(X), before)
                mon.ok("forgets-selection", fa.get_param_vector_size() == sum(shadow[n].size for n in sel),
                       "size after selecting anew", got=fa.get_param_vector_size(), names=sel)
            elif op == "write":
                v = new_values(rng, sel, shadow)
                arg = v.tolist() if gen.chance(rng, 0.2) else v
                with mon.untouched("arguments-untouched", arg):
                    fa.set_param_vector(arg)
                o = 0
                for n in sel:
                    shadow[n] = v[o:o + shadow[n].size].copy()
                    o += shadow[n].size
                got = np.array(fa.get_param_vector())
                mon.equal("write-read", got, v, "vector read after writing it")
                wrote |= v.size > 0
                pred = np.array(fa.predict(X))
                if isinstance(arg, np.ndarray):
                    arg += 3.0
                    mon.equal("isolated", fa.get_param_vector(), got, "vector after the caller changed his array")
                    mon.equal("isolated", fa.predict(X), pred, "prediction after the caller changed his array")
            elif op == "back":
                v = fa.get_param_vector()
                fa.set_param_vector(np.array(v))
                mon.close("write-back-behaviour", fa.predict(X), before, rtol=1e-13, atol=1e-13, msg="prediction after writing back")
            elif op == "wrong":
                n = fa.get_param_vector_size()
                for m in {n + 1, n + 2, max(0, n - 1), 2 * n + 1} - {n}:
                    mon.raises("wrong-length-rejected", ValueError, lambda: fa.set_param_vector(np.zeros(m)), f"length {m} of {n}")
                mon.equal("wrong-length-rejected", fa.predict(X), before, "prediction after rejected write")
            elif op == "mutate":
                v = fa.get_param_vector()
                if v.size:
                    v += 11.0
                    mon.equal("isolated", fa.predict(X), before, "prediction after changing a vector that was read")
            elif op == "retrain":
                y = y0 * rng.uniform(-2, 2) + rng.normal()
                fa.train(X0.copy(), y)
                shadow = read_all(fa, names, list(sel))
            mon.ok("read-size", fa.get_param_vector_size() == len(fa.get_param_vector()), "reported size vs. vector",
                   size=fa.get_param_vector_size(), got=len(fa.get_param_vector()))
            if sel is not None:
                ex = np.concatenate([shadow[n] for n in sel] + [np.zeros(0)])
                mon.close("read-values", fa.get_param_vector(), ex, rtol=0, atol=0, msg=f"values of {sel}")
                actual = read_all(fa, names, list(sel))
                for n in names:
                    mon.close("unselected-unchanged", actual[n], shadow[n], rtol=0, atol=0, msg=f"parameter {n}")
            e = evaluate(kind, shadow, X, d)
            if e is not None:
                mon.close("meaning", fa.predict(X), e, rtol=1e-8, atol=1e-8 * gen.scale(*shadow.values()),
                          msg="prediction vs. model with the written parameters")
        if wrote:
            mon.nontrivial(s, hist, X0)
    return f


def dmp_history(rng, mon, sched=False):
    kind = gen.choice(rng, ["rbfn", "rbfn", "lwr"])
    d = int(rng.integers(1, 4))
    s = dmpgen.dmp_spec(rng, d=d, kinds=(kind,), no_fa=0.0 if sched else 0.15, amp=20.0)
    if s["fas"] is None:
        fas = None
    else:
        fas = dmpgen.dmp_fas(s)
    if s["type"].endswith("NO_SCALING") or "NO_SCALING_D" in s["type"]:
        pass
    kw = dict(dmp_type=s["type"], forcing_term_scaling=s["scaling"])
    if s["amplitudes"] is not None:
        kw["scaling_amplitudes"] = s["amplitudes"].copy()
    untrained = -1
    if fas is not None and d > 1 and gen.chance(rng, 0.15):
        untrained = int(rng.integers(d))
        fas[untrained] = dmpgen.fa_build(s["fas"][untrained]["spec"])
    fs = []
    if sched:
        fs = [dmpgen.fa_trained(rng, dmpgen.fa_spec(rng, kind, 1, bfs=4), 1)[0] for _ in range(int(rng.integers(1, 4)))]

    def build(goal, f, g):
        if sched:
            return DmpWithSchedules(s["tau"], s["y_init"].copy(), goal.copy(), f, g, **copy.deepcopy(kw))
        return Dmp(s["tau"], s["y_init"].copy(), goal.copy(), f, **copy.deepcopy(kw))

    dmp = build(s["y_attr"], fas, fs)
    ts = np.linspace(0, s["tau"], 25)
    fnames = dmpgen.FA_PARAMS[kind]
    trained = [f for i, f in enumerate(fas or []) if i != untrained]
    hist = []
    mon.describe(spec=dmpgen.brief(s), sched=len(fs), history=hist, untrained=untrained)

    def behaviour(of=None):
        of = of or dmp
        if sched:
            xs, xds, sc, ft, fo = of.analytical_solution_sched(ts)
            return np.concatenate((xs.flatten(), xds.flatten(), sc.flatten()))
        xs, xds, _, _ = of.analytical_solution(ts)
        return np.concatenate((xs.flatten(), xds.flatten()))

    # shadow of every parameter, read from the approximators themselves (one selection at a time)
    def shadow_read():
        out = {"goal": np.array(dmp.y_attr, dtype=float)}
        # copies are asked, so that what is selected in the DMP stays
        for i, f in enumerate(copy.deepcopy(trained)):
            for n in fnames:
                f.set_selected_param_names([n])
                out[("f", i, n)] = np.array(f.get_param_vector())
        for i, f in enumerate(copy.deepcopy(fs)):
            for n in fnames:
                f.set_selected_param_names([n])
                out[("s", i, n)] = np.array(f.get_param_vector())
        return out

    shadow = shadow_read()

    def keys(sel):
        out = []
        own = [n for n in sel if n != "goal" and not n.startswith("sched_")]
        for i in range(len(trained)):
            out += [("f", i, n) for n in own]
        if "goal" in sel:
            out.append("goal")
        for i in range(len(fs)):
            out += [("s", i, n[len("sched_"):]) for n in sel if n.startswith("sched_")]
        return out

    pool = list(fnames) + ["goal"] + ([f"sched_{n}" for n in fnames] if sched else [])
    sel, wrote = [], False
    dmp.set_selected_param_names([])
    for _ in range(int(rng.integers(4, 12))):
        op = gen.choice(rng, ["select", "select", "write", "write", "back", "wrong", "mutate", "use", "train"])
        hist.append(op)
        before = behaviour()
        if op == "train" and not sched and fas is not None and s["amplitudes"] is None:
            # other data, another number of trained approximators; the selection stays
            demo = dmpgen.demonstration(rng, n_dims=d, n=40)
            dmp.train(demo)
            s["tau"], s["y_init"], ts, untrained = float(demo.ts[-1]), demo.ys[0].copy(), np.linspace(0, 0.97 * demo.ts[-1], 25), -1
            trained = list(fas)
            shadow = shadow_read()
            before = behaviour()
            wrote = False
        if op == "select":
            k = int(rng.integers(0, min(4, len(pool)) + 1))
            sel = [pool[i] for i in rng.permutation(len(pool))[:k]]
            hist[-1] = f"select{sel}"
            names = sel[0] if (k == 1 and gen.chance(rng)) else list(sel)
            dmp.set_selected_param_names(names)
            mon.equal("selecting-changes-nothing", behaviour(), before)
            if isinstance(names, list):
                # the list remains the caller's
                mon.ok("names-untouched", names == sel, "the list of names after selecting", got=names, expected=sel)
                names += ["widths", "goal"]
        elif op == "write":
            v = []
            for key in keys(sel):
                old = shadow[key]
                nm = key if isinstance(key, str) else key[2]
                if nm == "goal":
                    new = gen.away(rng, s["y_init"], 0.3, 2.0)
                elif nm == "widths":
                    new = old * rng.uniform(0.8, 1.3, old.size)
                elif nm == "centers":
                    new = old + 0.05 * rng.normal(size=old.size)
                else:
                    new = rng.normal(size=old.size) * 10
                shadow[key] = np.array(new)
                v.append(new)
            v = np.concatenate(v + [np.zeros(0)])
            arg = v.copy()
            with mon.untouched("arguments-untouched", arg):
                dmp.set_param_vector(arg)
            mon.equal("write-read", dmp.get_param_vector(), v, "vector read after writing it")
            b = behaviour()
            arg += 5.0
            mon.equal("isolated", behaviour(), b, "movement after the caller changed his array")
            wrote |= v.size > 0
        elif op == "back":
            dmp.set_param_vector(np.array(dmp.get_param_vector()))
            mon.close("write-back-behaviour", behaviour(), before, rtol=1e-12, atol=1e-12)
        elif op == "wrong":
            n = dmp.get_param_vector_size()
            for m in {n + 1, max(0, n - 1), n + d} - {n}:
                mon.raises("wrong-length-rejected", ValueError, lambda: dmp.set_param_vector(np.zeros(m)), f"length {m} of {n}")
            mon.equal("wrong-length-rejected", behaviour(), before, "movement after rejected write")
        elif op == "mutate":
            v = dmp.get_param_vector()
            if v.size:
                v += 3.0
                mon.equal("isolated", behaviour(), before, "movement after changing a vector that was read")
        elif op == "use":
            dmpgen.stepped(dmp, ts[:5])
            if sched:
                dmp.integrate_start_sched()
        ex = np.concatenate([shadow[k] for k in keys(sel)] + [np.zeros(0)])
        got = np.array(dmp.get_param_vector())
        mon.ok("read-size", dmp.get_param_vector_size() == got.size == ex.size, "size of the vector",
               reported=dmp.get_param_vector_size(), got=got.size, expected=ex.size, selected=sel)
        mon.close("read-values", got, ex, rtol=0, atol=0, msg=f"values of {sel}")
        mon.close("meaning", dmp.y_attr, shadow["goal"], rtol=0, atol=0, msg="goal of the DMP vs. goal in the vector")
        if op in ("write", "back", "wrong", "select"):
            # the same movement as a DMP that was built with this goal and these approximators
            again = build(shadow["goal"], copy.deepcopy(fas), copy.deepcopy(fs))
            mon.close("meaning", behaviour(), behaviour(again), rtol=1e-8, atol=1e-8 * gen.scale(before),
                      msg="movement vs. a DMP built with these parameters")
    # finally every parameter, selected or not, has its shadow value
    actual = shadow_read()
    for k in shadow:
        mon.close("unselected-unchanged", actual[k], shadow[k], rtol=0, atol=0, msg=f"parameter {k}")
    if s["fas"] is not None:
        mon.ok("forgets-selection", True)
    if wrote:
        mon.nontrivial(dmpgen.brief(s), hist)


FAMILIES = {k: (fa_history(k), 60, 800) for k in dmpgen.FA_KINDS}
FAMILIES["dmp"] = (lambda r, m: dmp_history(r, m), 70, 800)
FAMILIES["dmp-sched"] = (lambda r, m: dmp_history(r, m, True), 70, 800)
