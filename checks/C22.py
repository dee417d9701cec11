"""C22 A learning session returns what was stored last, from memory or disk."""
import copy
import json
import os
import shutil
import tempfile
from pathlib import Path

import numpy as np
import pandas as pd

from dmpbbo.bbo.DistributionGaussian import DistributionGaussian
from dmpbbo.bbo.DistributionGaussianBounded import DistributionGaussianBounded
from dmpbbo.bbo.LearningSession import LearningSession
from dmpbbo.bbo.updaters import UpdaterCovarAdaptation
from dmpbbo.bbo_of_dmps.LearningSessionTask import LearningSessionTask
from mon import dmpgen, gen, tasks

RULE = ("A case is a history of 10-80 random operations (store, overwrite with another value or another type, ask, ask for what was never "
        "stored, query existence, change stored or returned objects in place, files written by another program, reopen, save everything elsewhere "
        "and go on from there) on a session in memory or on disk, run in parallel with a plain dictionary: the reference. Values are arrays, lists, "
        "numbers, strings, data frames, distributions, updaters, tasks and DMPs; keys vary name, update and sample, including update 0, "
        "sample 0, numpy integers, large numbers and 'eval'. Non-trivial with at least three keys stored. Distinct by history.")
ASSUMPTIONS = ["names do not start with digits or 'eval_' and do not end in '_for_cpp'; the evaluation of an update is its sample 'eval'",
               "arrays and lists are numeric with at most two dimensions; integers, booleans and lists are reloaded as arrays of equal values",
               "one session at a time works on a directory; other programs only add files that the session has not stored or asked for yet",
               "data frames are reloaded to within 1e-12, objects to within 1e-12"]
required = ["ask", "exists", "missing", "isolated", "reopened", "saved-all", "other-program", "file-exists", "dmp-for-cpp", "constructor", "derived"]

NAMES = ["cost", "costs", "x", "sample", "samples", "cost_vars", "distribution", "a.b", "long name", "x_y", "X", "update", "traj", "y", "weights2", "json", "costs_eval"]


def value(rng, task, shape_safe=True):
    k = gen.choice(rng, ["array", "array", "matrix", "matrix", "list", "lists", "int", "bool", "float", "npfloat", "npint", "string", "none", "dict", "frame",
                         "distribution", "bounded", "updater", "task", "intarray", "special", "tuple", "empty"])
    n, m = int(rng.integers(2, 6)), int(rng.integers(2, 5))
    v = {
        "array": lambda: rng.normal(size=n) * 10.0 ** rng.integers(-8, 9),
        "matrix": lambda: rng.normal(size=(n, m)),
        "list": lambda: [float(x) for x in rng.normal(size=n)],
        "lists": lambda: [[float(x) for x in r] for r in rng.normal(size=(n, m))],
        "int": lambda: int(rng.integers(-5, 10 ** 6)),
        "bool": lambda: bool(rng.random() < 0.5),
        "float": lambda: float(rng.normal() * 10.0 ** rng.integers(-8, 9)),
        "npfloat": lambda: np.float64(rng.normal()),
        "npint": lambda: np.int64(rng.integers(100)),
        "string": lambda: gen.choice(rng, ["", "hello", "a\nb", "ünïcode", "1.5", "{}"]),
        "none": lambda: None,
        "dict": lambda: {"a": float(rng.normal()), "b": [1, 2, float(rng.normal())], "c": {"d": "e"}},
        "frame": lambda: pd.DataFrame(rng.normal(size=(n, m)), columns=[f"c{i}" for i in range(m)]),
        "distribution": lambda: DistributionGaussian(rng.normal(size=n), np.diag(rng.uniform(0.1, 1, n))),
        "bounded": lambda: DistributionGaussianBounded(rng.normal(size=n), np.diag(rng.uniform(0.1, 1, n)), float(-rng.random()), rng.uniform(1, 2, n)),
        "updater": lambda: UpdaterCovarAdaptation(eliteness=int(n), max_level=rng.uniform(1, 2, n)),
        "task": lambda: tasks.ViapointTask(rng.normal(size=n), n, "array", ["a", "b"]),
        "intarray": lambda: rng.integers(-9, 9, (n, m)),
        "special": lambda: np.array([np.nan, np.inf, -np.inf, 0.0, -0.0, 1e-310, 1.7e308]),
        "tuple": lambda: (1.5, "x", 2),
        "empty": lambda: np.zeros(0),
    }[k]()
    return k, v


def same(a, b, exact=False, depth=0):
    """Equal values; after reloading, numbers, lists and arrays are interchangeable."""
    if depth > 12:
        return True
    if isinstance(b, pd.DataFrame):
        return isinstance(a, pd.DataFrame) and list(a.columns) == list(b.columns) and a.shape == b.shape and bool(
            np.allclose(a.values, b.values, rtol=0 if exact else 1e-12, atol=0, equal_nan=True))
    if isinstance(a, pd.DataFrame):
        return False
    if exact and type(a) is not type(b):
        return False
    num = (bool, int, float, np.generic, np.ndarray, list)
    if isinstance(b, num) and isinstance(a, num):
        try:
            x, y = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
        except (TypeError, ValueError):
            return isinstance(a, list) and isinstance(b, list) and len(a) == len(b) and all(same(p, q, exact, depth + 1) for p, q in zip(a, b))
        if x.shape != y.shape and (exact or x.size != 1 or y.size != 1):
            return False
        return bool(np.allclose(x.reshape(-1), y.reshape(-1), rtol=0 if exact else 1e-12, atol=0, equal_nan=True))
    if b is None or isinstance(b, str):
        return type(a) is type(b) and a == b
    if isinstance(b, dict):
        return isinstance(a, dict) and set(a) == set(b) and all(same(a[k], b[k], exact, depth + 1) for k in b)
    if isinstance(b, tuple):
        return isinstance(a, tuple) and len(a) == len(b) and all(same(p, q, exact, depth + 1) for p, q in zip(a, b))
    if type(a) is not type(b):
        return False
    return same(vars(a), vars(b), exact, depth + 1)


def poke(rng, v):
    """Change an object in place; returns whether it could be."""
    if isinstance(v, np.ndarray) and v.size:
        v[(0,) * v.ndim] += 7
        return True
    if isinstance(v, list) and v:
        if isinstance(v[0], list):
            v[0][0] += 7
        else:
            v.append(3.0) if gen.chance(rng) else v.pop(0)
        return True
    if isinstance(v, dict):
        v["b"].append(9)
        v["new"] = 1
        return True
    if isinstance(v, pd.DataFrame):
        v.iloc[0, 0] += 7
        return True
    if hasattr(v, "mean") and hasattr(v, "covar"):
        if gen.chance(rng):
            v.mean[0] += 7
        else:
            v.covar = v.covar * 2
        return True
    if isinstance(v, UpdaterCovarAdaptation):
        v.eliteness = 99
        return True
    if isinstance(v, tasks.ViapointTask):
        v.point[0] += 7
        v.labels.append("c")
        return True
    return False


def key_(rng, pool):
    if pool and gen.chance(rng, 0.45):
        return gen.choice(rng, sorted(pool, key=str))
    name = gen.choice(rng, NAMES)
    u = gen.choice(rng, [None, None, 0, 0, 1, 2, 10, 11, 99999, 100000, int(rng.integers(20))])
    s = gen.choice(rng, [None, None, 0, 0, 1, 7, 10, 100, 1000, "eval", int(rng.integers(12))])
    return (name, u, s)


def args_(rng, key):
    name, u, s = key
    if isinstance(u, int) and gen.chance(rng, 0.2):
        u = np.int64(u)
    if isinstance(s, int) and gen.chance(rng, 0.2):
        s = np.int32(s)
    if s is None and gen.chance(rng):
        return (name,) if u is None and gen.chance(rng) else (name, u)
    return (name, u, s)


def history(rng, mon):
    task = gen.chance(rng)
    cls = LearningSessionTask if task else LearningSession
    tmp = Path(tempfile.mkdtemp(dir=mon.ctx.scratch))
    n = int(rng.integers(1, 12))
    where = tmp / "s0" if gen.chance(rng, 0.7) else None
    ops = []
    try:
        kw, model = {}, {}
        model[("n_samples_per_update", None, None)] = n
        if gen.chance(rng, 0.4):
            kw["updater"] = UpdaterCovarAdaptation(eliteness=3)
            kw["anything"] = rng.normal(size=3)
            if task:
                kw["task"] = tasks.ViapointTask(rng.normal(size=2), 2, "array", ["a", "b"])
            for k, v in kw.items():
                model[(k, None, None)] = copy.deepcopy(v)
        if where is not None:
            os.makedirs(where)
        session = cls(n, str(where) if where is not None and gen.chance(rng) else where, **kw)
        for k, v in kw.items():
            mon.ok("constructor", same(session.ask(k), v), "object given to the constructor", name=k)
        mon.describe(task=task, on_disk=where is not None)
        known, held = {("n_samples_per_update", None, None)} | {(k, None, None) for k in kw}, []
        count = int(rng.integers(10, 80))
        for step in range(count):
            op = gen.choice(rng, ["tell"] * 6 + ["ask"] * 6 + ["exists"] * 3 + ["missing"] * 2 + ["poke"] * 4 + ["reopen", "save_all", "external"])
            key = key_(rng, set(model))
            a = args_(rng, key)
            w = dict(step=step, operation=op, stored=key, history=ops[-12:])
            if op == "tell" and key[0] != "n_samples_per_update":
                kind, v = value(rng, task)
                ops.append(("tell", key, kind))
                f = session.tell(v, *a)
                model[key] = copy.deepcopy(v)
                known.add(key)
                held.append((key, v))
                if where is not None:
                    mon.ok("file-exists", f is not None and os.path.isfile(f), "file of the object stored", file=f, **w)
                got = session.ask(*args_(rng, key))
                mon.ok("ask", same(got, model[key], exact=True), "asked right after storing", got=got, expected=model[key], **w)
            elif op == "ask" and model:
                key = key if key in model else gen.choice(rng, sorted(model, key=str))
                got = session.ask(*args_(rng, key))
                mon.ok("ask", same(got, model[key]), "value returned", got=got, expected=model[key], **{**w, "stored": key})
                known.add(key)
                held.append((key, got))
            elif op == "exists":
                mon.ok("exists", session.exists(*a) == (key in model), "existence", got=session.exists(*a), expected=key in model, **w)
            elif op == "missing" and key not in model:
                mon.raises("missing", (KeyError, OSError), lambda: session.ask(*a), "asking for what was never stored")
                mon.ok("exists", not session.exists(*a), "exists after asking in vain", **w)
            elif op == "poke" and held:
                key, v = gen.choice(rng, held)
                if poke(rng, v):
                    ops.append(("changed in place", key))
                    if key in model:
                        got = session.ask(*args_(rng, key))
                        mon.ok("isolated", same(got, model[key]), "changed together with an object stored or returned", got=got, expected=model[key], **{**w, "stored": key})
            elif op == "reopen" and where is not None:
                ops.append(("reopen",))
                session = cls.from_dir(where if gen.chance(rng) else str(where))
                known = set()
                if gen.chance(rng):
                    judge_all(rng, mon, session, model, "reopened", ops)
            elif op == "save_all":
                target = tmp / f"s{step}" if where is None or gen.chance(rng, 0.8) else where
                ops.append(("save_all", str(target.name)))
                if gen.chance(rng):
                    os.makedirs(target, exist_ok=True)
                session.save_all(target if gen.chance(rng) else str(target))
                if gen.chance(rng):
                    judge_all(rng, mon, session, model, "saved-all", ops)
                other = cls.from_dir(target)
                judge_all(rng, mon, other, model, "saved-all", ops)
                if gen.chance(rng, 0.6):
                    if where is not None and target != where and gen.chance(rng):
                        shutil.rmtree(where)
                    session, where, known = other, target, set()
            elif op == "external" and where is not None and key not in model and key[1] is not None:
                v = rng.normal(size=(3, 2)) if gen.chance(rng) else rng.normal(size=4)
                d = where / f"update{key[1]:05d}"
                os.makedirs(d, exist_ok=True)
                s = key[2]
                stem = key[0] if s is None else (f"{s:03d}_{key[0]}" if isinstance(s, int) else f"{s}_{key[0]}")
                np.savetxt(d / f"{stem}.txt", v)
                model[key] = v
                ops.append(("external", key))
                mon.ok("other-program", session.exists(*a), "file written by another program", **w)
                got = session.ask(*a)
                mon.ok("other-program", same(got, v), "file written by another program", got=got, expected=v, **w)
        judge_all(rng, mon, session, model, "final", ops)
        if where is not None:
            judge_all(rng, mon, cls.from_dir(where), model, "reopened", ops)
        if len(model) > 3:
            mon.nontrivial(ops)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def judge_all(rng, mon, session, model, key, ops):
    for k in sorted(model, key=str):
        mon.ok(key, session.exists(*args_(rng, k)), "does not exist any more", stored=k, history=ops[-12:])
        got = session.ask(*args_(rng, k))
        mon.ok(key, same(got, model[k]), "value returned", stored=k, got=got, expected=model[k], history=ops[-12:])


def numbers(rng, mon):
    """Updates and their number, whatever their order of magnitude, in memory, on disk and reopened."""
    tmp = Path(tempfile.mkdtemp(dir=mon.ctx.scratch))
    try:
        n, d = int(rng.integers(2, 6)), int(rng.integers(2, 5))
        u = int(gen.choice(rng, [1, 2, 9, 10, 11, 12, 25, 101]))
        form = gen.choice(rng, ["array", "float"])
        mon.describe(n=n, n_updates=u, form=form)
        mon.nontrivial(n, u, form, d)
        sessions = {"memory": LearningSession(n), "disk": LearningSession(n, str(tmp / "d")) if not os.makedirs(tmp / "d") else None}
        for s in sessions.values():
            mon.ok("n-updates", s.get_n_updates() == 0, "updates of a new session")
        hist = []
        for i in range(u):
            dist = DistributionGaussian(rng.normal(size=d), np.eye(d))
            X, w = rng.normal(size=(n, d)), rng.dirichlet(np.ones(n))
            c = rng.normal(size=(n, 3)) if form == "array" else [float(x) for x in rng.normal(size=n)]
            e = rng.normal(size=3) if form == "array" else float(rng.normal())
            hist.append((dist, X, c, w, e))
            for s in sessions.values():
                s.add_eval(i, dist.mean, e)
                if i == u - 1:
                    # prepared, not updated yet
                    mon.ok("n-updates", s.get_n_updates() == i, "updates while the last one awaits its samples", got=s.get_n_updates(), expected=i)
                s.add_update(i, dist, X, c, w, dist if i % 2 else None)
                if i in (0, u - 1):
                    mon.ok("n-updates", s.get_n_updates() == i + 1, "number of updates", got=s.get_n_updates(), expected=i + 1)
        sessions["reopened"] = LearningSession.from_dir(tmp / "d")
        sessions["memory"].save_all(tmp / "m")
        sessions["saved"] = LearningSession.from_dir(tmp / "m")
        for name, s in sessions.items():
            mon.ok("n-updates", s.get_n_updates() == u, f"{name}: number of updates", got=s.get_n_updates(), expected=u)
            curve, _ = s.get_learning_curve()
            exp = [np.concatenate(([i * n], np.atleast_1d(h[4]))) for i, h in enumerate(hist)]
            mon.close("learning-curve", curve, exp, rtol=1e-12, atol=0, msg=f"{name}: learning curve")
            for i in {0, u - 1, u // 2}:
                mon.close("costs", s.get_sample_costs(i), hist[i][2], rtol=1e-12, atol=0, msg=f"{name}: costs of the samples")
                mon.ok("exists", s.exists("distribution_new", i) == bool(i % 2), f"{name}: distribution after the update is optional")
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def dmps(rng, mon):
    """DMPs of a task session: what is asked for moves as what was stored, and the robot's file has the same parameters."""
    tmp = Path(tempfile.mkdtemp(dir=mon.ctx.scratch))
    try:
        s = dmpgen.dmp_spec(rng, no_fa=0.0, kinds=("rbfn", "lwr"))
        d1 = dmpgen.dmp_build(s)
        d1.set_selected_param_names("weights" if all(f["spec"]["kind"] == "rbfn" for f in s["fas"]) else "centers")
        mon.describe(dmp=dmpgen.brief(s))
        mon.nontrivial(dmpgen.brief(s))
        session = LearningSessionTask(3, tmp)
        key = gen.choice(rng, [("dmp", 0, 0), ("dmp", 3, "eval"), ("dmp_initial",), ("my_dmp", 2)])
        ts = np.linspace(0, 1.3 * s["tau"], 20)
        exp = d1.analytical_solution(ts)
        for rep in range(2):
            with mon.untouched("dmp-untouched", d1):
                f = session.tell(d1, *key)
            mon.ok("file-exists", os.path.isfile(f), "file of the DMP")
            base = Path(tmp, LearningSessionTask.get_base_name(*key))
            cpp = Path(f"{base}_for_cpp.json")
            if mon.ok("dmp-for-cpp", cpp.is_file(), "file of the DMP for C++"):
                j = json.loads(cpp.read_text())
                mon.ok("dmp-for-cpp", j.get("class") == "Dmp", "class in the file for C++")
                mon.close("dmp-for-cpp", j["_tau"], d1.tau, rtol=0, atol=0, msg="tau in the file for C++")
            for who in (session, LearningSessionTask.from_dir(tmp)):
                got = who.ask(*key)
                out = got.analytical_solution(ts)
                for a, b in zip(out, exp):
                    if b is not None:
                        mon.close("ask", a, b, rtol=1e-9, atol=1e-9 * gen.scale(b), msg="movement of the DMP stored")
                mon.close("ask", got.get_param_vector(), d1.get_param_vector(), rtol=1e-12, atol=0, msg="parameters of the DMP stored")
                # a changed copy does not change what is stored
                got.set_param_vector(got.get_param_vector() * 2 + 1)
                mon.close("isolated", who.ask(*key).get_param_vector(), d1.get_param_vector(), rtol=1e-12, atol=0, msg="changed with the DMP returned")
            d1.set_param_vector(d1.get_param_vector() + 0.1)
            mon.ok("isolated", not np.allclose(session.ask(*key).get_param_vector(), d1.get_param_vector(), rtol=1e-12, atol=1e-6), "changed with the DMP stored")
            exp = d1.analytical_solution(ts)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def derived(rng, mon):
    """What is computed from the costs stored, with or without evaluations, in one file or one per sample."""
    tmp = Path(tempfile.mkdtemp(dir=mon.ctx.scratch))
    try:
        n = int(gen.choice(rng, [1, 2, 3, 7, 20, 300, 1000]))
        u, m = int(rng.integers(1, 6)), int(rng.integers(1, 5))
        evals, split = gen.chance(rng), gen.chance(rng) if n <= 20 else False
        other = gen.chance(rng, 0.3)  # another way of storing in the later updates
        names = [f"part {k}" for k in range(m - 1)] if gen.chance(rng, 0.6) else None
        kw = {"task": tasks.ViapointTask(np.zeros(2), 2, "array", names)} if names is not None else {}
        mon.describe(n_samples=n, updates=u, components=m, evaluations=evals, one_file_per_sample=split, mixed=other)
        mon.nontrivial(n, u, m, evals, split, other)
        s = LearningSessionTask(n, tmp, **kw)
        exp, all_costs = [], []
        for i in range(u):
            c = rng.lognormal(0, 2, (n, m))
            c[:, 0] = c.sum(axis=1)
            e = rng.lognormal(0, 2, m)
            dist = DistributionGaussian(rng.normal(size=2), np.eye(2))
            X, w = rng.normal(size=(n, 2)), rng.dirichlet(np.ones(n))
            if split != (other and i > 0) and n <= 20:
                for k in range(n):
                    s.tell(c[k] if gen.chance(rng) else list(c[k]), "costs", i, k)
                s.tell(w, "weights", i)
            elif n == 1 or m == 1:
                # as an optimization stores them: a list
                s.add_update(i, dist, X, [float(x) for x in c[:, 0]] if m == 1 else [c[0]], w)
            else:
                s.add_update(i, dist, X, c, w)
            if evals:
                s.add_eval(i, dist.mean, e if m > 1 or gen.chance(rng) else float(e[0]))
            all_costs.append(c)
            exp.append(np.concatenate(([i * n], e)) if evals else np.concatenate(([(i + 0.5) * n], c.mean(axis=0))))
        for who, name in ((s, "as stored"), (LearningSessionTask.from_dir(tmp), "reopened")):
            mon.ok("derived", np.size(who.ask("n_samples_per_update")) == 1 and int(np.reshape(who.ask("n_samples_per_update"), -1)[0]) == n,
                   f"{name}: number of samples per update", got=who.ask("n_samples_per_update"), expected=n)
            curve, labels = who.get_learning_curve()
            mon.close("derived", np.array(curve), np.array(exp), rtol=1e-10, atol=0, msg=f"{name}: learning curve")
            if names is not None:
                mon.ok("derived", list(labels) == names, f"{name}: labels", got=labels, expected=names)
            for i in range(u):
                got = np.reshape(who.get_sample_costs(i), (n, -1))
                mon.close("derived", got, all_costs[i], rtol=1e-12, atol=0, msg=f"{name}: costs of the samples of update {i}")
                v, at = who.get_eval_costs(i)
                mon.close("derived", np.concatenate(([at], np.atleast_1d(v))), exp[i], rtol=1e-10, atol=0, msg=f"{name}: evaluation of update {i}")
            before, after = who.get_eval_cost_before_after()
            mon.close("derived", np.atleast_1d(before), exp[0][1:], rtol=1e-10, atol=0, msg=f"{name}: cost before")
            mon.close("derived", np.atleast_1d(after), exp[-1][1:], rtol=1e-10, atol=0, msg=f"{name}: cost after")
            mon.close("derived", who.get_cost_ratio(), exp[-1][1] / exp[0][1], rtol=1e-10, atol=0, msg=f"{name}: ratio of the total costs")
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


SHAPES = [(1,), (1, 1), (1, 4), (4, 1), (2, 1), (1, 2)]


def shape(rng, mon):
    """Arrays with one element, row or column come back from disk with the shape they had."""
    sh = SHAPES[mon.case % len(SHAPES)]
    v = rng.normal(size=sh)
    mon.describe(shape=sh)
    mon.nontrivial(sh)
    tmp = tempfile.mkdtemp(dir=mon.ctx.scratch)
    try:
        s = LearningSession(3, tmp)
        s.tell(v, "x", 0)
        mon.equal("in-memory", s.ask("x", 0), v, "asked right after storing")
        got = LearningSession.from_dir(tmp).ask("x", 0)
        mon.close("content", np.reshape(got, -1), np.reshape(v, -1), rtol=0, atol=0, msg="values")
        what = "one-element" if v.size == 1 else ("one-row" if sh[0] == 1 else "one-column")
        mon.ok(f"shape-{what}", np.shape(got) == sh, f"array of shape {sh} reloaded with shape {np.shape(got)}")
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


FAMILIES = {"history": (history, 900, 12000), "numbers": (numbers, 60, 600), "derived": (derived, 150, 1500), "dmps": (dmps, 80, 1000), "shape": (shape, 6, 60)}
