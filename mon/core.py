"""Monitoring harness: runs workloads against the real code and judges what the monitors observe.

A check is a module checks/<ID>.py with
    RULE         how cases are made and what makes one non-trivial
    FAMILIES     {name: (function(rng, mon), n_cases_quick, n_cases_thorough)}
    ASSUMPTIONS  list of strings (optional)
    setup(ctx)   optional, run once in the parent before the workers are forked
                 (e.g. building the C++ driver); ctx.scratch is a directory that is removed at exit
    required     optional list of monitor keys that must have been observed at least once
                 (otherwise the run is inconclusive)

A monitor is a call  mon.ok(key, condition, message, **witness)  or one of its relatives. Every call
is an observation, counted per key; a false condition is a violation with the witness recorded.
"""
import contextlib
import copy
import hashlib
import importlib
import io
import json
import multiprocessing as mp
import os
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings
import zlib
from collections import Counter
from pathlib import Path

import numpy as np

VERIF = Path(__file__).resolve().parent.parent
REPO = os.environ.get("VERIF_REPO", "/repo")
# replays and evidence of runs against another tree (development) must not replace the real ones
OUT = Path(os.environ.get("VERIF_OUT", str(VERIF)))


class CaseTimeout(BaseException):
    pass


class StopCase(Exception):
    """Raised by a monitor when the rest of the case makes no sense."""


def jsonable(o, depth=0):
    if depth > 6:
        return repr(o)[:200]
    if isinstance(o, (str, int, bool)) or o is None:
        return o
    if isinstance(o, float):
        return o if np.isfinite(o) else repr(o)
    if isinstance(o, np.ndarray):
        if o.size > 60:
            return {"shape": list(o.shape), "head": jsonable(o.flatten()[:30].tolist(), depth + 1)}
        return jsonable(o.tolist(), depth + 1)
    if isinstance(o, np.generic):
        return jsonable(o.item(), depth + 1)
    if isinstance(o, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in o.items()}
    if isinstance(o, (list, tuple, set)):
        return [jsonable(v, depth + 1) for v in list(o)[:60]]
    return repr(o)[:300]


def snapshot(o):
    """Bit-exact fingerprint of a (nested) argument, to observe whether a call modified it."""
    h = hashlib.sha1()

    def rec(v, seen):
        if isinstance(v, np.ndarray):
            h.update(str((v.shape, v.dtype.str)).encode())
            if v.dtype == object:
                for e in v.flatten():
                    rec(e, seen)
            else:
                h.update(np.ascontiguousarray(v).tobytes())
        elif isinstance(v, (list, tuple)):
            h.update(f"L{len(v)}".encode())
            for e in v:
                rec(e, seen)
        elif isinstance(v, dict):
            h.update(f"D{len(v)}".encode())
            for k in sorted(v, key=str):
                h.update(str(k).encode())
                rec(v[k], seen)
        elif hasattr(v, "__dict__") and not isinstance(v, type):
            if id(v) in seen:
                return
            h.update(type(v).__name__.encode())
            rec(vars(v), seen | {id(v)})
        else:
            h.update(repr(v).encode())

    rec(o, frozenset())
    return h.hexdigest()


class Mon:
    def __init__(self, prop, family, case, tier, ctx):
        self.prop, self.family, self.case, self.tier, self.ctx = prop, family, case, tier, ctx
        self.obs = Counter()
        self.violations = []
        self.sig = None
        self.sample = None
        self.context = {}

    # --- bookkeeping
    def describe(self, **kw):
        """What this case is: part of every witness, and the sample written to the evidence."""
        self.context.update(jsonable(kw))

    def nontrivial(self, *sig):
        """Mark the case as non-trivial; sig identifies it for the distinct count."""
        self.sig = hashlib.sha1(json.dumps(jsonable(sig), sort_keys=True).encode()).hexdigest()[:16]

    def event(self, key, n=1):
        self.obs[key] += n

    # --- monitors
    def ok(self, key, cond, msg="", **witness):
        self.obs[key] += 1
        cond = bool(np.all(cond))
        if not cond:
            self.violations.append(
                {"key": key, "msg": msg or key, "witness": jsonable(witness)}
            )
        return cond

    def must(self, key, cond, msg="", **witness):
        if not self.ok(key, cond, msg, **witness):
            raise StopCase()

    def finite(self, key, a, msg=""):
        a = np.asarray(a, dtype=float)
        return self.ok(key, np.all(np.isfinite(a)), msg or "non-finite value", value=a)

    def close(self, key, a, b, rtol=1e-9, atol=1e-9, msg="", shape=True, **witness):
        """a: observed; b: expected."""
        try:
            a_ = np.asarray(a, dtype=float)
        except (TypeError, ValueError):
            return self.ok(key, False, f"{msg}: not numeric", got=a, expected=b, **witness)
        b_ = np.asarray(b, dtype=float)
        if shape and a_.shape != b_.shape:
            return self.ok(
                key, False, f"{msg}: shape {a_.shape} instead of {b_.shape}", got=a, expected=b,
                **witness
            )
        if not shape and a_.size != b_.size:
            return self.ok(
                key, False, f"{msg}: size {a_.size} instead of {b_.size}", got=a, expected=b,
                **witness
            )
        if not shape:
            a_, b_ = a_.reshape(-1), b_.reshape(-1)
        with np.errstate(all="ignore"):
            good = np.isclose(a_, b_, rtol=rtol, atol=atol, equal_nan=False)
        if np.all(good):
            self.obs[key] += 1
            return True
        idx = tuple(int(i) for i in np.argwhere(~good)[0]) if good.ndim else ()
        return self.ok(
            key, False, f"{msg}: differ", first_bad_index=idx,
            got_at=a_[idx], expected_at=b_[idx],
            max_abs=float(np.nanmax(np.abs(a_ - b_))) if a_.size else 0.0,
            n_bad=int((~good).sum()), got=a_, expected=b_, **witness
        )

    def equal(self, key, a, b, msg="", **witness):
        a_, b_ = np.asarray(a), np.asarray(b)
        same = a_.shape == b_.shape and bool(np.array_equal(a_, b_))
        return self.ok(key, same, f"{msg}: not equal", got=a_, expected=b_, **witness)

    @contextlib.contextmanager
    def untouched(self, key, *objs, msg=""):
        """Monitor that the block leaves the given objects bit-identical."""
        before = [snapshot(o) for o in objs]
        yield
        after = [snapshot(o) for o in objs]
        for i, (b, a) in enumerate(zip(before, after)):
            self.ok(key, b == a, f"{msg}: argument {i} was modified by the call")

    def raises(self, key, exc, fn, msg=""):
        try:
            fn()
        except exc:
            return self.ok(key, True)
        except Exception as e:  # noqa
            return self.ok(key, False, f"{msg}: raised {type(e).__name__} instead: {e}")
        return self.ok(key, False, f"{msg}: did not raise")


class Ctx:
    def __init__(self, prop, tier, seed, scratch):
        self.prop, self.tier, self.seed, self.scratch = prop, tier, seed, scratch
        self.data = {}


def case_rng(seed, prop, family, case):
    ss = np.random.SeedSequence([seed, zlib.crc32(prop.encode()), zlib.crc32(family.encode()), case])
    return ss


def run_case(module, prop, family, case, seed, tier, ctx, timeout):
    fn = module.FAMILIES[family][0]
    mon = Mon(prop, family, case, tier, ctx)
    ss = case_rng(seed, prop, family, case)
    rng = np.random.default_rng(ss)
    legacy = int(ss.generate_state(1)[0])
    np.random.seed(legacy)
    random.seed(legacy)
    inconclusive = None

    def onalarm(sig, frm):
        raise CaseTimeout()

    cpu0 = time.process_time()
    old = signal.signal(signal.SIGALRM, onalarm)
    signal.alarm(int(timeout))
    out = io.StringIO()
    try:
        with warnings.catch_warnings(), contextlib.redirect_stdout(out):
            warnings.simplefilter("ignore")
            fn(rng, mon)
    except StopCase:
        pass
    except CaseTimeout as e:
        cpu = time.process_time() - cpu0
        tb = traceback.extract_tb(e.__traceback__)
        repo_frames = [f for f in tb if f.filename.startswith(REPO + "/")]
        if repo_frames and cpu > 0.5 * timeout:
            # computing all the time, in the code under test, thousands of times longer than any case needs
            f = repo_frames[-1]
            mon.violations.append({
                "key": "does-not-return", "msg": f"{f.name} still running after {cpu:.0f} s of computing",
                "witness": {"traceback": [f"{Path(f.filename).name}:{f.lineno} {f.name}" for f in tb][-8:]}})
        else:
            inconclusive = f"{family}/{case}: timed out after {timeout} s"
    except Inconclusive as e:
        inconclusive = f"{family}/{case}: {e}"
    except Exception as e:  # noqa
        tb = traceback.extract_tb(e.__traceback__)
        repo_frames = [f for f in tb if f.filename.startswith(REPO + "/")]
        where = [f"{Path(f.filename).name}:{f.lineno} {f.name}" for f in tb][-8:]
        if repo_frames:
            f = repo_frames[-1]
            mon.violations.append({
                "key": f"raised-{type(e).__name__}",
                "msg": f"{type(e).__name__} in {f.name}: {e}",
                "witness": {"traceback": where},
            })
        elif isinstance(e, (AttributeError, NameError, ImportError, OSError)) and not (
            # what the code under test returned or should have written
            isinstance(e, FileNotFoundError)
            or (isinstance(e, AttributeError) and getattr(e, "obj", sys) is not sys
                and isinstance(e.obj, (type(None), np.ndarray, np.generic, int, float, str, list, tuple, dict)))
        ):
            inconclusive = f"{family}/{case}: harness error {type(e).__name__}: {e} at {where}"
        else:
            mon.violations.append({
                "key": f"malformed-output-{type(e).__name__}",
                "msg": f"output could not be interpreted: {type(e).__name__}: {e}",
                "witness": {"traceback": where},
            })
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
    return mon, inconclusive


class Inconclusive(Exception):
    pass


def _quiet():
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)


def _worker(module, prop, seed, tier, ctx, timeout, jobs, start, stop_at, q, per_case_cap):
    import matplotlib
    matplotlib.use("Agg")
    res = {
        "obs": Counter(), "evals": 0, "sigs": set(), "violations": [], "inconclusive": [],
        "samples": {}, "families": Counter(), "skipped": 0, "vcount": 0,
    }
    try:
        os.chdir(ctx.scratch)
        for (family, case) in jobs:
            if time.time() > stop_at and res["families"][family] > 0:
                res["skipped"] += 1
                continue
            mon, inc = run_case(module, prop, family, case, seed, tier, ctx, timeout)
            res["evals"] += 1
            res["families"][family] += 1
            for k, n in mon.obs.items():
                res["obs"][f"{family}:{k}"] += n
            if mon.sig:
                res["sigs"].add(family + mon.sig)
            if mon.context and mon.sig and family not in res["samples"]:
                res["samples"][family] = {"family": family, "case": case, **mon.context}
            for v in mon.violations:
                res["vcount"] += 1
                v = dict(v, family=family, case=case, context=mon.context)
                same = [w for w in res["violations"] if w["family"] == family and w["key"] == v["key"]]
                if len(same) < per_case_cap:
                    res["violations"].append(v)
            if inc:
                res["inconclusive"].append(inc)
            if sum(v["key"] == "does-not-return" for v in res["violations"]) >= 2:
                break
    except BaseException as e:  # noqa
        res["inconclusive"].append(f"worker died: {type(e).__name__}: {e} {traceback.format_exc()[-800:]}")
    q.put(res)


def load_known(prop):
    f = VERIF / "known_findings.json"
    if not f.exists():
        return []
    data = json.loads(f.read_text())
    return [e for e in data.get("known", []) if e["property"] == prop]


def main(prop, argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--family")
    ap.add_argument("--case", type=int)
    ap.add_argument("--scale", type=float, default=1.0)
    a = ap.parse_args(argv)
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix=f"verif_{prop}_")
    try:
        return _main(prop, a, t0, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def _main(prop, a, t0, scratch):
    sys.path.insert(0, REPO)
    try:
        import dmpbbo
        assert Path(dmpbbo.__file__).resolve().is_relative_to(Path(REPO).resolve()), dmpbbo.__file__
        module = importlib.import_module(f"checks.{prop}")
    except Exception as e:  # noqa
        print(f"INCONCLUSIVE property={prop} cannot import: {type(e).__name__}: {e}")
        traceback.print_exc()
        return 2
    ctx = Ctx(prop, a.tier, a.seed, scratch)
    if hasattr(module, "setup"):
        try:
            module.setup(ctx)
        except Inconclusive as e:
            print(f"INCONCLUSIVE property={prop} setup: {e}")
            return 2

    if a.replay or a.family:
        if a.replay:
            r = json.loads(Path(a.replay).read_text())
            fam, case, seed, tier = r["family"], r["case"], r["seed"], r["tier"]
        else:
            fam, case, seed, tier = a.family, a.case or 0, a.seed, a.tier
        ctx.tier, ctx.seed = tier, seed
        os.chdir(scratch)
        mon, inc = run_case(module, prop, fam, case, seed, tier, ctx, 600)
        print(json.dumps({"context": mon.context, "observations": mon.obs,
                          "violations": mon.violations, "inconclusive": inc}, indent=1))
        return 1 if mon.violations else (2 if inc else 0)

    quick = a.tier == "quick"
    jobs = []
    for fam, (fn, nq, nt) in module.FAMILIES.items():
        n = max(1, int(round((nq * getattr(module, "QUICK", 1) if quick else nt) * a.scale)))
        jobs += [(fam, i) for i in range(n)]
    nw = min(getattr(module, "WORKERS", 8), max(1, os.cpu_count() or 1), len(jobs))
    timeout = getattr(module, "CASE_TIMEOUT", 60 if quick else 240)
    budget = getattr(module, "BUDGET", {"quick": 300, "thorough": 700})[a.tier]
    stop_at = t0 + budget
    # shuffle for balance (deterministically), so that a deadline cuts every family alike
    random.Random(a.seed).shuffle(jobs)
    mpc = mp.get_context("fork")
    q = mpc.Queue()
    procs = []
    sys.stdout.flush()
    for w in range(nw):
        p = mpc.Process(target=_worker, args=(
            module, prop, a.seed, a.tier, ctx, timeout, jobs[w::nw], t0, stop_at, q, 2))
        p.start()
        procs.append(p)
    results = []
    hard = t0 + budget + 120
    while len(results) < nw:
        try:
            results.append(q.get(timeout=1))
        except Exception:  # noqa queue.Empty
            dead = [p for p in procs if p.exitcode not in (None, 0)]
            if time.time() > hard or (dead and q.empty() and len(results) + len(dead) >= nw):
                break
    lost = nw - len(results)
    for p in procs:
        if p.is_alive():
            p.join(2)
            if p.is_alive():
                p.kill()

    obs, fams, sigs, viols, incs, samples = Counter(), Counter(), set(), [], [], {}
    evals = skipped = vcount = 0
    for r in results:
        obs += r["obs"]
        fams += r["families"]
        sigs |= r["sigs"]
        viols += r["violations"]
        incs += r["inconclusive"]
        evals += r["evals"]
        skipped += r["skipped"]
        vcount += r["vcount"]
        for k, v in r["samples"].items():
            samples.setdefault(k, v)
    if lost:
        incs.append(f"{lost} worker(s) ended without a result (crash or hang)")

    known = load_known(prop)

    def match(v):
        for e in known:
            if e["family"] == v["family"] and e["key"] == v["key"]:
                if e.get("contains") and e["contains"] not in v["msg"]:
                    continue
                return e
        return None

    seen_known, unlisted = {}, {}
    for v in sorted(viols, key=lambda v: (v["family"], v["key"], v["case"])):
        e = match(v)
        if e:
            seen_known[e["id"]] = e
        else:
            unlisted.setdefault((v["family"], v["key"]), v)
    for e in known:
        if e["id"] in seen_known:
            print(f"KNOWN-FINDING: property={prop} {e['id']}: {e['what']}")
        else:
            # not reproduced in this run (e.g. repaired): nothing to suppress
            print(f"note: known finding {e['id']} of {prop} was not observed in this run")

    rdir = OUT / "replays" / prop
    nrep = 0
    for (fam, key), v in unlisted.items():
        if nrep >= 8:
            break
        rdir.mkdir(parents=True, exist_ok=True)
        h = hashlib.sha1(f"{fam}{key}{v['case']}{a.seed}{a.tier}".encode()).hexdigest()[:10]
        path = rdir / f"{fam}-{h}.json"
        path.write_text(json.dumps({
            "property": prop, "family": fam, "case": v["case"], "seed": a.seed, "tier": a.tier,
            "key": key, "message": v["msg"], "witness": v["witness"], "context": v["context"],
            "rerun": f"python3 /verif/run_check.py {prop} --replay {path}"}, indent=1))
        print(f"VIOLATION property={prop} replay={path}")
        print(f"  family={fam} monitor={key} case={v['case']}: {v['msg'][:400]}")
        nrep += 1

    missing = [k for k in getattr(module, "required", []) if not any(
        o == k or o.endswith(":" + k) for o in obs)]
    missing += [f"family {f}" for f in module.FAMILIES if fams[f] == 0]
    evdir = OUT / "evidence"
    evdir.mkdir(parents=True, exist_ok=True)
    total_obs = sum(obs.values())
    coverage = {
        "evaluations": evals,
        "distinct_nontrivial": len(sigs),
        "rule": module.RULE,
        "samples": list(samples.values())[:6],
        "monitor_observations": total_obs,
        "observations_per_monitor": dict(sorted(obs.items())),
        "cases_per_family": dict(sorted(fams.items())),
        "cases_skipped_at_deadline": skipped,
        "inconclusive_cases": len(incs),
        "known_findings_observed": sorted(seen_known),
    }
    coverage.update(ctx.data.get("coverage", {}))
    ev = {
        "property": prop, "tier": a.tier, "seed": a.seed,
        "level": getattr(module, "LEVEL", "exploration"),
        "coverage": coverage,
        "assumptions": getattr(module, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 2), "violations": len(unlisted),
    }
    (evdir / f"{prop}.json").write_text(json.dumps(ev, indent=1))
    print(f"{prop} [{a.tier} seed={a.seed}] {evals} executions, {len(sigs)} distinct non-trivial, "
          f"{total_obs} monitor observations over {len(obs)} monitors, {skipped} skipped, "
          f"{ev['wall_s']} s")
    if unlisted:
        return 1
    if incs or missing or not sigs or total_obs == 0:
        for m in incs[:5]:
            print(f"INCONCLUSIVE property={prop} {m}")
        for m in missing:
            print(f"INCONCLUSIVE property={prop} never observed: {m}")
        return 2
    return 0
