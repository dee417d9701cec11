"""C29 The C++ code has no memory errors, leaks or undefined behaviour in use."""
import json
import re

import numpy as np

from mon import cpp, cppjobs
from mon.gen import chance

RULE = ("A case is a random valid sequence of operations on several objects of every kind at once (systems, DMPs that own other objects, approximators, "
        "trajectories, files; made by constructors or read from files of Python; copied, changed, queried, printed and deleted through the base class). "
        "It runs with address, leak and undefined behaviour sanitizers and all assertions; or several times with different contents of fresh memory and of "
        "the stack, which must not change any output, and partly in valgrind memcheck. Distinct by the sequence.")
ASSUMPTIONS = ["operations stay within what the code asserts or documents about their arguments",
               "objects handed to a DMP are owned by it, the others by the caller, who deletes them once"]
required = ["sanitized", "same-for-any-memory", "valgrind", "operations", "deleted", "dmp-operations"]
VARIANTS = ["asan", "checked", "pattern"]
CASE_TIMEOUT = 300


def setup(ctx):
    cpp.build(ctx, VARIANTS)


def summary(r):
    for pat in (r"SUMMARY: (.*)", r"(\S+: Assertion .*)", r"runtime error: (.*)", r"ERROR SUMMARY: (.*)", r"(terminate called.*)"):
        m = re.search(pat, r.stderr)
        if m:
            return m.group(1)[:300]
    return r.stderr[-300:]


def kind_of(r):
    e = r.stderr
    if "LeakSanitizer" in e or "definitely lost" in e and "ERROR SUMMARY: 0" not in e and r.rc == 97:
        return "leak"
    if "AddressSanitizer" in e:
        return "memory-error"
    if "runtime error" in e:
        return "undefined-behaviour"
    if "Assertion" in e:
        return "assertion"
    return "crash"


def sequence(rng, mon, lo, hi):
    job = cpp.Job(mon)
    w = cppjobs.World(rng, job)
    for _ in range(int(rng.integers(lo, hi))):
        w.step()
    mon.describe(log=w.log)
    mon.event("operations", len(job.ops))
    for o in job.ops:
        mon.event("op-" + o["op"])
        if o["op"] == "delete":
            mon.event("deleted")
    mon.event("dmp-operations", sum(1 for o in job.ops if o["id"].startswith("d")))
    return job, w


def judge(mon, key, r, job, w, good=0):
    ok = r.rc == good and r.outs is not None and len(r.outs) == len(job.ops)
    if not ok:
        n = 0 if r.outs is None else len(r.outs)
        mon.ok("no-" + kind_of(r), False, f"{kind_of(r)}: {summary(r)}", rc=r.rc, during=r.at, after=n, report=r.stderr[:3000])
        return False
    mon.event(key)
    for o, q in zip(job.ops, r.outs):
        mon.ok("no-exception", not (isinstance(q, dict) and "exception" in q), "a valid operation threw", op=o["op"], exception=str(q)[:300])
    return True


def flat(o):
    if isinstance(o, np.ndarray):
        return o.tolist()
    if isinstance(o, dict):
        return {k: flat(v) for k, v in o.items() if k != "rt"}
    if isinstance(o, list):
        return [flat(x) for x in o]
    return o


def sanitized(rng, mon):
    job, w = sequence(rng, mon, 8, 45)
    judge(mon, "sanitized", job.run("asan", expect_ok=False, timeout=200), job, w)
    mon.nontrivial(w.log, len(job.ops))
    job.close()


def memory_contents(rng, mon):
    job, w = sequence(rng, mon, 8, 45)
    outs = []
    for i, (v, env) in enumerate((("checked", {"MALLOC_PERTURB_": "85"}), ("checked", {"MALLOC_PERTURB_": "170"}), ("pattern", {}))):
        # nothing of an earlier run is on disk
        import shutil
        shutil.rmtree(job.path("sub"), ignore_errors=True)
        for f in job.dir.glob("file*.txt"):
            f.unlink()
        for f in job.dir.glob("m*.txt"):
            f.unlink()
        r = job.run(v, env=env, expect_ok=False)
        if not judge(mon, "ran", r, job, w):
            job.close()
            return
        outs.append(flat(r.outs))
    for i, o in enumerate(job.ops):
        a = [json.dumps(x[i]) for x in outs]
        mon.ok("same-for-any-memory", a[0] == a[1] == a[2], f"the result of {o['op']} depends on what was in memory before", op=o["op"], id=o["id"],
               results=[x[:400] for x in a])
    mon.nontrivial(w.log, len(job.ops))
    job.close()


def valgrind(rng, mon):
    job, w = sequence(rng, mon, 8, 30)
    r = job.run("checked", expect_ok=False, timeout=280,
                wrap=("valgrind", "-q", "--error-exitcode=97", "--leak-check=full", "--errors-for-leak-kinds=definite,indirect", "--num-callers=20"))
    judge(mon, "valgrind", r, job, w)
    mon.nontrivial(w.log, len(job.ops))
    job.close()


FAMILIES = {"sanitized": (sanitized, 900, 9000), "memory_contents": (memory_contents, 250, 2500), "valgrind": (valgrind, 24, 160)}
