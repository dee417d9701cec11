"""Builds the C++ sources of the tree under test with a driver, in several instrumented variants, and
runs jobs (lists of operations) through it, one process per job."""
import json
import os
import resource
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

import numpy as np

import dmpbbo.json_for_cpp as jc
from mon.core import REPO, VERIF, Inconclusive

COMMON = ["-std=c++0x", "-fPIC", "-Wno-deprecated-declarations"]
VARIANTS = {
    # as the Release build, with the memory hooks
    "release": ("g++", ["-O2", "-DNDEBUG", "-DDRIVER_HOOKS"]),
    # as the Debug build with REALTIME_CHECKS, with the memory hooks
    "debug": ("g++", ["-O0", "-DREALTIME_CHECKS", "-DDRIVER_HOOKS"]),
    # assertions of the code and of Eigen on
    "checked": ("g++", ["-O1", "-g1", "-D_GLIBCXX_ASSERTIONS"]),
    # stack variables without a value have a pattern instead of what happens to be there
    "pattern": ("g++", ["-O1", "-g1", "-ftrivial-auto-var-init=pattern"]),
    "asan": ("g++", ["-O1", "-g1", "-D_GLIBCXX_ASSERTIONS", "-fno-omit-frame-pointer", "-fsanitize=address,undefined",
                     "-fno-sanitize-recover=all"]),
}
ENV = {
    "ASAN_OPTIONS": "detect_leaks=1:halt_on_error=1:detect_stack_use_after_return=1:strict_string_checks=1:exitcode=99",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1",
    "LSAN_OPTIONS": "exitcode=98",
}


def sources():
    src = Path(REPO, "src")
    return sorted(p for p in src.rglob("*.cpp") if not any(
        x in p.parts for x in ("tests", "bindings")))


def build(ctx, variants):
    """Compile the current sources once per variant; ctx.data['cpp'] = {variant: binary}."""
    out = Path(ctx.scratch, "cpp")
    jobs, bins = [], {}
    for v in variants:
        cxx, flags = VARIANTS[v]
        d = out / v
        d.mkdir(parents=True, exist_ok=True)
        for i, s in enumerate([VERIF / "cpp" / "driver.cpp"] + sources()):
            o = d / f"{i}_{s.stem}.o"
            jobs.append((v, o, [cxx, *COMMON, *flags, "-I", str(Path(REPO, "src")), "-c", str(s), "-o", str(o)]))

    def compile_(j):
        p = subprocess.run(j[2], capture_output=True, text=True)
        return j, p

    with ThreadPoolExecutor(8) as ex:
        done = list(ex.map(compile_, jobs))
    for j, p in done:
        if p.returncode != 0:
            raise Inconclusive(f"does not compile: {' '.join(j[2])}\n{p.stderr[-1500:]}")

    def link(v):
        cxx, flags = VARIANTS[v]
        b = out / v / "driver"
        objs = [str(j[1]) for j in jobs if j[0] == v]
        return v, b, subprocess.run(
            [cxx, *flags, *objs, "-lboost_filesystem", "-lboost_system", "-o", str(b)], capture_output=True, text=True)

    with ThreadPoolExecutor(8) as ex:
        for v, b, p in ex.map(link, variants):
            if p.returncode != 0:
                raise Inconclusive(f"does not link ({v}): {p.stderr[-1500:]}")
            bins[v] = str(b)
    ctx.data["cpp"] = bins
    return bins


def decode(o):
    if isinstance(o, dict):
        if set(o) == {"shape", "data"}:
            return np.array([float(x) for x in o["data"]], dtype=float).reshape(o["shape"])
        return {k: decode(v) for k, v in o.items()}
    if isinstance(o, list):
        return [decode(x) for x in o]
    if isinstance(o, str) and o in ("nan", "inf", "-inf"):
        return float(o)
    return o


def plain(o):
    if isinstance(o, np.ndarray):
        if o.ndim == 2 and o.size == 0:
            return {"rows": o.shape[0], "cols": o.shape[1]}
        return o.tolist()
    if isinstance(o, np.generic):
        return o.item()
    if isinstance(o, dict):
        return {k: plain(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [plain(x) for x in o]
    return o


class Result:
    def __init__(self, rc, outs, stderr, stdout, at):
        self.rc, self.outs, self.stderr, self.stdout, self.at = rc, outs, stderr, stdout, at


class Job:
    """A list of operations, with its own directory for the files it needs."""

    def __init__(self, mon):
        self.mon = mon
        self.dir = Path(tempfile.mkdtemp(dir=mon.ctx.scratch))
        self.ops = []
        self.n = 0

    def path(self, name):
        return str(self.dir / name)

    def op(self, op_, id_="", **kw):
        """Returns the index of its result."""
        self.ops.append(plain({"op": op_, "id": id_, **kw}))
        return len(self.ops) - 1

    def load(self, id_, obj, kind):
        f = self.path(f"{id_}_{len(self.ops)}_for_cpp.json")
        jc.savejson_for_cpp(f, obj)
        return self.op("load", id_, file=f, kind=kind)

    def run(self, variant, env=None, wrap=(), timeout=45, expect_ok=True):
        mon = self.mon
        self.n += 1
        jf, of = self.path(f"job{self.n}.json"), self.path(f"out{self.n}.json")
        Path(jf).write_text(json.dumps(self.ops))
        e = {**os.environ, **ENV, **(env or {})}
        # the memory hooks of the harness process must not reach the driver
        cmd = [*wrap, mon.ctx.data["cpp"][variant], jf, of]
        used = resource.getrusage(resource.RUSAGE_CHILDREN)
        try:
            p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, env=e, cwd=self.dir,
                               errors="replace")
            rc, err, outp = p.returncode, p.stderr, p.stdout
        except subprocess.TimeoutExpired:
            now = resource.getrusage(resource.RUSAGE_CHILDREN)
            cpu = now.ru_utime + now.ru_stime - used.ru_utime - used.ru_stime
            if cpu < 0.5 * timeout:
                raise Inconclusive(f"the C++ program got only {cpu:.0f} s of computing in {timeout} s")
            rc, err, outp = -999, f"still running after {cpu:.0f} s of computing", ""
        at = Path(of + ".at").read_text() if os.path.exists(of + ".at") else "-"
        outs = None
        try:
            outs = [decode(x) for x in json.loads(Path(of).read_text())]
        except (OSError, ValueError):
            pass
        mon.event("cpp-process")
        if expect_ok:
            mon.must("cpp-ran", rc == 0 and outs is not None and len(outs) == len(self.ops),
                     "the C++ program ended abnormally", rc=rc, during=at, stderr=err[-1500:], ops=len(self.ops),
                     variant=variant)
            for o, r in zip(self.ops, outs):
                mon.must("cpp-exception", not (isinstance(r, dict) and "exception" in r),
                         "a C++ operation threw", op=o["op"], exception=str(r))
        return Result(rc, outs, err, outp, at)

    def close(self):
        import shutil
        shutil.rmtree(self.dir, ignore_errors=True)
