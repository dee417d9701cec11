"""C23 Step-by-step optimization survives restarts between any two steps."""
import builtins
import copy
import json
import os
import shutil
import tempfile
from pathlib import Path

import numpy as np
import pandas as pd

import dmpbbo.json_for_cpp as jc
from dmpbbo.bbo.DistributionGaussian import DistributionGaussian
from dmpbbo.bbo.DistributionGaussianBounded import DistributionGaussianBounded
from dmpbbo.bbo_of_dmps.LearningSessionTask import LearningSessionTask
from dmpbbo.bbo_of_dmps.step_by_step_optimization import prepare_optimization, update_step
from dmpbbo.bbo_of_dmps.TaskSolverDmp import TaskSolverDmp
from checks.C21 import updater
from mon import dmpgen, gen, tasks

RULE = ("A case is a whole step-by-step optimization (1-6 updates, 1-8 samples, 1-30 parameters): a robot process reads the DMP files, performs "
        "the rollouts and writes them (through a session of its own, or as text files or data frames), and the update process is started anew before random "
        "steps, every step or no step; in a third of the cases a step is interrupted at a random write (before it, or leaving the file empty) "
        "and repeated. After every step all that is stored is compared with an independent loop that uses the same random numbers. "
        "Non-trivial with a restart or interruption. Distinct by parameters.")
ASSUMPTIONS = ["costs are returned as a vector or list with the total first", "an interrupted step is repeated with the same random numbers; other programs only "
               "write the rollouts", "the learning curve of a step-by-step session may show the mean costs of the samples or the cost of the evaluation"]
required = ["dmp-of-sample", "dmp-of-mean", "samples", "distribution", "distribution-new", "costs", "weights", "robot-file", "trajectory", "n-updates",
            "learning-curve", "same-uninterrupted", "interrupted", "rollout-files-announced"]


def initial(rng):
    s = dmpgen.dmp_spec(rng, d=int(rng.integers(1, 4)), no_fa=0.0, kinds=("rbfn",), amp=20.0, custom=gen.chance(rng, 0.3))
    dmp = dmpgen.dmp_build(s)
    ts = np.linspace(0, s["tau"], 31)
    if gen.chance(rng, 0.4):
        # times as recorded on a robot
        ts[1:-1] += rng.uniform(-0.4, 0.4, 29) * s["tau"] / 30
    # as after training: the DMP knows the times of its demonstration
    xs, xds, _, _ = dmp.analytical_solution(ts)
    traj = dmp.states_as_trajectory(ts, xs, xds)
    kw = dmpgen.custom_kwargs(s)
    from dmpbbo.dmps.Dmp import Dmp
    fas = [dmpgen.fa_build(f["spec"]) for f in s["fas"]]
    dmp = Dmp.from_traj(traj, fas, dmp_type=s["type"], forcing_term_scaling=s["scaling"], **kw)
    names = gen.choice(rng, ["weights", "weights", ["weights"], ["goal", "weights"], "goal", ["goal"]])
    dmp.set_selected_param_names(names)
    return s, dmp, names


def plan(rng):
    s, dmp, names = initial(rng)
    p = np.asarray(dmp.get_param_vector(), dtype=float)
    covar = np.diag((0.02 + 0.1 * np.abs(p)) ** 2)
    if gen.chance(rng, 0.25):
        dist = DistributionGaussianBounded(p, covar, p - 0.15, p + 0.1)
    else:
        dist = DistributionGaussian(p, covar)
    d = len(s["y_init"])
    return dict(
        s=s, dmp=dmp, names=names, dist=dist, updater=updater(rng, p.size), d=d,
        task=tasks.ViapointTask(rng.normal(size=d), d, gen.choice(rng, ["array", "array", "list", "array1"]), gen.choice(rng, [None, ["via", "acc", "reg"]])),
        solver=TaskSolverDmp(dmp, s["tau"] / 20, 1.2), n=int(gen.choice(rng, [1, 2, 3, 5, 8])), u=int(gen.choice(rng, [1, 2, 3, 6])),
        seed=int(rng.integers(2 ** 30)), traj=gen.chance(rng, 0.4), stored=gen.chance(rng, 0.2), form=gen.choice(rng, ["session", "session", "txt", "frame"]))


def reference(P):
    """The same optimization in one loop without any session."""
    hist, dist = [], copy.deepcopy(P["dist"])
    upd = copy.deepcopy(P["updater"])
    for i in range(P["u"] + 1):
        np.random.seed(P["seed"] + i)
        samples = dist.generate_samples(P["n"])
        h = dict(dist=dist, samples=samples, dmps=[], costs=[], rollouts=[])
        for p in list(samples) + [dist.mean]:
            dmp = copy.deepcopy(P["dmp"])
            dmp.set_param_vector(np.array(p))
            h["dmps"].append(dmp)
            m = P["solver"].perform_rollout_dmp(dmp)
            h["rollouts"].append(m)
            h["costs"].append(np.array(P["task"].evaluate_rollout(m, np.array(p))))
        if i < P["u"]:
            h["new"], h["weights"] = upd.update_distribution(dist, samples, [c[0] for c in h["costs"][:-1]])
            dist = h["new"]
        hist.append(h)
    return hist


def labels(P):
    return list(range(P["n"])) + ["eval"]


def judge_prepared(mon, session, P, h, i, where, tmp):
    n = P["n"]
    tol = dict(rtol=1e-7, atol=1e-9)
    dist = session.ask("distribution", i)
    mon.close("distribution", dist.mean, h["dist"].mean, msg=f"{where}: mean at update {i}", **tol)
    mon.close("distribution", dist.covar, h["dist"].covar, msg=f"{where}: covariance at update {i}", **tol)
    mon.ok("distribution", type(dist) is type(h["dist"]), f"{where}: kind of distribution", got=type(dist).__name__)
    if hasattr(h["dist"], "lower_bound"):
        mon.close("distribution", [dist.lower_bound, dist.upper_bound], [h["dist"].lower_bound, h["dist"].upper_bound], msg="bounds")
    mon.close("samples", np.reshape(session.ask("samples", i), (n, -1)), h["samples"], msg=f"{where}: samples of update {i}", **tol)
    mon.ok("samples", not session.exists("dmp", i, n) and not session.exists("dmp", i + 1, 0), f"{where}: more samples than asked for")
    for k, s in enumerate(labels(P)):
        key = "dmp-of-mean" if s == "eval" else "dmp-of-sample"
        exp = h["dmps"][k]
        dmp = session.ask("dmp", i, s)
        mon.close(key, dmp.get_param_vector(), exp.get_param_vector(), msg=f"{where}: parameters of DMP {s} of update {i}", **tol)
        ts = np.linspace(0, 1.1 * P["s"]["tau"], 8)
        a, b = dmp.analytical_solution(ts)[0], exp.analytical_solution(ts)[0]
        mon.close(key, a, b, rtol=1e-6, atol=1e-7 * gen.scale(b), msg=f"{where}: movement of DMP {s} of update {i}")
        base = Path(tmp, LearningSessionTask.get_base_name("dmp", i, s))
        cpp = Path(f"{base}_for_cpp.json")
        if mon.ok("robot-file", cpp.is_file(), f"{where}: file for the robot", update=i, sample=s):
            f = Path(mon.ctx.scratch, f"expected_{os.getpid()}.json")
            jc.savejson_for_cpp(f, exp)
            bad = diff(json.loads(cpp.read_text()), json.loads(f.read_text()))
            mon.ok("robot-file", not bad, f"{where}: content of the file for the robot: {bad}", update=i, sample=s)
        if P["traj"]:
            xs, xds, _, _ = exp.analytical_solution(exp.ts_train)
            t = exp.states_as_trajectory(exp.ts_train, xs, xds)
            m = np.column_stack((t.ts, t.ys, t.yds, t.ydds))
            got = session.ask("traj", i, s)
            mon.close("trajectory", got[:, :m.shape[1]], m, rtol=1e-6, atol=1e-7 * gen.scale(m), msg=f"{where}: trajectory {s} of update {i}")


def diff(a, b, path=""):
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b):
            return f"{path}: {sorted(set(a) ^ set(b))}"
        for k in a:
            r = diff(a[k], b[k], f"{path}/{k}")
            if r:
                return r
        return ""
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return f"{path}: length"
        for k, (x, y) in enumerate(zip(a, b)):
            r = diff(x, y, f"{path}/{k}")
            if r:
                return r
        return ""
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return "" if abs(a - b) <= 1e-9 + 1e-7 * abs(b) else f"{path}: {a} {b}"
    return "" if a == b else f"{path}: {a!r} {b!r}"


def judge_updated(mon, session, P, hist, i, where):
    h, n = hist[i], P["n"]
    tol = dict(rtol=1e-6, atol=1e-8)
    for k, s in enumerate(labels(P)):
        mon.close("costs", np.atleast_1d(session.ask("costs", i, s)), h["costs"][k], msg=f"{where}: costs of rollout {s} of update {i}", **tol)
    mon.close("costs", np.reshape(session.get_sample_costs(i), (n, -1)), np.reshape(h["costs"][:-1], (n, -1)), msg=f"{where}: costs of the samples", **tol)
    mon.close("weights", np.atleast_1d(session.ask("weights", i)), h["weights"], msg=f"{where}: weights of update {i}", **tol)
    new = session.ask("distribution_new", i)
    mon.close("distribution-new", new.mean, h["new"].mean, msg=f"{where}: mean after update {i}", **tol)
    mon.close("distribution-new", new.covar, h["new"].covar, msg=f"{where}: covariance after update {i}", **tol)
    mon.ok("n-updates", session.get_n_updates() == i + 1, f"{where}: number of updates", got=session.get_n_updates(), expected=i + 1)
    curve, lab = session.get_learning_curve()
    mon.ok("learning-curve", len(curve) == i + 1 and lab == P["task"].labels, f"{where}: size and labels of the learning curve")
    for j, row in enumerate(curve):
        m = np.mean([np.atleast_1d(c) for c in hist[j]["costs"][:-1]], axis=0)
        e = np.atleast_1d(hist[j]["costs"][-1])
        row = np.asarray(row)
        mon.ok("learning-curve", (row.size == m.size + 1) and j * n <= row[0] <= (j + 1) * n and (
            np.allclose(row[1:], m, **tol) or np.allclose(row[1:], e, **tol)), f"{where}: row {j} of the learning curve", row=row, mean=m, evaluation=e)


def robot(rng, mon, P, tmp, i, announced):
    """Another process: loads the DMPs from the files it was told about, and writes the rollouts."""
    mon.ok("rollout-files-announced", len(announced) == P["n"] + 1, "files for which rollouts are required", got=announced)
    other = LearningSessionTask.from_dir(tmp)
    for s in labels(P):
        dmp = other.ask("dmp", i, s)
        m = P["solver"].perform_rollout_dmp(dmp)
        if P["form"] == "session":
            other.tell(m, "cost_vars", i, s)
        else:
            base = Path(tmp, LearningSessionTask.get_base_name("cost_vars", i, s))
            if P["form"] == "txt":
                np.savetxt(f"{base}.txt", m)
            else:
                pd.DataFrame(m).to_csv(f"{base}.csv", index=False)


class Crash(BaseException):
    pass


class crashing:
    """The k-th file opened for writing under the directory ends the process, before or after emptying the file."""

    def __init__(self, k, torn, directory):
        self.k, self.torn, self.dir, self.n = k, torn, str(directory), 0

    def __enter__(self):
        self.real = builtins.open

        def hooked(file, mode="r", *a, **kw):
            if isinstance(file, (str, os.PathLike)) and str(file).startswith(self.dir) and any(c in mode for c in "wax+"):
                self.n += 1
                if self.n == self.k:
                    if self.torn:
                        self.real(file, mode, *a, **kw).close()
                    raise Crash()
            return self.real(file, mode, *a, **kw)
        builtins.open = hooked
        return self

    def __exit__(self, *exc):
        builtins.open = self.real
        return False


def out_files(tmp, i):
    return sorted(str(p) for p in Path(tmp).glob(f"update{i:05d}/*_dmp.json"))


def execute(rng, mon, P, hist, restart, crash_at=None):
    tmp = tempfile.mkdtemp(dir=mon.ctx.scratch)
    try:
        np.random.seed(P["seed"])
        given = [copy.deepcopy(P[k]) for k in ("task", "solver", "dist", "updater", "dmp")]
        with mon.untouched("arguments-untouched", *given):
            if P["stored"]:
                # the initial DMP is already in the directory
                LearningSessionTask(P["n"], tmp).tell(given[4], "dmp_initial")
                session = prepare_optimization(tmp, given[0], given[1], given[2], P["n"], given[3], save_trajectory=P["traj"])
            else:
                session = prepare_optimization(tmp, given[0], given[1], given[2], P["n"], given[3], given[4], P["traj"])
        judge_prepared(mon, session, P, hist[0], 0, "prepared", tmp)
        for i in range(P["u"]):
            mon.ok("n-updates", session.get_n_updates() == i, "number of updates while the rollouts are performed", got=session.get_n_updates(), expected=i)
            robot(rng, mon, P, tmp, i, out_files(tmp, i))
            if restart == "always" or (restart == "random" and gen.chance(rng)):
                session = LearningSessionTask.from_dir(tmp)
                mon.event("restarts")
            if crash_at is not None and crash_at[0] == i:
                np.random.seed(P["seed"] + i + 1)
                try:
                    with crashing(crash_at[1], crash_at[2], tmp) as c:
                        update_step(session, i, P["traj"])
                    mon.event("interruption-too-late")
                except Crash:
                    mon.event("interrupted")
                session = LearningSessionTask.from_dir(tmp)
                del c
            np.random.seed(P["seed"] + i + 1)
            update_step(session, i, P["traj"])
            judge_updated(mon, session, P, hist, i, "same session")
            judge_prepared(mon, session, P, hist[i + 1], i + 1, "same session", tmp)
            fresh = LearningSessionTask.from_dir(tmp)
            judge_updated(mon, fresh, P, hist, i, "reopened")
            judge_prepared(mon, fresh, P, hist[i + 1], i + 1, "reopened", tmp)
        for i in range(P["u"]):
            mon.close("distribution", session.ask("distribution", i + 1).mean, session.ask("distribution_new", i).mean, rtol=1e-9, msg="next distribution")
        mon.ok("same-uninterrupted", True)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def make(rng, mon, **more):
    P = plan(rng)
    mon.describe(dmp=dmpgen.brief(P["s"]), names=P["names"], n_samples=P["n"], n_updates=P["u"], updater=type(P["updater"]).__name__,
                 settings=vars(P["updater"]), form=P["form"], traj=P["traj"], cost=P["task"].form, seed=P["seed"], **more)
    return P, reference(P)


def restarts(rng, mon):
    restart = gen.choice(rng, ["always", "random", "random", "never"])
    P, hist = make(rng, mon, restart=restart)
    mon.nontrivial(dmpgen.brief(P["s"]), P["n"], P["u"], restart, P["seed"])
    execute(rng, mon, P, hist, restart)


def interrupted(rng, mon):
    P, hist = make(rng, mon)
    # writes of an update: costs and later per sample one DMP in two formats
    k = int(rng.integers(1, 5 * (P["n"] + 1) + 4))
    crash = (int(rng.integers(P["u"])), k, gen.chance(rng))
    mon.describe(interrupted_update=crash[0], at_write=k, torn=crash[2])
    mon.nontrivial(dmpgen.brief(P["s"]), P["n"], P["u"], crash, P["seed"])
    execute(rng, mon, P, hist, "random", crash)


FAMILIES = {"restarts": (restarts, 80, 1200), "interrupted": (interrupted, 50, 800)}
