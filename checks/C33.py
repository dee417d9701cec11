"""C33 The programs of the robot workflow and the demos do their part, on any demonstration."""
import contextlib
import copy
import io
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

import matplotlib

matplotlib.use("Agg")
import matplotlib.pyplot as plt
import numpy as np

import dmpbbo.json_for_cpp as jc
from dmpbbo.bbo.LearningSession import LearningSession
from dmpbbo.bbo_of_dmps.LearningSessionTask import LearningSessionTask
from dmpbbo.dmps.Dmp import Dmp
from dmpbbo.dmps.Trajectory import Trajectory
from dmpbbo.functionapproximators.FunctionApproximatorRBFN import FunctionApproximatorRBFN
from mon import cpp, dmpgen, gen
from mon.core import REPO, Inconclusive
from mon.gen import chance, choice

ROBOT = Path(REPO, "demos", "robot")
DEMOS = Path(REPO, "demos", "python")
DEMOS_CPP = Path(REPO, "demos", "cpp")
for _p in (ROBOT, DEMOS / "bbo_of_dmps"):
    sys.path.insert(0, str(_p))

RULE = ("A case is the whole robot workflow on a random throwing movement - training from file, definition of the task, exploration at random magnitudes, "
        "rollouts by the compiled robot programs (sanitized), plots, preparation and several updates, by DMPs or by trajectories, with relative or absolute "
        "paths - or one rollout of a robot program, or the demo programs in C++ (sanitized) on random systems, approximators and DMPs written by Python, or one demo program run to its end in a scratch directory with a random seed. Every file written is read back and "
        "judged from the inputs of the program that wrote it. Distinct by movement and options.")
ASSUMPTIONS = ["rollouts in text files have the precision of six decimals", "what the programs print and the looks of the figures are free",
               "the ball is released in the first step that starts later than 0.6 s"]
required = ["trained", "trained-for-cpp", "trajectory-copy", "task", "distribution", "explored", "explored-for-cpp", "explored-trajectory", "hand", "ball", "time", "written", "png",
            "first-batch", "next-batch", "costs", "weights", "mean", "covariance", "batch-for-cpp", "session", "inputs-kept", "program", "usage", "demo", "demo-session", "demo-trajectory", "demo-solution"]
CASE_TIMEOUT = 240
FLOOR = -0.3


def setup(ctx):
    """The robot programs, from the current sources, with sanitizers."""
    cxx, flags = cpp.VARIANTS["asan"]
    out = Path(ctx.scratch, "robot")
    out.mkdir(parents=True)
    inc = ["-I", str(Path(REPO, "src")), "-I", str(ROBOT)]
    mains = [ROBOT / "robotExecuteDmp.cpp", ROBOT / "robotExecuteTrajectory.cpp"] + sorted(DEMOS_CPP.glob("demo*.cpp"))
    for m in mains:
        if "/tmp/test" in m.read_text():
            # the same program, but writing to a directory of its own
            m2 = out / m.name
            m2.write_text(m.read_text().replace("/tmp/test", "./test"))
            mains[mains.index(m)] = m2
    others = [p for p in sorted(ROBOT.glob("*.cpp")) if p not in mains]
    objs = {s: out / f"{i}_{s.stem}.o" for i, s in enumerate(mains + others + cpp.sources())}

    def run(cmd):
        p = subprocess.run(cmd, capture_output=True, text=True)
        if p.returncode != 0:
            raise Inconclusive(f"does not compile: {' '.join(map(str, cmd))}\n{p.stderr[-1500:]}")

    with ThreadPoolExecutor(8) as ex:
        list(ex.map(lambda s: run([cxx, *cpp.COMMON, *flags, *inc, "-c", str(s), "-o", str(objs[s])]), objs))
        shared = [str(o) for s, o in objs.items() if s not in mains]
        ctx.data["robot"] = {m.stem: str(out / m.stem) for m in mains}
        list(ex.map(lambda m: run([cxx, *flags, str(objs[m]), *shared, "-lboost_filesystem", "-lboost_system", "-o", str(out / m.stem)]), mains))


# --- running the programs

def program(mon, script, *args, cwd):
    """The script as if called from the command line in cwd."""
    argv, old, where = sys.argv, os.getcwd(), str(ROBOT / script)
    sys.argv = [where, *map(str, args)]
    os.chdir(cwd)
    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out):
            runpy.run_path(where, run_name="__main__")
    except SystemExit as e:
        mon.must("program", e.code in (None, 0), f"{script} ended with {e.code}", args=args)
    finally:
        sys.argv = argv
        os.chdir(old)
        plt.close("all")
    mon.event("program")
    return out.getvalue()


def robot(mon, name, *args, cwd, rc=0):
    p = subprocess.run([mon.ctx.data["robot"][name], *map(str, args)], capture_output=True, text=True, cwd=cwd, timeout=60,
                       env={**os.environ, **cpp.ENV, "ASAN_OPTIONS": cpp.ENV["ASAN_OPTIONS"].replace("detect_leaks=1", "detect_leaks=0")})
    if rc == 0:
        mon.must("program", p.returncode == 0, f"{name} ended with {p.returncode}", args=args, stderr=p.stderr[-1200:])
    mon.event("cpp-process")
    return p


def contents(d):
    return {str(p.relative_to(d)): p.read_bytes() for p in sorted(Path(d).rglob("*")) if p.is_file()}


@contextlib.contextmanager
def writes(mon, d, expected, also=()):
    """The files expected are there afterwards; files that were there keep their content, and nothing else appears."""
    before = contents(d)
    yield
    after = contents(d)
    names = {str(e) for e in expected}
    missing = [n for n in names if n not in after]
    mon.must("written", not missing, "files that should have been written", missing=missing)
    extra = [n for n in after if n not in before and n not in names and not any(n.startswith(a) for a in also)]
    mon.ok("written", not extra, "files that nobody asked for", extra=extra)
    lost = [n for n in before if n not in names and not any(n.startswith(a) for a in also) and before[n] != after.get(n)]
    mon.ok("inputs-kept", not lost, "files that were changed or removed", files=lost)
    for n in names:
        if n.endswith(".png"):
            mon.ok("png", after[n][:8] == b"\x89PNG\r\n\x1a\n" and len(after[n]) > 1000, "a figure", file=n, size=len(after[n]))


# --- oracles

def same_dmp(mon, key, got, want, msg):
    mon.close(key, got.get_param_vector(), want.get_param_vector(), 1e-9, 1e-9, f"{msg}: parameters")
    ts = np.linspace(0, 1.3 * want.tau, 25)
    a, b = (d.states_as_trajectory(ts, *d.analytical_solution(ts)[0:2]) for d in (got, want))
    for f in ("ys", "yds", "ydds"):
        w = getattr(b, f)
        mon.close(key, getattr(a, f), w, 1e-7, 1e-8 * gen.scale(w), f"{msg}: {f}")
    mon.close(key, [got.tau, *got.y_init, *got.y_attr], [want.tau, *want.y_init, *want.y_attr], 1e-12, 1e-12, f"{msg}: duration, start and end")


def same_for_cpp(mon, key, file, want, msg):
    """The file holds what the DMP would be written as."""
    f = Path(mon.ctx.scratch, f"c33_{os.getpid()}.json")
    jc.savejson_for_cpp(f, want)
    bad = differ(json.loads(Path(file).read_text()), json.loads(f.read_text()))
    mon.ok(key, not bad, f"{msg}: {bad}")


def differ(a, b, path=""):
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b):
            return f"{path}: {sorted(set(a) ^ set(b))}"
        return next((r for r in (differ(a[k], b[k], f"{path}/{k}") for k in a) if r), "")
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return f"{path}: length"
        return next((r for r in (differ(x, y, f"{path}/{k}") for k, (x, y) in enumerate(zip(a, b))) if r), "")
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return "" if abs(a - b) <= 1e-9 + 1e-8 * abs(b) else f"{path}: {a} {b}"
    return "" if a == b else f"{path}: {a!r} {b!r}"


def judge_rollout(mon, M, ts, ys, yds, ydds):
    """Rollout of a robot program: times after each step, the movement of the hand, the ball."""
    mon.must("time", M.ndim == 2 and M.shape == (len(ts), 14), "size of the rollout", got=M.shape, want=(len(ts), 14))
    dts = np.diff(ts)
    mon.close("time", np.diff(M[:, 0]), dts, 0, 2e-6, "time steps")
    mon.ok("time", -1e-6 <= M[0, 0] - ts[0] <= dts[0] + 1e-6 or abs(M[0, 0] - dts[0]) < 1e-5, "time of the first row", got=M[0, 0])
    for k, v in ((1, ys), (3, yds), (5, ydds)):
        mon.close("hand", M[:, k:k + 2], v, 1e-5, 1e-5 * gen.scale(v), "position velocity acceleration".split()[k // 2] + " of the hand")
    b, bv, ba, flag = M[:, 7:9], M[:, 9:11], M[:, 11:13], M[:, 13]
    mon.ok("ball", np.all((flag == 0) | (flag == 1)) and np.all(np.diff(flag) <= 0), "in hand until released", flag=flag)
    # time at the start of each step: counted from the first row, or with the duration of the first step as the program does
    elapsed = ts - ts[0]
    counted = np.concatenate(([0.0], np.cumsum(np.concatenate((dts[:1], dts[:-1])))))
    sure = np.flatnonzero(np.minimum(elapsed, counted) > 0.6 + 1e-9)
    maybe = np.flatnonzero(np.maximum(elapsed, counted) > 0.6 - 1e-9)
    latest = sure[0] if len(sure) else len(ts)
    earliest = maybe[0] if len(maybe) else len(ts)
    held = flag == 1
    out = np.flatnonzero(~held)
    released = out[0] if len(out) else len(ts)
    mon.ok("ball", earliest <= released <= latest, "the ball is released in the first step after 0.6 s", row=released, rows=[earliest, latest])
    k = min(released, len(ts) - 1)
    for k0, v, w in ((7, b, ys), (9, bv, yds), (11, ba, ydds)):
        mon.close("ball", v[: k + 1], w[: k + 1], 1e-5, 1e-5 * gen.scale(w), "the ball moves with the hand while it holds it")
    p, v, landed = np.array(ys[k], dtype=float), np.array(yds[k], dtype=float), False
    for i in range(k + 1, len(ts)):
        if not landed:
            v = v + dts[i - 1] * np.array([0.0, -9.81])
            p = p + dts[i - 1] * v
            if abs(p[1] - FLOOR) < 2e-5 * gen.scale(p, ys):
                return
            if p[1] < FLOOR:
                p, v, landed = np.array([p[0], FLOOR]), np.zeros(2), True
        mon.close("ball", b[i], p, 1e-5, 2e-5 * gen.scale(p, ys), "ball on the floor" if landed else "ball in free fall", row=i)
        mon.close("ball", bv[i], v, 1e-5, 2e-5 * gen.scale(v, yds), "velocity of the ball", row=i)


def run_dmp(rng, mon, cwd, file, dmp, out):
    """The robot executes the DMP that was saved for it; dmp: the same, in memory."""
    out_arg = choice(rng, [out, Path(cwd, out).resolve()])
    with writes(mon, cwd, [out]):
        robot(mon, "robotExecuteDmp", choice(rng, [file, Path(cwd, file).resolve()]), out_arg, cwd=cwd)
    dt, n = 0.01, None
    M = np.loadtxt(Path(cwd, out))
    n = len(M)
    mon.ok("time", abs(n - 1.5 * dmp.tau / dt) <= 1.5, "the rollout takes one and a half times the duration of the DMP", rows=n, tau=dmp.tau)
    d = copy.deepcopy(dmp)
    x, xd = d.integrate_start()
    rows = []
    for _ in range(n):
        rows.append(np.concatenate(d.states_as_pos_vel_acc(x, xd), axis=None))
        x, xd = d.integrate_step(dt, x)
    rows = np.array(rows)
    judge_rollout(mon, M, dt * np.arange(n), rows[:, 0:2], rows[:, 2:4], rows[:, 4:6])
    return M


def run_trajectory(rng, mon, cwd, file, traj, out):
    with writes(mon, cwd, [out]):
        robot(mon, "robotExecuteTrajectory", choice(rng, [file, Path(cwd, file).resolve()]), choice(rng, [out, Path(cwd, out).resolve()]), cwd=cwd)
    M = np.loadtxt(Path(cwd, out))
    judge_rollout(mon, M, traj.ts, traj.ys, traj.yds, traj.ydds)
    return M


def movement(rng, T=None):
    T = float(rng.uniform(0.7, 1.4)) if T is None else T
    traj = dmpgen.demonstration(rng, n_dims=2, T=T, n=int(rng.integers(60, 120)), uniform=True, wiggle=0.6)
    k = rng.uniform(0.1, 0.4, 2)
    return Trajectory(traj.ts - traj.ts[0], k * traj.ys, k * traj.yds, k * traj.ydds)


class scratch:
    def __init__(self, mon):
        self.d = tempfile.mkdtemp(dir=mon.ctx.scratch)

    def __enter__(self):
        return Path(self.d)

    def __exit__(self, *e):
        shutil.rmtree(self.d, ignore_errors=True)


def trained(traj, n):
    dmp = Dmp.from_traj(traj, [FunctionApproximatorRBFN(n, 0.7) for _ in range(traj.dim)], dmp_type="KULVICIUS_2012_JOINING")
    dmp.set_selected_param_names("weights")
    return dmp


def as_trajectory(dmp):
    xs, xds, _, _ = dmp.analytical_solution()
    return dmp.states_as_trajectory(dmp.ts_train, xs, xds)


def workflow(rng, mon):
    demo, seed = movement(rng), int(rng.integers(2 ** 30))
    by_traj, n_max, n_updates = chance(rng), int(rng.integers(3, 7)), int(rng.integers(1, 4))
    plots = chance(rng, 0.3)
    np.random.seed(seed)
    mon.describe(seed=seed, by_trajectory=by_traj, n_max=n_max, n_updates=n_updates, T=demo.ts[-1], y_first=demo.ys[0], y_last=demo.ys[-1])
    with scratch(mon) as cwd:
        D = choice(rng, ["results", "a/b", str(cwd / "abs")])
        R = Path(D).relative_to(cwd) if Path(D).is_absolute() else Path(D)
        demo.savetxt(cwd / "demo.txt")
        demo = Trajectory.loadtxt(cwd / "demo.txt")
        # 1. training
        files = [R / "training" / f for n in range(3, n_max + 1) for f in (f"dmp_trained_{n}.json", f"dmp_trained_{n}_for_cpp.json")] + [R / "training" / "trajectory.txt"]
        if plots:
            files += [R / "training" / f"trajectory_comparison_{n}.png" for n in range(3, n_max + 1)]
            files += [R / "training" / "mean_absolute_errors.png"] if n_max > 3 else []
        with writes(mon, cwd, files):
            program(mon, "step1_train_dmp_from_trajectory_file.py", "demo.txt", f"{D}/training", "--n", n_max, *(["--save"] if plots else []), cwd=cwd)
        mon.close("trajectory-copy", np.loadtxt(cwd / R / "training" / "trajectory.txt"), np.loadtxt(cwd / "demo.txt"), 0, 1e-12, "copy of the demonstration")
        for n in range(3, n_max + 1):
            want = trained(demo, n)
            got = jc.loadjson(cwd / R / "training" / f"dmp_trained_{n}.json")
            same_dmp(mon, "trained", got, want, f"DMP with {n} basis functions")
            same_for_cpp(mon, "trained-for-cpp", cwd / R / "training" / f"dmp_trained_{n}_for_cpp.json", want, f"DMP with {n} basis functions")
        n = int(rng.integers(3, n_max + 1))
        shutil.copy(cwd / R / "training" / f"dmp_trained_{n}.json", cwd / R / "dmp_initial.json")
        dmp = trained(demo, n)
        theta = dmp.get_param_vector()
        # 2. task
        with writes(mon, cwd, [R / "task.json"]):
            program(mon, "step2_define_task.py", D, "task.json", cwd=cwd)
        task = jc.loadjson(cwd / R / "task.json")
        mon.ok("task", type(task).__name__ == "TaskThrowBall" and (task.x_goal, task.x_margin, task.y_floor, task.acceleration_weight) == (-0.70, 0.01, -0.3, 0.001),
               "the task as defined", task=vars(task))
        # 3. exploration
        n_samples, sigma = int(rng.integers(1, 5)), float(choice(rng, [1.0, 20.0, np.round(rng.uniform(0.1, 30), 3)]))
        S = R / "tune" / f"sigma_{sigma:.3f}"
        files = [S / "distribution.json"] + [S / f"{i:02}_{f}" for i in range(n_samples) for f in ("dmp.json", "dmp_for_cpp.json") + (("traj.txt",) if by_traj else ())]
        files += [S / "exploration_dmp_traj.png"] if plots else []
        with writes(mon, cwd, files):
            program(mon, "step3_tune_exploration.py", f"{D}/dmp_initial.json", f"{D}/tune", "--sigma", sigma, "--n", n_samples,
                    *(["--traj"] if by_traj else []), *(["--save"] if plots else []), cwd=cwd)
        dist = jc.loadjson(cwd / S / "distribution.json")
        mon.close("distribution", dist.mean, theta, 1e-9, 1e-9, "mean of the exploration")
        mon.close("distribution", dist.covar, sigma ** 2 * np.eye(theta.size), 1e-9, 1e-12, "covariance of the exploration")
        seen = []
        for i in range(n_samples):
            got = jc.loadjson(cwd / S / f"{i:02}_dmp.json")
            p = got.get_param_vector()
            seen.append(p)
            z = (p - theta) / sigma
            mon.ok("explored", np.all(np.isfinite(z)) and np.any(z != 0) and np.abs(z).max() < 7, "a sample of the distribution", z=z)
            want = copy.deepcopy(dmp)
            want.set_param_vector(p.copy())
            same_dmp(mon, "explored", got, want, f"sampled DMP {i}")
            same_for_cpp(mon, "explored-for-cpp", cwd / S / f"{i:02}_dmp_for_cpp.json", want, f"sampled DMP {i}")
            if by_traj:
                t = Trajectory.loadtxt(cwd / S / f"{i:02}_traj.txt")
                w = as_trajectory(want)
                mon.close("explored-trajectory", t.as_matrix()[:, :7], w.as_matrix()[:, :7], 1e-6, 1e-6 * gen.scale(w.ydds), f"sampled trajectory {i}")
                run_trajectory(rng, mon, cwd, S / f"{i:02}_traj.txt", t, S / f"{i:02}_cost_vars.txt")
            else:
                run_dmp(rng, mon, cwd, S / f"{i:02}_dmp_for_cpp.json", got, S / f"{i:02}_cost_vars.txt")
        mon.ok("explored", all(not np.array_equal(a, b) for i, a in enumerate(seen) for b in seen[:i]), "samples differ")
        if plots or chance(rng, 0.3):
            what, png = choice(rng, [(S, S / "plot_rollouts.png"), (S / "00_cost_vars.txt", S / "plot_rollouts.png")])
            with writes(mon, cwd, [png]):
                program(mon, "plot_rollouts.py", what, f"{D}/task.json", "--save", cwd=cwd)
        shutil.copy(cwd / S / "distribution.json", cwd / R / "distribution_initial.json")
        # 4. first batch
        form = ["--traj"] if by_traj else []
        base = contents(cwd)
        program(mon, "step4_prepare_optimization.py", D, *form, cwd=cwd)
        kept(mon, base, cwd, R)
        mean, covar = theta, sigma ** 2 * np.eye(theta.size)
        mean, covar = judge_batch(rng, mon, cwd, R, 0, dmp, mean, covar, by_traj, "first-batch"), covar
        # 5. updates
        for u in range(n_updates):
            U = R / f"update{u:05}"
            costs = []
            for s in [f"{i:03}" for i in range(5)] + ["eval"]:
                d = jc.loadjson(cwd / U / f"{s}_dmp.json")
                if by_traj:
                    M = run_trajectory(rng, mon, cwd, U / f"{s}_traj.txt", Trajectory.loadtxt(cwd / U / f"{s}_traj.txt"), U / f"{s}_cost_vars.txt")
                else:
                    M = run_dmp(rng, mon, cwd, U / f"{s}_dmp_for_cpp.json", d, U / f"{s}_cost_vars.txt")
                landing, acc = max(0.0, abs(M[-1, 7] + 0.70) - 0.01), 0.001 * np.sum(M[:, 5:7] ** 2) / len(M)
                costs.append([landing + acc, landing, acc])
            base = contents(cwd)
            program(mon, "step5_one_optimization_update.py", D, choice(rng, [str(u), f"{u:05}"]), *form, cwd=cwd)
            kept(mon, base, cwd, R)
            session = LearningSessionTask.from_dir(str(cwd / R))
            for s, c in zip(list(range(5)) + ["eval"], costs):
                mon.close("costs", session.ask("costs", u, s), c, 1e-9, 1e-12, f"costs of rollout {s} of update {u}")
            c = np.array(costs)[:5, 0]
            span = c.max() - c.min()
            w = np.exp(-10 * (c - c.min()) / span) if span > 0 else np.ones(5)
            w = w / w.sum()
            mon.close("weights", session.ask("weights", u), w, 1e-6, 1e-9, f"weights of update {u}")
            samples = session.ask("samples", u)
            mean, covar = w @ samples, 0.64 * covar
            new = session.ask("distribution_new", u)
            mon.close("mean", new.mean, mean, 1e-6, 1e-7 * gen.scale(samples), f"mean after update {u}")
            mon.close("covariance", new.covar, covar, 1e-9, 1e-9, f"covariance after update {u}")
            judge_batch(rng, mon, cwd, R, u + 1, dmp, new.mean, covar, by_traj, "next-batch")
            mon.ok("session", session.get_n_updates() == u + 1, "number of updates", got=session.get_n_updates())
        if plots or chance(rng, 0.3):
            with writes(mon, cwd, [R / "optimization.png"]):
                program(mon, "plot_optimization.py", D, "--save", cwd=cwd)
        mon.nontrivial(demo.ys, by_traj, sigma, n_updates)


def kept(mon, base, cwd, R):
    """Nothing that was there is lost; nothing is written outside the directory."""
    now = contents(cwd)
    mine = ("task.json", "distribution_initial.json", "dmp_initial.json", "dmp_initial_for_cpp.json")
    lost = [n for n in base if now.get(n) != base[n] and Path(n).name not in mine]
    mon.ok("inputs-kept", not lost, "files that were changed or removed", files=lost)
    out = [n for n in now if n not in base and R not in Path(n).parents]
    mon.ok("written", not out, "files outside the directory of the results", files=out)


def judge_batch(rng, mon, cwd, R, u, dmp, mean, covar, by_traj, key):
    session = LearningSessionTask.from_dir(str(cwd / R))
    dist = session.ask("distribution", u)
    mon.close(key, dist.mean, mean, 1e-9, 1e-9, f"mean of batch {u}")
    mon.close(key, dist.covar, covar, 1e-9, 1e-9, f"covariance of batch {u}")
    samples = session.ask("samples", u)
    mon.must(key, np.shape(samples) == (5, mean.size), "five samples", got=np.shape(samples))
    z = (samples - mean) / np.sqrt(covar[0, 0])
    mon.ok(key, np.abs(z).max() < 7 and np.all(z.std(axis=1) > 0), "samples of the distribution", z=z)
    U = cwd / R / f"update{u:05}"
    for i, p in list(enumerate(samples)) + [("eval", mean)]:
        want = copy.deepcopy(dmp)
        want.set_param_vector(np.array(p))
        name = i if i == "eval" else f"{i:03}"
        mon.must(key, (U / f"{name}_dmp.json").is_file(), f"DMP {name} of batch {u}")
        same_dmp(mon, key, jc.loadjson(U / f"{name}_dmp.json"), want, f"DMP {name} of batch {u}")
        mon.must("batch-for-cpp", (U / f"{name}_dmp_for_cpp.json").is_file(), f"file for the robot {name} of batch {u}")
        same_for_cpp(mon, "batch-for-cpp", U / f"{name}_dmp_for_cpp.json", want, f"DMP {name} of batch {u}")
        mon.ok(key, (U / f"{name}_traj.txt").is_file() == by_traj, "trajectories are written if asked for")
        if by_traj:
            w = as_trajectory(want)
            mon.close("explored-trajectory", np.loadtxt(U / f"{name}_traj.txt")[:, :7], w.as_matrix()[:, :7], 1e-6, 1e-6 * gen.scale(w.ydds), f"trajectory {name} of batch {u}")
    return dist.mean


def rollout(rng, mon):
    """One rollout of a robot program."""
    traj = movement(rng, float(rng.uniform(0.3, 2.0)))
    by_traj = chance(rng)
    with scratch(mon) as cwd:
        os.makedirs(cwd / "in")
        os.makedirs(cwd / "out dir")
        out = Path(choice(rng, ["cost_vars.txt", "out dir/c.txt", "in/00_cost_vars.txt"]))
        if chance(rng, 0.3):
            (cwd / out).write_text("left from a previous rollout\n" * 40)
        mon.describe(T=traj.ts[-1], by_trajectory=by_traj, out=str(out), y_first=traj.ys[0], y_last=traj.ys[-1])
        if by_traj:
            if chance(rng, 0.4):
                # steps of different lengths
                ts = np.cumsum(np.r_[0.0, rng.uniform(0.004, 0.02, len(traj.ts) - 1)])
                traj = Trajectory(ts, traj.ys, traj.yds, traj.ydds)
            traj.savetxt(cwd / "in" / "traj.txt")
            run_trajectory(rng, mon, cwd, Path("in/traj.txt"), Trajectory.loadtxt(cwd / "in" / "traj.txt"), out)
        else:
            fas = [FunctionApproximatorRBFN(int(rng.integers(4, 9)), 0.7) for _ in range(2)]
            dmp = Dmp.from_traj(traj, fas, dmp_type=choice(rng, ["KULVICIUS_2012_JOINING", "IJSPEERT_2002_MOVEMENT", "COUNTDOWN_2013"]))
            jc.savejson_for_cpp(cwd / "in" / "dmp_for_cpp.json", dmp)
            run_dmp(rng, mon, cwd, Path("in/dmp_for_cpp.json"), dmp, out)
        name = "robotExecuteTrajectory" if by_traj else "robotExecuteDmp"
        for args in choice(rng, [[()], [("one",)], [("a", "b", "c")]]):
            with writes(mon, cwd, []):
                p = robot(mon, name, *args, cwd=cwd, rc=None)
            mon.ok("usage", p.returncode not in (0, 99, -6, -11) and "Usage" in p.stdout, "wrong number of arguments", rc=p.returncode, out=p.stdout[-200:])
    mon.nontrivial(traj.ys, traj.ts, by_traj)


# --- demos

def demos_cpp(rng, mon):
    """The demo programs in C++, on the files they come with or on others written by Python."""
    with scratch(mon) as base:
        where, cwd = base / "demos" / "cpp" / "json", base / "bin"
        os.makedirs(cwd)
        shutil.copytree(DEMOS_CPP / "json", where)
        own = chance(rng, 0.85)
        dmp, made = None, []
        if own:
            s = dmpgen.cpp_spec(rng)
            jc.savejson_for_cpp(where / "Dmp_for_cpp.json", dmpgen.dmp_build(s))
            dmp = dmpgen.dmp_build(s)
            for n in (1, 2):
                for k in ("exp", "sigmoid", "spring"):
                    made.append(where / f"{dict(exp='Exponential', sigmoid='Sigmoid', spring='SpringDamper')[k]}System_{n}D_for_cpp.json")
                    jc.savejson_for_cpp(made[-1], gen.build(gen.system_spec(rng, k, dim=n, vectors=False)))
                for k in ("rbfn", "lwr"):
                    fa, _, _ = dmpgen.fa_trained(rng, dmpgen.fa_spec(rng, k, n), n)
                    jc.savejson_for_cpp(where / f"{k.upper()}_{n}D_for_cpp.json", fa)
            for k, down in (("TimeSystem", False), ("TimeCountDownSystem", True)):
                spec = gen.system_spec(rng, "time")
                spec["count_down"] = down
                made.append(where / f"{k}_for_cpp.json")
                jc.savejson_for_cpp(made[-1], gen.build(spec))
            mon.describe(**dmpgen.brief(s))
        with writes(mon, base, []):
            robot(mon, "demoDmp", cwd=cwd)
            robot(mon, "demoFunctionApproximators", cwd=cwd)
            robot(mon, "demoDynamicalSystems", *(rng.permutation([str(m) for m in made]) if made and chance(rng) else []), cwd=cwd)
            robot(mon, "demoDmpFull", cwd=cwd)
            (base / "empty").mkdir()
            robot(mon, "demoDmpFull", base / "empty", cwd=cwd)
        with writes(mon, base, ["bin/testTrajectory.txt", "bin/testTrajectoryMisc.txt"]):
            robot(mon, "demoTrajectory", cwd=cwd)
        ts = np.linspace(0, 0.5, 11)
        want = Trajectory.from_min_jerk(ts, np.array([0.0, 1.0]), np.array([0.4, 0.5]))
        for n_misc, f in ((0, "testTrajectory.txt"), (3, "testTrajectoryMisc.txt")):
            got = Trajectory.loadtxt(cwd / f, n_misc)
            for nm in ("ts", "ys", "yds", "ydds"):
                mon.close("demo-trajectory", getattr(got, nm), getattr(want, nm), 1e-5, 1e-5, f"{f}: {nm}")
            if n_misc:
                mon.close("demo-trajectory", got.misc, np.tile([1.0, 2.0, 3.0], (11, 1)), 1e-9, 0, "misc of every time")
        if dmp is not None:
            demo_full(rng, mon, base, cwd, dmp)
        mon.nontrivial(own, s["y_init"] if own else 0, s["tau"] if own else 0)


def demo_full(rng, mon, base, cwd, dmp):
    """The solution and the steps written by demoDmpFull, at the times it is given."""
    D, n = dmp.dim_y, 3 * dmp.dim_y + 2
    d = base / "results of demo"
    d.mkdir()
    T = int(rng.integers(n + 1, 120))
    # times as they are in the file
    ts = np.round(np.cumsum(np.r_[0.0, rng.uniform(0.3, 1.7, T - 1)]) / T * float(rng.uniform(0.5, 1.5)) * dmp.tau, 7)
    ts = np.unique(ts[np.abs(ts / dmp.tau - 1) > 1e-4])
    np.savetxt(d / "ts.txt", ts, fmt="%.7f")
    files = ["ts_xs_xds_ana.txt", "forcing_terms_ana.txt", "fa_output_ana.txt", "traj_reproduced_ana.txt", "ts_xs_xds_step.txt"]
    if chance(rng, 0.3):
        (d / files[int(rng.integers(5))]).write_text("1 2 3\n" * 500)
    with writes(mon, base, [(d / f).relative_to(base) for f in files]):
        robot(mon, "demoDmpFull", choice(rng, [d, os.path.relpath(d, cwd)]), cwd=cwd)
    read = lambda f: np.loadtxt(d / f, ndmin=2)  # noqa: E731
    xs, xds, forcing, fa_out = dmp.analytical_solution(ts)
    traj = dmp.states_as_trajectory(ts, xs, xds)

    def same(what, got, want):
        want = np.reshape(want, (len(ts), -1))
        mon.must("demo-solution", got.shape == want.shape, f"shape of the {what}", got=got.shape, expected=want.shape)
        mon.close("demo-solution", got, want, 2e-5, 2e-5 * gen.scale(want), what)

    ana, step = read(files[0]), read(files[4])
    mon.must("demo-solution", ana.shape == step.shape == (len(ts), 1 + 2 * n), "shape of states and rates", got=(ana.shape, step.shape))
    same("times of the solution", ana[:, :1], ts)
    same("states of the solution", ana[:, 1:1 + n], xs[:, :n])
    same("rates of the solution", ana[:, 1 + n:], xds[:, :n])
    same("forcing terms", read(files[1]), forcing)
    same("outputs of the function approximators", read(files[2]), fa_out)
    got = Trajectory.loadtxt(d / files[3])
    for nm in ("ts", "ys", "yds", "ydds"):
        same(f"{nm} of the trajectory", np.reshape(getattr(got, nm), (len(ts), -1)), getattr(traj, nm))
    xs, xds = dmpgen.stepped(dmp, ts)
    # a phase that ends within rounding of a step may be before or after it
    end = len(ts)
    if dmp._phase_system.__class__.__name__ == "TimeSystem":
        bad = np.flatnonzero((np.abs(xs[:, 3 * D]) < 1e-9) | (np.abs(xs[:, 3 * D] - 1) < 1e-9))
        bad = bad[bad > 0]
        end = int(bad[0]) if len(bad) else end
    for what, a, b in (("states of the steps", step[:end, 1:1 + n], xs[:end, :n]), ("rates of the steps", step[:end, 1 + n:], xds[:end, :n])):
        mon.close("demo-solution", a, b, 2e-5, 2e-5 * gen.scale(b), what)


def demo(script):
    def run(rng, mon):
        seed, f = int(rng.integers(2 ** 30)), DEMOS / script
        mon.describe(script=script, seed=seed)
        code = (f"import runpy, sys, numpy; numpy.random.seed({seed}); sys.path.insert(0, {str(f.parent)!r}); sys.argv = [{str(f)!r}]; "
                f"runpy.run_path({str(f)!r}, run_name='__main__')")
        with scratch(mon) as cwd:
            os.makedirs(cwd / "tmp")
            shutil.copy(ROBOT / "trajectory.txt", cwd / "trajectory.txt")
            env = {**os.environ, "TMPDIR": str(cwd / "tmp"), "PYTHONPATH": os.pathsep.join([REPO, str(DEMOS / "bbo_of_dmps")]), "MPLBACKEND": "Agg",
                   "PYTHONDONTWRITEBYTECODE": "1", "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1"}
            p = subprocess.run([sys.executable, "-c", code], capture_output=True, text=True, cwd=cwd, env=env, timeout=220, stdin=subprocess.DEVNULL)
            mon.ok("demo", p.returncode == 0, f"{script} ended with {p.returncode}", stderr=p.stderr[-1500:])
            for d in {q.parent for q in cwd.rglob("n_samples_per_update*")}:
                finished(mon, d, script)
        mon.nontrivial(script, seed)
    return run


def finished(mon, d, script):
    """The optimization a demo leaves on disk can be opened, and got somewhere."""
    s = LearningSession.from_dir(str(d))
    n, k = s.get_n_updates(), s.ask("n_samples_per_update")
    mon.must("demo-session", n >= 1, f"{script}: updates on disk", directory=str(d), n=n)
    # (the classes of a demo are not known here, so its costs are read as they are)
    totals = [np.atleast_1d(np.asarray(s.get_eval_costs(u)[0], dtype=float))[0] for u in range(n)]
    mon.ok("demo-session", np.all(np.isfinite(totals)), f"{script}: costs of the evaluations", totals=totals)
    mon.ok("demo-session", np.mean(totals[-3:]) <= 1.05 * max(totals[0], np.median(totals)), f"{script}: the optimization made things worse", totals=totals)
    for u in range(n):
        w = np.atleast_1d(s.ask("weights", u))
        mon.ok("demo-session", w.size == k and abs(w.sum() - 1) < 1e-6, f"{script}: weights of update {u}", w=w)
        mon.close("demo-session", s.ask("distribution_new", u).mean, w @ np.reshape(s.ask("samples", u), (k, -1)), 1e-6, 1e-6, f"{script}: mean after update {u}")


FAMILIES = {"workflow": (workflow, 24, 260), "rollout": (rollout, 60, 700), "demos-cpp": (demos_cpp, 40, 500)}
for _f in sorted(DEMOS.rglob("demo*.py")):
    FAMILIES["demo-" + _f.stem[5:]] = (demo(str(_f.relative_to(DEMOS))), 1, 4)
