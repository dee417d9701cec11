"""C31 Plots show the data they are asked to show, and plotting changes nothing."""
import contextlib
import copy
import hashlib
import os
import shutil
import tempfile
from pathlib import Path

import matplotlib

matplotlib.use("Agg")
import matplotlib.pyplot as plt
from matplotlib.figure import Figure
import numpy as np

from dmpbbo.bbo import LearningSession as ls_module
from dmpbbo.bbo.DistributionGaussian import DistributionGaussian
from dmpbbo.bbo.DistributionGaussianBounded import DistributionGaussianBounded
from dmpbbo.bbo.LearningSession import LearningSession
from dmpbbo.bbo.run_optimization import run_optimization
from dmpbbo.bbo_of_dmps.LearningSessionTask import LearningSessionTask
from dmpbbo.bbo_of_dmps.run_optimization_task import run_optimization_task
from dmpbbo.bbo_of_dmps.step_by_step_optimization import prepare_optimization, update_step
from dmpbbo.dmps.Dmp import Dmp
from dmpbbo.dmps.DmpContextualTwoStep import DmpContextualTwoStep
from dmpbbo.dmps.DmpWithSchedules import DmpWithSchedules
from dmpbbo.dmps.Trajectory import Trajectory
from dmpbbo.dynamicalsystems.DynamicalSystem import DynamicalSystem
from dmpbbo.functionapproximators.FunctionApproximator import FunctionApproximator
from checks import C14, C15, C21, C23
from mon import dmpgen, gen, tasks

RULE = ("A case is one object - trajectory, dynamical system, DMP (plain, with schedules, contextual), approximator with one or two inputs, "
        "distribution, or a whole optimization session (in memory, on disk, reopened, of a task, step by step, with and without cost components and "
        "labels) - that is plotted in random ways (axes given or not, everything or parts) on a headless canvas; the curves found on the axes are compared with "
        "the data recorded independently. Objects, arguments and stored files are fingerprinted before and after, and what was plotted is plotted again. "
        "Non-trivial if at least one curve was drawn. Distinct by parameters.")
ASSUMPTIONS = ["vertical lines and texts that mark updates or durations, colours, grids and styles are free",
               "a session that is plotted has at least one complete update", "optimizations with one parameter have no plot of the distributions, only of the rest",
               "contextual DMPs are plotted with at least two different values of the first task parameter"]
required = ["trajectory", "system", "dmp-movement", "dmp-parts", "dmp-comparison", "schedules", "contextual", "predictions", "prediction-grid", "targets",
            "distribution", "distribution-update", "learning-curve", "learning-curve-values", "cost-components", "cost-labels", "sample-costs", "exploration", "rollouts",
            "unchanged", "arguments", "files", "again", "settings", "rendered"]


# --- what is on the canvas

def curves(ax, vertical=False):
    """Data of the curves on the axis, one entry per line; markers of updates or durations (vertical lines) left out."""
    out = []
    for line in ax.lines:
        x, y = np.asarray(line.get_xdata(orig=True), dtype=float).reshape(-1), np.asarray(line.get_ydata(orig=True), dtype=float).reshape(-1)
        if not vertical and x.size == 2 and x[0] == x[1]:
            continue
        out.append((x, y))
    return out


def columns(ts, ys):
    """One curve for each column."""
    ts, ys = np.asarray(ts, dtype=float).reshape(-1), np.asarray(ys, dtype=float)
    ys = ys.reshape(ts.size, -1)
    return [(ts, ys[:, k]) for k in range(ys.shape[1])]


def same(a, b, tol=1e-9):
    return all(p.shape == q.shape and np.allclose(p, q, rtol=tol, atol=tol * gen.scale(q), equal_nan=True) for p, q in zip(a, b))


def judge(mon, key, ax, want, msg, others=False, tol=1e-9, got=None):
    """The curves on the axis are the wanted ones, in any order; others: more curves are allowed."""
    left = curves(ax) if got is None else list(got)
    for i, w in enumerate(want):
        hit = next((k for k, g in enumerate(left) if same(g, w, tol)), None)
        if not mon.ok(key, hit is not None, f"{msg}: curve {i} is not drawn", expected=w, drawn=left):
            return False
        del left[hit]
    return others or mon.ok(key, not left, f"{msg}: {len(left)} curves that are not part of the data", extra=left)


def observe(o):
    """What a user can see of an object: values read back and behaviour; not its internal caches."""
    if isinstance(o, Trajectory):
        return [o.ts, o.ys, o.yds, o.ydds, o.misc if o.has_misc() else np.zeros(0)]
    if isinstance(o, DistributionGaussian):
        return [o.mean, o.covar] + [np.asarray(getattr(o, k), dtype=float) for k in ("lower_bound", "upper_bound") if hasattr(o, k)]
    if isinstance(o, DmpContextualTwoStep):
        return observe(o.dmp) + [v for fa in o.ppf or [] for v in observe(fa)]
    if isinstance(o, Dmp):
        o = copy.deepcopy(o)
        ts = np.linspace(0, 1.3 * o.tau, 9)
        out = [o.tau, o.y_init, o.y_attr, o.x_init, o.get_param_vector(), np.zeros(0) if o.ts_train is None else o.ts_train, *o.analytical_solution(ts)]
        out += list(o.analytical_solution_sched(ts)[2:3]) if isinstance(o, DmpWithSchedules) else []
        x, xd = o.integrate_start()
        return out + [x, xd, *o.integrate_step(0.01 * o.tau, x)]
    if isinstance(o, DynamicalSystem):
        o = copy.deepcopy(o)
        x, xd = o.integrate_start()
        return [o.tau, o.x_init, x, xd, *o.integrate_step(0.01 * o.tau, x), *o.analytical_solution(np.linspace(0, 1.3 * o.tau, 9))]
    if isinstance(o, FunctionApproximator):
        out = [o.get_param_vector()]
        if o.is_trained():
            x = np.linspace(-3, 3, 11)
            out.append(o.predict(x if o.dim_input() == 1 else np.stack([x, x[::-1]], axis=1)))
        return out
    raise TypeError(type(o))


@contextlib.contextmanager
def unaltered(mon, *objs, msg=""):
    before = [[np.array(v, dtype=float) for v in observe(o)] for o in objs]
    yield
    for o, b in zip(objs, before):
        after = [np.array(v, dtype=float) for v in observe(o)]
        mon.ok("unchanged", len(after) == len(b) and all(p.shape == q.shape and np.array_equal(p, q, equal_nan=True) for p, q in zip(after, b)),
               f"{msg}: the {type(o).__name__} is not what it was before", before=b, after=after)


class Axes:
    """Axes for a plot: those the caller provides, or those returned."""

    def __init__(self, rng, n, p=0.5):
        self.given = gen.chance(rng, p)
        self.axs = [plt.figure().add_subplot(1, n, i + 1) for i in range(n)] if self.given else None

    def kw(self):
        return {"axs": self.axs} if self.given else {}


def closing(fn):
    def run(rng, mon):
        settings = dict(matplotlib.rcParams)
        draw = gen.chance(rng, 0.06)
        try:
            fn(rng, mon)
            now = dict(matplotlib.rcParams)
            mon.ok("settings", now == settings, "settings of all figures changed by plotting", changed={k: (settings.get(k), v) for k, v in now.items() if settings.get(k) != v})
            if draw:
                for k in plt.get_fignums()[:3]:
                    plt.figure(k).canvas.draw()
                    mon.event("rendered")
        finally:
            plt.close("all")
            matplotlib.rcParams.update(settings)
    return run


# --- movements

@closing
def trajectory(rng, mon):
    tr = dmpgen.demonstration(rng, misc=int(gen.choice(rng, [0, 0, 1, 3])), uniform=gen.chance(rng), n=int(gen.choice(rng, [3, 10, 60])))
    n = int(gen.choice(rng, [0, 1, 2, 3, 4]))
    mon.describe(misc=tr.has_misc(), n_axes=n, length=tr.length, n_dims=tr.dim)
    axs = [plt.figure().add_subplot(111) for _ in range(n)] if n else None
    parts = [tr.ys.copy(), tr.yds.copy(), tr.ydds.copy()] + ([tr.misc.copy()] if tr.has_misc() else [])
    with unaltered(mon, tr, msg="plotting a trajectory"):
        h, out = tr.plot(axs) if (n or gen.chance(rng)) else tr.plot()
    mon.ok("trajectory", len(out) >= (n or len(parts)), "axes returned")
    for k, a in enumerate(out):
        judge(mon, "trajectory", a, columns(tr.ts, parts[k]) if k < len(parts) else [], f"trajectory on axis {k} of {len(out)}")
    mon.ok("trajectory", len(h) == sum(len(a.lines) for a in out), "handles of all lines")
    mon.nontrivial(len(out), tr.ys)


@closing
def system(rng, mon):
    s = gen.system_spec(rng)
    sysm = gen.build(s)
    ts = gen.times(rng, s["tau"])
    mon.describe(system=s)
    xs, xds = sysm.analytical_solution(ts)
    n = 3 if s["kind"] == "spring" else 2
    if s["kind"] == "spring":
        d = xs.shape[1] // 2
        want = [xs[:, :d], xds[:, :d], xds[:, d:] / s["tau"]]
    else:
        want = [xs, xds]
    k = int(rng.integers(1, n + 1))
    A = Axes(rng, k)
    if gen.chance(rng):  # other data than its own solution
        xs, xds = xs + 1.5, xds * 2 - 1
        want = [want[0] + 1.5] + [w * 2 - 1 for w in want[1:]] if n == 2 else [want[0] + 1.5, want[1] * 2 - 1, (xds[:, d:]) / s["tau"]]
        args = (ts, xs, xds)
    else:
        args = (ts, None, None) if gen.chance(rng) else (ts, xs, xds)
    with unaltered(mon, sysm, msg="plotting a system"):
        with mon.untouched("arguments", [a for a in args if a is not None], msg="plotting a system"):
            h, axs = sysm.plot(*args, **A.kw())
    mon.ok("system", len(axs) == (k if A.given else n), "number of axes")
    for i, a in enumerate(axs):
        judge(mon, "system", a, columns(ts, want[i]), f"{s['kind']} on axis {i}")
    mon.ok("system", len(h) == sum(len(a.lines) for a in axs), "handles of all lines")
    mon.nontrivial(s, ts)


def movement(mon, dmp, spec, axs, ts, xs, xds, f, fa, compact, extra=None, msg="DMP"):
    """The parts of a DMP on the axes it is plotted on."""
    d = len(spec["y_init"])
    y, yd, zd = xs[:, dmp.SPRING][:, :d], xds[:, dmp.SPRING][:, :d], xds[:, dmp.SPRING][:, d:] / dmp.tau
    goal, phase, gating = xs[:, dmp.GOAL], xs[:, dmp.PHASE], xs[:, dmp.GATING]
    extra = extra or [[], [], []]
    spring = [columns(ts, y) + extra[0], columns(ts, yd) + extra[1], columns(ts, zd) + extra[2]]
    tol = 1e-6
    for i, w in enumerate(spring):
        judge(mon, "dmp-movement", axs[i if compact else 1 + i], w + (columns(ts, goal) if compact and i == 0 else []), f"{msg}: axis of derivative {i}", tol=tol)
    if not compact:
        judge(mon, "dmp-parts", axs[0], columns(ts, goal), f"{msg}: goal", tol=tol)
        judge(mon, "dmp-parts", axs[4], columns(ts, phase), f"{msg}: phase", tol=tol)
        judge(mon, "dmp-parts", axs[6], columns(ts, gating), f"{msg}: gating", tol=tol)
        judge(mon, "dmp-parts", axs[7], columns(ts, f) if f is not None else [], f"{msg}: forcing term", tol=tol)
        judge(mon, "dmp-parts", axs[5], columns(ts, fa) if fa is not None else [], f"{msg}: outputs of the approximators", tol=tol)
    else:
        judge(mon, "dmp-parts", axs[4], columns(ts, gating), f"{msg}: gating", tol=tol)
        judge(mon, "dmp-parts", axs[3], (columns(ts, f) if f is not None else []) + (columns(ts, fa) if fa is not None else []), f"{msg}: forcing term", tol=tol)


@closing
def dmp(rng, mon):
    s = dmpgen.dmp_spec(rng, amp=30.0)
    demo = None
    D = dmpgen.dmp_build(s)
    if gen.chance(rng) and s["fas"] is not None:
        demo = dmpgen.demonstration(rng, n_dims=len(s["y_init"]))
        D.train(demo)
        s["y_init"] = demo.y_init
    compact, own = gen.chance(rng, 0.3), gen.chance(rng)
    ts = demo.ts if demo is not None and gen.chance(rng) else gen.times(rng, D.tau, n=int(gen.choice(rng, [2, 5, 40, 40])))
    ref = copy.deepcopy(D)
    xs, xds, f, fa = ref.analytical_solution(ts)
    kw = {"plot_compact": True} if compact else {}
    mon.describe(dmp=dmpgen.brief(s), compact=compact, own=own, trained=demo is not None)
    extra = [[], [], []]
    # the trajectory it is shown with: the one of the training, or any other
    other = demo if demo is not None and gen.chance(rng) else dmpgen.demonstration(rng, n_dims=len(s["y_init"]))
    if gen.chance(rng):
        kw["plot_demonstration"] = other
        extra = [columns(other.ts, other.ys), columns(other.ts, other.yds), columns(other.ts, other.ydds)]
    if gen.chance(rng, 0.3):
        kw["plot_no_forcing_term_also"] = True
        a, b, _, _ = ref.analytical_solution(ts, True)
        d = len(s["y_init"])
        for i, w in enumerate([a[:, D.SPRING][:, :d], b[:, D.SPRING][:, :d], b[:, D.SPRING][:, d:] / D.tau]):
            extra[i] = extra[i] + columns(ts, w)
    if gen.chance(rng, 0.3):
        kw["plot_tau"] = False
    if gen.chance(rng, 0.4):
        kw["axs"] = [plt.figure().add_subplot(111) for _ in range(5 if compact else 8)]
    if own:
        args = (ts,) if not (demo is not None and np.array_equal(ts, demo.ts) and gen.chance(rng)) else ()
        wf, wfa = f, fa
    else:
        xs, xds = xs + 0.3, xds * 1.1
        args, wf, wfa = (ts, xs, xds), None, None
        if gen.chance(rng):
            kw["forcing_terms"], wf = f, f
        if gen.chance(rng):
            kw["fa_outputs"], wfa = fa, fa
    with unaltered(mon, D, msg="plotting a DMP"):
        with mon.untouched("arguments", list(args), kw.get("forcing_terms"), kw.get("fa_outputs"), msg="plotting a DMP"):
            h, axs = D.plot(*args, **kw)
    movement(mon, D, s, axs, ts, xs, xds, wf, wfa, compact, extra)
    for a in axs if kw.get("plot_tau", True) else []:
        mon.ok("dmp-parts", any(np.allclose(x, D.tau) for x, _ in curves(a, True)), "duration marked")
    after = D.analytical_solution(ts)
    for p, q in zip(after, ref.analytical_solution(ts)):
        mon.close("again", p, q, rtol=1e-12, atol=1e-12, msg="movement after plotting")
    t2 = other.ts if gen.chance(rng) else gen.times(rng, D.tau, n=30)
    kw = {} if t2 is other.ts else {"ts": t2}
    with unaltered(mon, D, other, msg="comparing with a demonstration"):
        h, axs = D.plot_comparison(other, **kw)
    a, b, _, _ = ref.analytical_solution(t2)
    y, yd, ydd = ref.states_as_pos_vel_acc(a, b)
    for i, (w, g) in enumerate(zip([other.ys, other.yds, other.ydds], [y, yd, ydd])):
        judge(mon, "dmp-comparison", axs[i], columns(other.ts, w) + columns(t2, g), f"comparison, derivative {i}", tol=1e-6)
    mon.ok("dmp-comparison", len(h) == sum(len(a.lines) for a in axs), "handles of all lines")
    mon.nontrivial(dmpgen.brief(s), ts)


@closing
def schedules(rng, mon):
    s = dmpgen.dmp_spec(rng, amp=30.0)
    n = int(rng.integers(1, 4))
    specs = C14.sched_specs(rng, n)
    mn, mx = C14.bounds(rng, n)
    D = dmpgen.dmp_build(s, DmpWithSchedules, C14.sched_fas(specs), min_schedules=mn, max_schedules=mx)
    ts = gen.times(rng, s["tau"], n=20)
    xs, xds, sched, f, fa = D.analytical_solution_sched(ts)
    kw = {}
    if gen.chance(rng):
        kw = {"forcing_terms": f, "fa_outputs": fa}
    given = None
    if gen.chance(rng, 0.4):
        fig = plt.figure()
        given = [fig.add_subplot(2, 5, 1 + i) for i in range(9)]
        kw["axs"] = list(given)
        if gen.chance(rng):
            plt.figure()
    mon.describe(dmp=dmpgen.brief(s), n_schedules=n)
    with unaltered(mon, D, msg="plotting schedules"):
        with mon.untouched("arguments", ts, xs, xds, sched, msg="plotting schedules"):
            h, axs = D.plot_sched(ts, xs, xds, sched, **kw)
    judge(mon, "schedules", axs[-1], columns(ts, sched), "schedules")
    if given is not None:
        mon.ok("schedules", kw["axs"] == given and axs[:8] == given[:8], "plots on the given axes, and leaves the list of the caller as it is")
        mon.ok("schedules", all(a.figure is given[0].figure for a in axs), "all in one figure")
    d = len(s["y_init"])
    judge(mon, "schedules", axs[1], columns(ts, xs[:, D.SPRING][:, :d]), "positions next to the schedules")
    mon.nontrivial(dmpgen.brief(s), n, ts)


@closing
def contextual(rng, mon):
    D, n_task = int(rng.integers(1, 3)), int(gen.choice(rng, [1, 1, 2]))
    demos = C15.demonstrations(rng, int(rng.integers(3, 5)), n_task, D, gen.chance(rng))
    fas = [dmpgen.fa_build({"kind": "rbfn", "n_bfs": 5, "height": 0.7, "reg": 1e-6}) for _ in range(D)]
    ps = C15.ppf_spec(rng, n_task, len(demos))
    mon.describe(n_dims=D, n_demos=len(demos), n_task=n_task, ppf=ps)
    save = gen.chance(rng)
    names = gen.choice(rng, [["weights"], ["weights"], ["goal"]])
    kind = gen.choice(rng, C15.TYPES)
    own_params = []
    for _, tr in demos:
        own = Dmp.from_traj(tr, copy.deepcopy(fas), dmp_type=kind)
        own.set_selected_param_names(list(names))
        own_params.append(np.array(own.get_param_vector()))
    c = DmpContextualTwoStep.from_trajs(demos, fas, list(names), dmpgen.fa_build(ps), dmp_type=kind, save_training_data=save)
    tp = np.array([demos[0][0]])
    c.set_task_params(tp)
    ts = np.linspace(0, c.dmp.tau, 25)
    before = copy.deepcopy(c)
    stored = (c.dmp.tau, np.array(c.dmp.y_init), np.array(c.dmp.y_attr), np.array(c.dmp.get_param_vector()))
    with mon.untouched("arguments", [p for p, _ in demos]), unaltered(mon, *[t for _, t in demos], msg="plotting a contextual DMP"):
        h, axs = c.plot(demos)
    now = (c.dmp.tau, c.dmp.y_init, c.dmp.y_attr, c.dmp.get_param_vector())
    for a, b, what in zip(now, stored, ["duration", "initial position", "goal", "parameters"]):
        mon.close("unchanged", a, b, rtol=1e-12, atol=1e-12, msg=f"{what} of a contextual DMP after plotting")
    mon.close("again", c.dmp.analytical_solution(ts)[0], before.dmp.analytical_solution(ts)[0], rtol=1e-10, atol=1e-10, msg="movement after plotting")
    # every demonstration, and the movement for its task parameters, frame and duration
    T = max(t.duration for _, t in demos)
    times = [g[0] for g in curves(axs[1])]
    own = [t for t in times if not any(t.shape == tr.ts.shape and np.allclose(t, tr.ts) for _, tr in demos)]
    grid = own[0] if own else np.arange(0.0, 1.1 * T, demos[-1][1].dt_mean)
    mon.ok("contextual", grid[0] == 0 and T - 1e-9 <= grid[-1] <= 1.5 * T, "times that are plotted", got=grid)
    want = [[], [], []]
    for p, tr in demos:
        for i, w in enumerate([tr.ys, tr.yds, tr.ydds]):
            want[i] += columns(tr.ts, w)
        ref = copy.deepcopy(before)
        ref.dmp.tau = tr.duration
        ref.dmp.y_init = tr.y_init
        ref.dmp.y_attr = tr.y_final
        ref.set_task_params(np.array([p]))
        for no in (False, True):
            y, yd, ydd = ref.dmp.states_as_pos_vel_acc(*ref.dmp.analytical_solution(grid, no)[:2])
            for i, w in enumerate([y, yd, ydd]):
                want[i] += columns(grid, w)
    for i, w in enumerate(want):
        judge(mon, "contextual", axs[1 + i], w, f"contextual DMP, derivative {i}", tol=1e-6)
    plt.close("all")
    proj = {} if n_task == 1 else {"projection": "3d"}
    kw = {"axs": [plt.figure().add_subplot(111, **proj) for _ in c.ppf]} if gen.chance(rng, 0.3) else {}
    with unaltered(mon, c, msg="plotting policy parameter functions"):
        hs, pax = c.plot_policy_parameter_function(**kw)
    mon.ok("contextual", len(pax) >= len(c.ppf) and len(hs) == (len(c.ppf) if save else 0), "axes and handles of the policy parameter functions", axs=len(pax), handles=len(hs))
    params = np.array([p for p, _ in demos])
    for i, fa in enumerate(c.ppf):
        # the parameters of the DMPs trained on the demonstrations, and those predicted for their task parameters
        got = [np.stack([np.asarray(v, dtype=float).reshape(-1) for v in (ln.get_data() if n_task == 1 else ln.get_data_3d())], axis=1) for ln in pax[i].lines]
        want = []
        if save:
            for v in (np.array([d[i] for d in own_params]), np.asarray(fa.predict(params.copy())).reshape(-1)):
                want.append(np.column_stack((params, v)))
        for w in want:
            mon.ok("contextual", any(g.shape == w.shape and np.allclose(g, w, rtol=1e-7, atol=1e-7) for g in got), f"data and predictions of policy parameter {i}")
        mon.ok("contextual", bool(want) or not got, "nothing is plotted without data")
    mon.nontrivial(D, n_task, ps, demos[0][1].ys)


# --- approximators

@closing
def approximator(rng, mon):
    n_in = int(gen.choice(rng, [1, 1, 1, 2]))
    spec = dmpgen.fa_spec(rng, gen.choice(rng, ["rbfn", "lwr", "wls", "gpr"]), n_in=n_in, bfs=int(rng.integers(2, 5)), reg=1e-6)
    fa = dmpgen.fa_build(spec)
    m = int(gen.choice(rng, [8, 25, 60]))
    lo, w = float(rng.uniform(-3, 2)), float(rng.uniform(0.5, 3))
    if spec["kind"] == "gpr":
        m = min(m, 12)
        spec["lengths"] = 0.3 * w
        fa = dmpgen.fa_build(spec)
    x = np.linspace(lo, lo + w, m) if n_in == 1 else rng.uniform(lo, lo + w, (m, 2))
    y = dmpgen.smooth_function(rng, n_in, 2.0)(x)
    if n_in == 1 and gen.chance(rng):
        x = x[:, None]
    mon.describe(fa=spec, n=m)
    again = gen.chance(rng)
    save = gen.chance(rng, 0.7)
    if again:
        fa.train(x[: m // 2], y[: m // 2] * 2, save_training_data=gen.chance(rng))
    xt, yt = x.copy(), y.copy()
    fa.train(xt, yt, save_training_data=save)
    ref = copy.deepcopy(fa)
    proj = {} if n_in == 1 else {"projection": "3d"}
    kw = {"ax": plt.figure().add_subplot(111, **proj)} if gen.chance(rng) else {}

    def points(h):
        h = h[0] if isinstance(h, (list, tuple)) else h
        if n_in == 1:
            return np.stack((np.asarray(h.get_xdata(), dtype=float).reshape(-1), np.asarray(h.get_ydata(), dtype=float).reshape(-1)), axis=1)
        return np.stack([np.asarray(v, dtype=float).reshape(-1) for v in h.get_data_3d()], axis=1)

    def predicted(X):
        return np.column_stack((X.reshape(len(X), -1), np.asarray(ref.predict(X)).reshape(len(X))))

    q = x if gen.chance(rng) else (rng.uniform(lo - 0.3, lo + w + 0.3, (int(gen.choice(rng, [2, 7, 50])),) + x.shape[1:]))
    tg = {}
    if gen.chance(rng):
        tg = {"targets": rng.normal(size=len(q)), "plot_residuals": gen.chance(rng)}
    with unaltered(mon, fa, msg="plotting predictions"):
        with mon.untouched("arguments", q, tg.get("targets"), msg="plotting predictions"):
            h, ax = fa.plot_predictions(q, **kw, **tg)
    mon.close("predictions", points(h), predicted(q), rtol=1e-9, atol=1e-9, msg="predictions at the given inputs")
    if tg:
        alldata = [points(line) for line in ax.lines]
        exp = np.column_stack((q.reshape(len(q), -1), tg["targets"]))
        mon.ok("targets", any(d.shape == exp.shape and np.allclose(d, exp) for d in alldata), "targets at the given inputs")
        if tg["plot_residuals"]:
            p = predicted(q)
            res = [np.stack((exp[i], p[i])) for i in range(len(q))]
            mon.ok("targets", all(any(d.shape == r.shape and (np.allclose(d, r) or np.allclose(d[::-1], r)) for d in alldata) for r in res), "residuals between targets and predictions")
        n_lines = 2 + (len(q) if tg["plot_residuals"] else 0)
    else:
        n_lines = 1
    mon.ok("predictions", len(ax.lines) == n_lines, f"{len(ax.lines)} lines instead of {n_lines}")
    kw = {"ax": plt.figure().add_subplot(111, **proj)} if gen.chance(rng) else {}
    a, b = (np.full(n_in, lo - 0.1), np.full(n_in, lo + w)) if gen.chance(rng) else (np.min(x.reshape(m, -1), axis=0), np.max(x.reshape(m, -1), axis=0))
    with unaltered(mon, fa, msg="plotting on a grid"):
        h, ax = fa.plot_predictions_grid(a, b, **kw)
        if gen.chance(rng):
            fa.plot_model_parameters(a, b)
    grid(mon, n_in, h, a, b, ref)
    # with the data it was trained on
    if save or gen.chance(rng, 0.3):
        if save and gen.chance(rng, 0.5):
            xt += 1.0
            yt *= 3.0  # the caller goes on with these arrays
            mon.event("caller-changed-training-data")
            xt, yt = x, y
        with unaltered(mon, fa, msg="plotting an approximator"):
            h, ax = fa.plot(**({"plot_model_parameters": True} if gen.chance(rng, 0.3) else {}))
        if not save:
            mon.ok("predictions", ax is None, "nothing is plotted without data")
        else:
            alldata = [points(line) for line in ax.lines]
            for key, exp in (("targets", np.column_stack((x.reshape(m, -1), y))), ("predictions", predicted(x))):
                mon.ok(key, any(d.shape == exp.shape and np.allclose(d, exp, rtol=1e-9, atol=1e-9) for d in alldata), f"{key} of the training data", retrained=again)
            X = x.reshape(m, -1)
            grid(mon, n_in, h, X.min(axis=0), X.max(axis=0), ref)
    # for other inputs, alone or with targets
    for q, tg in ((q, {"targets": rng.normal(size=len(q))}), (q, {}), (x[::-1].copy(), {}), (x.copy(), {})):
        if gen.chance(rng):
            tg["plot_residuals"] = False
        with unaltered(mon, fa, msg="plotting an approximator"):
            with mon.untouched("arguments", q, tg.get("targets"), msg="plotting an approximator"):
                h, ax = fa.plot(q, **tg)
        alldata = [points(line) for line in ax.lines]
        t = tg.get("targets", y if save and np.array_equal(q, x) else None)
        want = [predicted(q)] + ([] if t is None else [np.column_stack((q.reshape(len(q), -1), t))])
        for exp in want:
            mon.ok("predictions", any(d.shape == exp.shape and np.allclose(d, exp, rtol=1e-9, atol=1e-9) for d in alldata), "predictions and targets at the inputs")
        n_lines = len(want) + (n_in == 1) + (len(q) if t is not None and tg.get("plot_residuals", True) else 0)
        mon.ok("predictions", len(ax.lines) == n_lines, f"{len(ax.lines)} lines instead of {n_lines} for inputs")
        Q = q.reshape(len(q), -1)
        grid(mon, n_in, h, Q.min(axis=0), Q.max(axis=0), ref)
        plt.close("all")
    mon.nontrivial(spec, m, x)


def grid(mon, n_in, h, a, b, ref):
    if n_in == 1:
        g = np.asarray(h[0].get_xdata(), dtype=float).reshape(-1)
        mon.close("prediction-grid", [g[0], g[-1]], [a[0], b[0]], rtol=1e-9, atol=1e-9, msg="range of the grid")
        mon.ok("prediction-grid", len(g) >= 10 and np.all(np.diff(g) > 0), "grid of the predictions")
        mon.close("prediction-grid", np.asarray(h[0].get_ydata(), dtype=float).reshape(-1), np.asarray(ref.predict(g)).reshape(-1), rtol=1e-9, atol=1e-9, msg="predictions on the grid")
    else:
        seg = np.asarray(h._segments3d, dtype=float).reshape(-1, 3) if hasattr(h, "_segments3d") else np.concatenate([np.asarray(s) for s in h._segments3d])
        mon.close("prediction-grid", [seg[:, 0].min(), seg[:, 0].max(), seg[:, 1].min(), seg[:, 1].max()], [a[0], b[0], a[1], b[1]], rtol=1e-9, atol=1e-9, msg="range of the grid")
        mon.close("prediction-grid", seg[:, 2], np.asarray(ref.predict(seg[:, :2])).reshape(-1), rtol=1e-9, atol=1e-9, msg="predictions on the grid")


# --- distributions

def ellipse(mon, key, patch, mean, covar, msg):
    """The points of the ellipse lie one standard deviation from the mean."""
    patch = patch[0] if isinstance(patch, (list, tuple)) else patch
    v = patch.get_transform().transform(patch.get_path().vertices)
    v = patch.axes.transData.inverted().transform(v) if patch.axes is not None else v
    on = patch.get_path().codes
    v = v[(on == 1) | (on == 4)][::3] if on is not None else v
    c, w, h, ang = np.asarray(patch.center), patch.width, patch.height, np.radians(patch.angle)
    phi = np.linspace(0, 2 * np.pi, 17)
    local = np.stack((w / 2 * np.cos(phi), h / 2 * np.sin(phi)))
    R = np.array([[np.cos(ang), -np.sin(ang)], [np.sin(ang), np.cos(ang)]])
    pts = (R @ local).T
    mon.close(key, c, mean, rtol=1e-9, atol=1e-9, msg=f"{msg}: center")
    cov = np.asarray(covar)
    ev = np.linalg.eigvalsh(cov)
    if ev[0] > 1e-9 * ev[1] > 0:
        dist = np.einsum("ij,ij->i", pts, np.linalg.solve(cov, pts.T).T)
        mon.close(key, dist, np.ones(len(dist)), rtol=1e-4, atol=1e-4, msg=f"{msg}: ellipse of one standard deviation")


def random_distribution(rng, d):
    a = rng.normal(size=(d, d)) * 10.0 ** rng.uniform(-2, 1)
    cov = np.diag(rng.uniform(0.1, 4, d)) if gen.chance(rng, 0.3) else a @ a.T + 1e-6 * np.eye(d)
    m = gen.vec(rng, d)
    return DistributionGaussianBounded(m, cov, -5.0, 5.0) if gen.chance(rng, 0.2) else DistributionGaussian(m, cov)


def markers(ax):
    """Points drawn on the axis, whatever they were drawn with."""
    return np.array([p for line in ax.lines for p in np.stack((np.asarray(line.get_xdata(), dtype=float).reshape(-1), np.asarray(line.get_ydata(), dtype=float).reshape(-1)), axis=1)]).reshape(-1, 2)


def update_drawn(mon, handles, ax, old, new, samples, plot_samples, msg):
    mh, mhn, patch, patch_new = handles
    mon.close("distribution-update", [np.ravel(mh[0].get_xdata())[0], np.ravel(mh[0].get_ydata())[0]], old.mean[:2], msg=f"{msg}: old mean")
    mon.close("distribution-update", [np.ravel(mhn[0].get_xdata())[0], np.ravel(mhn[0].get_ydata())[0]], new.mean[:2], msg=f"{msg}: new mean")
    ellipse(mon, "distribution-update", patch, old.mean[:2], old.covar[:2, :2], f"{msg}: old distribution")
    ellipse(mon, "distribution-update", patch_new, new.mean[:2], new.covar[:2, :2], f"{msg}: new distribution")
    m = markers(ax)
    shown = [bool(np.any(np.all(np.isclose(m, s[:2], rtol=1e-12, atol=1e-12), axis=1))) for s in samples]
    if plot_samples:
        mon.ok("distribution-update", all(shown), f"{msg}: all samples drawn")
    else:
        # both means are drawn; a sample may be one of them (with all the weight, or at the bounds)
        means = [any(np.allclose(s[:2], x.mean[:2], rtol=1e-9, atol=1e-9) for x in (old, new)) for s in samples]
        mon.ok("distribution-update", not any(a and not b for a, b in zip(shown, means)), f"{msg}: samples drawn although not asked for")


@closing
def distribution(rng, mon):
    d = int(gen.choice(rng, [2, 2, 3, 6]))
    dist = random_distribution(rng, d)
    mon.describe(mean=dist.mean, covar=dist.covar)
    kw = {"ax": plt.figure().add_subplot(111)} if gen.chance(rng) else {}
    with unaltered(mon, dist, msg="plotting a distribution"):
        patch, ax = dist.plot(**kw)
    ellipse(mon, "distribution", patch, dist.mean[:2], dist.covar[:2, :2], "distribution")
    samples = dist.generate_samples(int(rng.integers(2, 9)))
    upd = C21.updater(rng, d)
    costs = rng.normal(size=len(samples)) ** 2
    new, w = upd.update_distribution(dist, samples, costs)
    kw = {k: gen.chance(rng) for k in ("highlight", "plot_samples") if gen.chance(rng)}
    if gen.chance(rng):
        kw["ax"] = plt.figure().add_subplot(111)
    plt.figure()
    with unaltered(mon, dist, new, msg="plotting an update"), mon.untouched("arguments", samples, w, msg="plotting an update"):
        handles, ax = ls_module.plot_update(dist, samples, w, new, **kw)
    update_drawn(mon, handles, ax, dist, new, samples, kw.get("plot_samples", False), "update")
    # the update alone, without samples
    handles, ax = ls_module.plot_update(dist, None, None, new, ax=plt.figure().add_subplot(111), plot_samples=gen.chance(rng))
    update_drawn(mon, handles, ax, dist, new, samples, False, "update without samples")
    mon.nontrivial(dist.mean, dist.covar, sorted(k for k in kw if k != "ax"))


# --- sessions

def files(tmp):
    out = {}
    for f in sorted(Path(tmp).rglob("*")):
        if f.is_file():
            out[str(f.relative_to(tmp))] = hashlib.sha1(f.read_bytes()).hexdigest()
    return out


def first(c):
    return float(np.ravel(c)[0])


def judge_session(rng, mon, session, n, U, evals, costs, dists, news, samples, labels, d, tmp, with_mean_costs=False):
    """evals, costs, ... are recorded by the workload itself, per update."""
    parts = np.size(costs[0][0]) > 1
    mean = [np.mean([np.ravel(c) for c in cu], axis=0) for cu in costs]
    alt = [((i + 0.5) * n, mean[i]) for i in range(U)]
    want = [(i * n, np.ravel(evals[i])) for i in range(U)] if evals is not None else alt
    curve, got_labels = session.get_learning_curve()
    curve = np.array(curve)
    expected = np.array([np.concatenate(([x], v)) for x, v in want])
    if with_mean_costs and not (curve.shape == expected.shape and np.allclose(curve, expected, rtol=1e-6)):
        expected = np.array([np.concatenate(([x], v)) for x, v in alt])
    mon.close("learning-curve-values", curve, expected, rtol=1e-6, atol=1e-9, msg="learning curve")
    mon.ok("cost-labels", (list(got_labels) if got_labels is not None else []) == (labels or []), "labels of the costs", got=got_labels, expected=labels)
    before = None if tmp is None else files(tmp)
    mem = copy.deepcopy(session)
    for rep in range(2):
        plt.figure()
        given = plt.figure().add_subplot(111) if gen.chance(rng) else None
        if given is not None and gen.chance(rng):
            # other axes are the current ones
            (given.figure if gen.chance(rng) else plt.figure()).add_subplot(122)
        lines, ax = session.plot_learning_curve(given)
        mon.ok("learning-curve", given is None or ax is given, "plots on the given axes")
        key = "learning-curve" if rep == 0 else "again"
        flat = np.array([first(c) for cu in costs for c in cu])
        xs = expected[:, 0]
        total = [(xs, expected[:, 1])]
        rest = [(xs, expected[:, 2 + k]) for k in range(expected.shape[1] - 2)]
        samples_curve = [(np.arange(flat.size, dtype=float), flat)]
        drawn = [c for c in curves(ax)]
        if rest and rep == 0:
            mon.event("cost-components", len(rest))
        judge(mon, key, ax, total + rest + samples_curve, "learning curve", tol=1e-6, got=drawn)
        mon.event("sample-costs", flat.size)
        # the legend names the curves
        leg = ax.get_legend()
        if labels and parts:
            if mon.ok("cost-labels", leg is not None, "legend of the cost components"):
                texts = [t.get_text() for t in leg.get_texts()]
                mon.ok("cost-labels", len(texts) == len(labels) + 1 and texts[1:] == list(labels), "names in the legend", got=texts, labels=labels)
                handles = leg.legend_handles if hasattr(leg, "legend_handles") else leg.legendHandles
                for k, hd in enumerate(handles):
                    cand = [line for line in ax.lines if matplotlib.colors.same_color(line.get_color(), hd.get_color()) and line.get_linewidth() == hd.get_linewidth()]
                    w = (total + rest)[k]
                    mon.ok("cost-labels", any(same((np.asarray(line.get_xdata(), dtype=float), np.asarray(line.get_ydata(), dtype=float)), w, 1e-6) for line in cand),
                           f"legend entry {texts[k]!r} marks the curve of that cost")
        plt.close("all")
    line, ax = session.plot_exploration_curve(plt.figure().add_subplot(111) if gen.chance(rng) else None)
    judge(mon, "exploration", ax, [(np.arange(U, dtype=float) * n, np.array([np.sqrt(np.max(np.linalg.eigvalsh(x.covar))) for x in dists]))], "exploration", tol=1e-6)
    plt.close("all")
    if d >= 2:
        i = int(rng.integers(U))
        kw = {"plot_samples": True} if gen.chance(rng) else {}
        h, ax = session.plot_distribution_update(i, plt.figure().add_subplot(111), **kw)
        update_drawn(mon, h, ax, dists[i], news[i], samples[i], bool(kw), f"update {i} of {U}")
        plt.close("all")
        h, ax = session.plot_distribution_updates(plt.figure().add_subplot(111) if gen.chance(rng) else None)
        m = markers(ax)
        for i in range(U):
            for x in (dists[i], news[i]):
                mon.ok("distribution-update", np.any(np.all(np.isclose(m, x.mean[:2], rtol=1e-9, atol=1e-9), axis=1)), f"mean of update {i} drawn")
        mon.ok("distribution-update", len(ax.patches) == 2 * U, "one ellipse before and after each update")
        plt.close("all")
    return before, mem


def unchanged(rng, mon, session, mem, before, tmp, n, U):
    """All that was stored is still what it was."""
    if tmp is not None:
        after = files(tmp)
        mon.ok("files", after == before, "files changed by plotting", changed=sorted(set(before.items()) ^ set(after.items()))[:4])
    else:
        mon.event("files")
    names = [("n_samples_per_update", None, None)] + [(k, i, None) for i in range(U) for k in ("distribution", "samples", "costs", "weights", "distribution_new")]
    names += [("cost", i, "eval") for i in range(U)] + [("cost_vars", i, s) for i in range(U) for s in [*range(n), "eval"]] + [("task", None, None), ("cost_function", None, None)]
    from mon.core import snapshot
    for nm in names:
        e = mem.exists(*nm)
        if mon.ok("unchanged", session.exists(*nm) == e, f"{nm} exists") and e:
            mon.ok("unchanged", snapshot(session.ask(*nm)) == snapshot(mem.ask(*nm)), f"{nm} after plotting")


def with_tmp(fn):
    def run(rng, mon):
        tmp = tempfile.mkdtemp(dir=mon.ctx.scratch)
        try:
            fn(rng, mon, tmp)
        finally:
            plt.close("all")
            shutil.rmtree(tmp, ignore_errors=True)
    return run


@with_tmp
def session(rng, mon, tmp):
    d, n, U = int(gen.choice(rng, [1, 2, 3])), int(gen.choice(rng, [1, 2, 3, 7])), int(gen.choice(rng, [1, 2, 5, 25]))
    form = gen.choice(rng, ["float", "numpy", "array1", "list", "array"])
    labels = gen.choice(rng, [None, ["dist", "reg"]]) if form in ("list", "array") else None
    disk = gen.chance(rng, 0.6)
    mon.describe(d=d, n=n, U=U, form=form, labels=labels, disk=disk)
    cost = tasks.RecCost(rng.normal(size=d), form, labels)
    del tasks.LOG[:]
    np.random.seed(int(rng.integers(2 ** 30)))
    dist = DistributionGaussian(rng.normal(size=d), np.diag(rng.uniform(0.1, 2, d)))
    upd = tasks.RecUpdater(C21.updater(rng, d))
    s = run_optimization(cost, tasks.RecDistribution(dist.mean, dist.covar), upd, U, n, tmp if disk else None)
    ev = [kw["cost"] for k, kw in tasks.LOG if k == "evaluate"]
    evals, costs = [ev[i * (n + 1)] for i in range(U)], [ev[i * (n + 1) + 1:(i + 1) * (n + 1)] for i in range(U)]
    up = [kw for k, kw in tasks.LOG if k == "update"]
    dists = [DistributionGaussian(u["mean"], u["covar"]) for u in up]
    news = [DistributionGaussian(u["new_mean"], u["new_covar"]) for u in up]
    if disk and gen.chance(rng):
        s = LearningSession.from_dir(tmp)
    before, mem = judge_session(rng, mon, s, n, U, evals, costs, dists, news, [u["samples"] for u in up], labels, d, tmp if disk else None)
    if True:
        with unaltered(mon, dist):
            fig = s.plot(plt.figure() if gen.chance(rng) else None)
        mon.ok("learning-curve", len(fig.axes) == 3, "three plots")
        flat = np.array([first(c) for cu in costs for c in cu])
        judge(mon, "learning-curve", fig.axes[2], [(np.arange(flat.size, dtype=float), flat)], "learning curve in the overview", others=True, tol=1e-6)
    unchanged(rng, mon, s, mem, before, tmp if disk else None, n, U)
    # the function that does the drawing
    curve = np.column_stack((np.arange(U) * n, rng.normal(size=(U, 3))))
    lab = ["a", "b"]
    ax = plt.figure().add_subplot(111)
    with mon.untouched("arguments", curve, lab, msg="plotting a learning curve"):
        ls_module.plot_learning_curve(curve, ax=ax, cost_labels=lab)
    judge(mon, "learning-curve", ax, [(curve[:, 0], curve[:, k]) for k in (1, 2, 3)], "given learning curve")
    mon.nontrivial(d, n, U, form, labels, disk, dist.mean)


def rollout_curves(cost_vars, own=False):
    v = np.asarray(getattr(cost_vars, "values", cost_vars), dtype=float)
    v = v.reshape(len(v), -1)
    if own:
        # as drawn by the task
        return [(0.5 * np.arange(len(v), dtype=float), 1.0 - 2.0 * v[:, k]) for k in range(v.shape[1])]
    return [(np.arange(len(v), dtype=float), v[:, k]) for k in range(v.shape[1])]


@with_tmp
def task_session(rng, mon, tmp):
    d, n, U = int(gen.choice(rng, [2, 3])), int(gen.choice(rng, [1, 2, 4, 4, 13])), int(gen.choice(rng, [1, 2, 5, 24]))
    if U == 24:
        n = 2
    form = gen.choice(rng, ["float", "list", "array"])
    labels = gen.choice(rng, [None, ["a", "b"]]) if form in ("list", "array") else None
    disk = gen.chance(rng, 0.6)
    rform = gen.choice(rng, ["matrix", "vector"])
    own = gen.chance(rng)
    mon.describe(d=d, n=n, U=U, form=form, labels=labels, disk=disk, rollouts=rform, own=own)
    task, solver = (tasks.DrawTask if own else tasks.RecTask)(0.3, form, labels), tasks.RecSolver(int(rng.integers(3, 9)), rform)
    del tasks.LOG[:]
    np.random.seed(int(rng.integers(2 ** 30)))
    dist = tasks.RecDistribution(rng.normal(size=d), np.diag(rng.uniform(0.1, 2, d)))
    s = run_optimization_task(task, solver, dist, tasks.RecUpdater(C21.updater(rng, d)), U, n, tmp if disk else None)
    ev = [kw["cost"] for k, kw in tasks.LOG if k == "evaluate"]
    ro = [kw["cost_vars"] for k, kw in tasks.LOG if k == "rollout"]
    evals, costs = [ev[i * (n + 1)] for i in range(U)], [ev[i * (n + 1) + 1:(i + 1) * (n + 1)] for i in range(U)]
    ro_eval, ro_samples = [ro[i * (n + 1)] for i in range(U)], [ro[i * (n + 1) + 1:(i + 1) * (n + 1)] for i in range(U)]
    up = [kw for k, kw in tasks.LOG if k == "update"]
    dists = [DistributionGaussian(u["mean"], u["covar"]) for u in up]
    news = [DistributionGaussian(u["new_mean"], u["new_covar"]) for u in up]
    if disk and gen.chance(rng):
        s = LearningSessionTask.from_dir(tmp)
    before, mem = judge_session(rng, mon, s, n, U, evals, costs, dists, news, [u["samples"] for u in up], labels, d, tmp if disk else None)
    # rollouts of one update
    i = int(rng.integers(U))
    for kw in ({}, {"plot_samples": True}, {"plot_eval": False, "plot_samples": True}):
        want = [] if kw.get("plot_eval") is False else rollout_curves(ro_eval[i], own)
        if kw.get("plot_samples"):
            for r in ro_samples[i]:
                want = want + rollout_curves(r, own)
        h, ax = s.plot_rollouts_update(i, ax=plt.figure().add_subplot(111), **kw)
        judge(mon, "rollouts", ax, want, f"rollouts of update {i} with {kw}", tol=1e-9)
        plt.close("all")
    # all updates, or a selection of them
    cap = int(gen.choice(rng, [20, 3, 50]))
    h, ax = s.plot_rollouts(plt.figure().add_subplot(111) if gen.chance(rng) else None, **({} if cap == 20 else {"max_n_updates": cap}))
    drawn = curves(ax)
    per = [rollout_curves(r, own) for r in ro_eval]
    if U <= cap:
        judge(mon, "rollouts", ax, [c for p in per for c in p], f"rollouts of all {U} updates")
    else:
        shown = [k for k in range(U) if all(any(same(c, g) for g in drawn) for c in per[k])]
        mon.ok("rollouts", len(drawn) <= cap * len(per[0]) and len(shown) * len(per[0]) == len(drawn), f"rollouts of at most {cap} of {U} updates", shown=shown, drawn=len(drawn))
        mon.ok("rollouts", shown and shown[0] == 0 and shown[-1] >= U - 1 - U // 2 and len(shown) >= min(cap - 1, 2), "spread over the whole optimization", shown=shown)
    plt.close("all")
    fig = plt.figure() if gen.chance(rng) else None
    drawn_in = s.plot(fig)
    mon.must("overview", isinstance(drawn_in, Figure) and (fig is None or drawn_in is fig), "the figure with the overview is returned", got=type(drawn_in))
    axs = drawn_in.axes
    mon.ok("rollouts", len(axs) == 4, "four plots")
    judge(mon, "rollouts", axs[1], per[0], "rollouts in the overview", others=True)
    for k, alone in ((0, s.plot_distribution_updates), (2, s.plot_exploration_curve), (3, s.plot_learning_curve)):
        ax = plt.figure().add_subplot(111)
        alone(ax)
        judge(mon, "overview", axs[k], curves(ax), f"plot {k} of the overview", others=True)
    unchanged(rng, mon, s, mem, before, tmp if disk else None, n, U)
    # rollouts collected without a task: drawn as plain curves
    bare = LearningSessionTask(n, os.path.join(tmp, "bare") if disk else None)
    for k, lab in enumerate([*range(n), "eval"]):
        bare.tell([*ro_samples[0], ro_eval[0]][k], "cost_vars", 0, lab)
    h, ax = bare.plot_rollouts_update(0, ax=plt.figure().add_subplot(111), plot_samples=True)
    judge(mon, "rollouts", ax, [c for r in [*ro_samples[0], ro_eval[0]] for c in rollout_curves(r)], "rollouts of a session without a task", tol=1e-9)
    mon.nontrivial(d, n, U, form, labels, disk, dist.mean)


@with_tmp
def step_by_step(rng, mon, tmp):
    P = C23.plan(rng)
    P["traj"] = False
    n, U = P["n"], max(1, min(P["u"], 3))
    P["u"] = U
    hist = C23.reference(P)
    mon.describe(n=n, U=U, labels=P["task"].labels, form=P["task"].form)
    np.random.seed(P["seed"])
    s = prepare_optimization(tmp, P["task"], P["solver"], P["dist"], n, P["updater"], P["dmp"])
    for i in range(U):
        h = hist[i]
        for k, lab in enumerate([*range(n), "eval"]):
            s.tell(h["rollouts"][k], "cost_vars", i, lab)
        np.random.seed(P["seed"] + i + 1)
        update_step(s if gen.chance(rng) else LearningSessionTask.from_dir(tmp), i)
    s = LearningSessionTask.from_dir(tmp)
    evals, costs = [h["costs"][-1] for h in hist[:U]], [h["costs"][:-1] for h in hist[:U]]
    before, mem = judge_session(rng, mon, s, n, U, evals, costs, [h["dist"] for h in hist[:U]], [h["new"] for h in hist[:U]], [h["samples"] for h in hist[:U]],
                                P["task"].labels if np.size(costs[0][0]) > 1 or P["task"].labels else None, hist[0]["dist"].mean.size, tmp, True)
    i = int(rng.integers(U))
    _, ax = s.plot_rollouts_update(i, ax=plt.figure().add_subplot(111), plot_samples=True)
    judge(mon, "rollouts", ax, [c for r in hist[i]["rollouts"] for c in rollout_curves(r)], f"rollouts of update {i}", tol=1e-9)
    plt.close("all")
    if hist[0]["dist"].mean.size >= 2:
        s.plot()
    unchanged(rng, mon, s, mem, before, tmp, n, U)
    # the rollout of the mean that waits for the next update is also one of all rollouts
    evaluated = [h["rollouts"][-1] for h in hist[:U]]
    if gen.chance(rng, 0.7):
        evaluated.append(np.asarray(getattr(evaluated[0], "values", evaluated[0]), dtype=float) * 1.5 + 0.1)
        s.tell(evaluated[-1], "cost_vars", U, "eval")
        if gen.chance(rng):
            s = LearningSessionTask.from_dir(tmp)
    _, ax = s.plot_rollouts(plt.figure().add_subplot(111))
    judge(mon, "rollouts", ax, [c for r in evaluated for c in rollout_curves(r)], f"rollouts of {U} updates and {len(evaluated) - U} to come", tol=1e-9)
    mon.nontrivial(n, U, P["seed"])


FAMILIES = {"trajectory": (trajectory, 120, 1500), "system": (system, 120, 1500), "dmp": (dmp, 160, 2500), "schedules": (schedules, 30, 400),
            "contextual": (contextual, 24, 300), "approximator": (approximator, 160, 2500), "distribution": (distribution, 120, 1500),
            "session": (session, 80, 1000), "task_session": (task_session, 48, 600), "step_by_step": (step_by_step, 16, 200)}
