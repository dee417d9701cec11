"""C32 The example tasks and simulations do what they describe."""
import copy
import os
import sys

import numpy as np
import pandas as pd

from mon.core import REPO

sys.path.insert(0, os.path.join(REPO, "demos", "robot"))

from demos.python.bbo_of_dmps.TaskViapoint import TaskViapoint
from demos.python.bbo_of_dmps.arm2D.TaskSolverDmpArm2D import TaskSolverDmpArm2D
from demos.python.bbo_of_dmps.arm2D.TaskViapointArm2D import TaskViapointArm2D
from demos.python.bbo_of_dmps.with_schedules import force_field_simulator
from demos.python.bbo_of_dmps.with_schedules.demo_bbo_of_dmps_with_gains import TaskSolverDmpWithGainsAndForceField, TaskViapointWithGains
from dmpbbo.dmps.Dmp import Dmp
from dmpbbo.dmps.DmpWithSchedules import DmpWithSchedules
from dmpbbo.dmps.Trajectory import Trajectory
from dmpbbo.functionapproximators.FunctionApproximatorRBFN import FunctionApproximatorRBFN
from TaskThrowBall import TaskThrowBall, run_python_simulation

from mon import dmpgen, gen
from mon.gen import chance, choice

RULE = ("A case is one task with random parameters evaluated on several movements (random, passing through the viapoint, as matrix or table), one arm with "
        "random links, one throw of a ball by a random DMP, or one movement under a force field with random gains; the costs and the recorded rollout are "
        "judged from the description of the task and the laws of motion. Distinct by task and movement.")
ASSUMPTIONS = ["the viapoint time and the goal time lie within the movement", "rates of the simulations are those of Euler integration with the given time step",
               "the ball is thrown in a plane"]
QUICK = 2
required = ["total", "labels", "viapoint", "acceleration", "goal", "regularization", "arm", "arm-costs", "arm-rollout", "in-hand", "in-flight", "on-floor", "throw-costs",
            "tracking", "field", "gains", "gain-costs", "untouched"]
LANDED, BALL = -0.3, slice(7, 9)


def parts(mon, task, costs):
    costs = np.asarray(costs, dtype=float)
    mon.ok("labels", costs.ndim == 1 and len(task.get_cost_labels()) == costs.size - 1, "a label for each component of the cost", costs=costs, labels=task.get_cost_labels())
    mon.finite("total", costs)
    mon.close("total", costs[0], np.sum(costs[1:]), 1e-9, 1e-12, "total cost")
    mon.ok("total", np.all(costs >= 0), "costs are not negative", costs=costs)
    return dict(zip(task.get_cost_labels(), costs[1:]))


def passed(ts, ys, via, t_via):
    """Distance to the viapoint, at its time or at the closest moment."""
    d = np.sqrt(np.sum((ys - via) ** 2, axis=1))
    return d[np.flatnonzero(ts >= t_via)[0]] if t_via is not None else d.min()


def viapoint_kwargs(rng, ts, d):
    kw = {}
    if chance(rng, 0.6):
        kw["viapoint_time"] = float(rng.uniform(ts[0], ts[-1]))
        if chance(rng, 0.3):
            kw["viapoint_time"] = float(choice(rng, ts))
    if chance(rng):
        kw["viapoint_radius"] = float(choice(rng, [0.05, 0.5, 2.0]))
    if chance(rng):
        kw["viapoint_weight"] = float(choice(rng, [0.0, 3.0, rng.uniform(0.1, 10)]))
    if chance(rng):
        kw["acceleration_weight"] = float(choice(rng, [0.0, 1.0, rng.uniform(1e-5, 1e-2)]))
    if chance(rng):
        kw["regularization_weight"] = float(choice(rng, [0.0, rng.uniform(0.1, 2)]))
    if chance(rng):
        kw["goal_weight"] = float(choice(rng, [0.0, rng.uniform(0.1, 2)]))
        kw["goal_time"] = float(rng.uniform(ts[0], ts[-1]))
        if chance(rng):
            # a time at which there is a sample, which then counts
            kw["goal_time"] = float(choice(rng, [choice(rng, ts), ts[-1], ts[0]]))
        if chance(rng):
            kw["goal"] = gen.vec(rng, d)
    return kw


def expected(kw, via, ts, ys, ydds, sample):
    w = kw.get("viapoint_weight", 1.0)
    out = {"viapoint": w * max(0.0, passed(ts, ys, via, kw.get("viapoint_time")) - kw.get("viapoint_radius", 0.0))}
    out["acceleration"] = kw.get("acceleration_weight", 0.0001) * float(np.mean(ydds ** 2))
    after = ys[ts >= kw["goal_time"]] if "goal_time" in kw else ys[:0]
    goal = kw.get("goal", np.zeros(len(via)))
    out["goal"] = kw.get("goal_weight", 0.0) * float(np.mean(np.sqrt(np.sum((after - goal) ** 2, axis=1)))) if len(after) else 0.0
    out["regularization"] = kw.get("regularization_weight", 0.0) * float(np.sqrt(np.sum(np.asarray(sample) ** 2)))
    return out


def viapoint(rng, mon):
    d = int(choice(rng, [1, 2, 2, 3]))
    traj = dmpgen.demonstration(rng, n_dims=d, wiggle=1.0)
    ts, via = traj.ts, gen.vec(rng, d, -2, 2)
    kw = viapoint_kwargs(rng, ts, d)
    mon.describe(n_dims=d, viapoint=via, **kw)
    task = TaskViapoint(via.copy(), **kw)
    shapes = []
    for k in range(int(rng.integers(2, 5))):
        how = choice(rng, ["as is", "shifted", "through"])
        ys = traj.ys.copy()
        if how == "shifted":
            ys = ys + gen.vec(rng, d)
        if how == "through":
            # through the viapoint, exactly
            t = kw.get("viapoint_time")
            i = int(rng.integers(len(ts))) if t is None else int(np.flatnonzero(ts >= t)[0])
            ys = ys + (via - ys[i])
        sample = gen.vec(rng, int(rng.integers(1, 8)))
        M = np.column_stack([ts, ys, traj.yds, traj.ydds])
        if chance(rng, 0.4):
            M = np.column_stack([M, rng.normal(size=(len(ts), 2))])
        rollout = M
        if chance(rng, 0.4):
            cols = ["t"] + [f"{v}{i}" for v in ("y", "yd", "ydd") for i in range(d)]
            rollout = pd.DataFrame(M[:, : 1 + 3 * d], columns=cols)
            rollout = rollout[list(rng.permutation(cols))]
        before = rollout.copy()
        costs = task.evaluate_rollout(rollout, sample)
        mon.ok("untouched", np.array_equal(np.asarray(before), np.asarray(rollout)), "the rollout is not changed by its evaluation")
        got, want = parts(mon, task, costs), expected(kw, via, ts, ys, traj.ydds, sample)
        for name in want:
            mon.close(name, got[name], want[name], 1e-9, 1e-10 * gen.scale(ys, via), f"cost for {name} of a movement {how}")
        if how == "through":
            mon.close("viapoint", got["viapoint"], 0.0, 0, 1e-9 * gen.scale(ys, via), "no cost for passing through the viapoint")
        shapes.append((how, type(rollout).__name__))
    mon.nontrivial(d, via, kw, shapes)


def arm(rng, mon):
    D = int(rng.integers(1, 9))
    lengths = choice(rng, [None, None, rng.uniform(0.1, 2.0, D)])
    traj = dmpgen.demonstration(rng, n_dims=D, wiggle=0.5)
    dmp = Dmp.from_traj(traj, [FunctionApproximatorRBFN(int(rng.integers(4, 9)), 0.9) for _ in range(D)])
    dmp.set_selected_param_names(choice(rng, ["weights", ["goal"], ["goal", "weights"]]))
    dt, beyond = float(choice(rng, [0.01, 0.02, 0.05])) * dmp.tau, float(rng.uniform(0.6, 1.8))
    kw = {} if lengths is None else {"link_lengths": choice(rng, [lengths.copy(), lengths.tolist()])}
    mon.describe(n_dofs=D, link_lengths=lengths, dt=dt, beyond=beyond)
    solver = TaskSolverDmpArm2D(dmp, dt, beyond, **kw)
    L = np.full(D, 1.0 / D) if lengths is None else lengths
    for _ in range(2):
        sample = dmp.get_param_vector() * rng.uniform(0.8, 1.2, dmp.get_param_vector_size())
        M = solver.perform_rollout(sample.copy())
        n_cols = 1 + 3 * D + 2 * (D + 1)
        mon.must("arm", M.ndim == 2 and M.shape[1] == n_cols, "columns of the rollout", shape=M.shape)
        ts, links = M[:, 0], M[:, 1 + 3 * D:]
        # the joints move as the DMP with these parameters
        ref = copy.deepcopy(dmp)
        ref.set_param_vector(sample.copy())
        xs, xds, _, _ = ref.analytical_solution(ts.copy())
        own = ref.states_as_trajectory(ts.copy(), xs, xds).as_matrix()
        mon.close("arm-rollout", M[:, : 1 + 3 * D], own[:, : 1 + 3 * D], 1e-9, 1e-9 * gen.scale(own), "joint movement")
        mon.ok("arm-rollout", ts[0] == 0 and abs(ts[-1] - beyond * dmp.tau) < 1e-9 + dt, "duration of the rollout", got=ts[[0, -1]], tau=dmp.tau)
        # forward kinematics
        angle = np.cumsum(M[:, 1:1 + D], axis=1)
        z = np.concatenate((np.zeros((len(ts), 1)), np.cumsum(L * np.exp(1j * angle), axis=1)), axis=1)
        mon.close("arm", links[:, 0::2], z.real, 1e-9, 1e-9 * L.sum(), "horizontal positions of the links")
        mon.close("arm", links[:, 1::2], z.imag, 1e-9, 1e-9 * L.sum(), "vertical positions of the links")
        # the task judges the end effector and the joint accelerations
        via = gen.vec(rng, 2, -1, 1)
        tk = viapoint_kwargs(rng, ts, 2)
        task = TaskViapointArm2D(D, via.copy(), **tk)
        before = M.copy()
        got = parts(mon, task, task.evaluate_rollout(M, sample))
        mon.ok("untouched", np.array_equal(before, M), "the rollout is not changed by its evaluation")
        want = expected(tk, via, ts, np.column_stack((z[:, -1].real, z[:, -1].imag)), M[:, 1 + 2 * D:1 + 3 * D], sample)
        for name in want:
            mon.close("arm-costs", got[name], want[name], 1e-8, 1e-9 * gen.scale(z.real, via), f"cost for {name}")
    angles = rng.uniform(-3, 3, (int(rng.integers(1, 9)), D))
    lk = TaskSolverDmpArm2D.angles_to_link_positions(angles.copy(), L)
    x, y = lk[:, 0::2], lk[:, 1::2]
    mon.close("arm", np.hypot(np.diff(x, axis=1), np.diff(y, axis=1)), np.broadcast_to(L, angles.shape), 1e-9, 1e-9, "lengths of the links")
    mon.nontrivial(D, lengths, traj.ys)


def throwing_dmp(rng):
    """A throwing movement in the plane."""
    T = float(rng.uniform(0.8, 2.0))
    traj = dmpgen.demonstration(rng, n_dims=2, wiggle=0.6, T=T)
    k = rng.uniform(0.1, 0.4, 2)
    traj = Trajectory(traj.ts, k * traj.ys, k * traj.yds, k * traj.ydds)
    return Dmp.from_traj(traj, [FunctionApproximatorRBFN(int(rng.integers(5, 11)), 0.7) for _ in range(2)], dmp_type="KULVICIUS_2012_JOINING")


def ball(rng, mon):
    dmp = throwing_dmp(rng)
    floor = float(choice(rng, [LANDED, rng.uniform(-1.5, -0.2)]))
    mon.describe(tau=dmp.tau, y_init=dmp.y_init, y_attr=dmp.y_attr, floor=floor)
    ref = copy.deepcopy(dmp)
    M = run_python_simulation(dmp, **({} if floor == LANDED else {"y_floor": floor}))
    ts, hand, b = M[:, 0], M[:, 1:7], M[:, BALL]
    dt = 0.01
    mon.must("in-hand", M.shape[1] == 9 and np.allclose(np.diff(ts), dt) and ts[0] == 0, "one row every 10 ms", shape=M.shape)
    # the hand is moved by the DMP, whatever the ball does
    x, xd = ref.integrate_start()
    rows = [np.concatenate(ref.states_as_pos_vel_acc(x, xd), axis=None)]
    for _ in ts[1:]:
        x, xd = ref.integrate_step(dt, x)
        rows.append(np.concatenate(ref.states_as_pos_vel_acc(x, xd), axis=None))
    mon.close("in-hand", hand, np.array(rows), 1e-9, 1e-9 * gen.scale(rows), "movement of the hand")
    released = 61 if ts[60] <= 0.6 else 60
    release_laws(mon, ts, hand[:, 0:2], hand[:, 2:4], b, floor, dt, released)
    judge_throw(rng, mon, M)
    mon.nontrivial(dmp.tau, dmp.y_attr, floor)


def release_laws(mon, ts, y, yd, b, floor, dt, k, every=True):
    """In the hand up to sample k, from then on falling freely to the floor, where it stays."""
    k = min(k, len(ts) - 1)
    mon.close("in-hand", b[: k + 1], y[: k + 1], 0, 1e-9 * gen.scale(y), "the ball is in the hand until it is released")
    if k + 1 >= len(ts):
        return
    v = yd[k].copy()
    p = b[k].copy()
    landed = False
    for i in range(k + 1, len(ts)):
        if landed:
            mon.close("on-floor", b[i], p, 0, 1e-9, "the ball stays where it landed")
            continue
        v = v + dt * np.array([0.0, -9.81])
        p = p + dt * v
        if p[1] < floor:
            p[1] = floor
            landed = True
        mon.close("on-floor" if landed else "in-flight", b[i], p, 0, 1e-8 * gen.scale(p, y), "free fall of the ball", i=i)


def judge_throw(rng, mon, M):
    goal, margin = float(rng.uniform(-2, 2)), float(choice(rng, [0.0, 0.01, 1.0]))
    w = float(choice(rng, [0.0, 0.001, 1.0]))
    task = TaskThrowBall(goal, margin, LANDED, w) if w else TaskThrowBall(x_goal=goal, x_margin=margin, y_floor=LANDED, acceleration_weight=w)
    before = M.copy()
    got = parts(mon, task, task.evaluate_rollout(M, np.zeros(3)))
    mon.ok("untouched", np.array_equal(before, M), "the rollout is not changed by its evaluation")
    mon.close("throw-costs", got["landing site"], max(0.0, abs(M[-1, 7] - goal) - margin), 1e-9, 1e-12, "cost of the landing site")
    mon.close("throw-costs", got["acceleration"], w * np.sum(M[:, 5:7] ** 2) / len(M), 1e-9, 1e-12, "cost of the accelerations")
    inside = TaskThrowBall(float(M[-1, 7] + choice(rng, [-0.5, 0.5]) * 0.2), 0.11, LANDED, 0.0)
    mon.ok("throw-costs", inside.evaluate_rollout(M, None)[0] == 0.0, "a ball in the margin is free of cost")


def scheduled(rng, d, level):
    T = float(rng.uniform(0.5, 2.0))
    traj = dmpgen.demonstration(rng, n_dims=d, wiggle=0.5, T=T)
    s = np.full((traj.length, d), float(level)) if chance(rng) else level * rng.uniform(0.6, 1.4, d) * (1 + 0.3 * np.sin(np.outer(traj.ts / T * 3, np.ones(d))))
    traj.misc = s
    fas = [[FunctionApproximatorRBFN(int(rng.integers(5, 9)), 0.9) for _ in range(d)] for _ in range(2)]
    return DmpWithSchedules.from_traj_sched(traj, fas[0], fas[1], min_schedules=1.0, max_schedules=4000.0), traj


def field(rng, mon):
    d = int(choice(rng, [1, 1, 2]))
    level = float(choice(rng, [10.0, 50.0, 250.0]))
    dmp, traj = scheduled(rng, d, level)
    n = int(rng.integers(60, 200))
    strength = float(choice(rng, [0.0, -20.0, 20.0, rng.uniform(-50, 50)]))
    T, peak = float(rng.uniform(1.0, 1.5)) * dmp.tau, float(rng.uniform(0.2, 0.8)) * dmp.tau
    mon.describe(n_dims=d, gains=level, n=n, strength=strength, T=T, peak=peak)
    ref = copy.deepcopy(dmp)
    r = force_field_simulator.perform_rollout(dmp, T, n, strength, peak)
    ts, dt = r["ts"], T / (n - 1)
    mon.close("tracking", ts, np.linspace(0, T, n), 1e-12, 1e-12, "times")
    # the reference is the movement of the DMP, with its schedules
    x, xd, s = ref.integrate_start_sched()
    for i in range(n):
        if i:
            x, xd, s = ref.integrate_step_sched(ts[1], x)
        for k, v in enumerate(ref.states_as_pos_vel_acc(x, xd)):
            mon.close("tracking", r[["ys_des", "yds_des", "ydds_des"][k]][i], np.reshape(v, -1), 1e-9, 1e-9 * gen.scale(v), "reference movement", i=i)
        mon.close("gains", r["schedules"][i], np.reshape(s, -1), 1e-9, 1e-12, "gains of the controller", i=i)
    # a force with its mode at the given time
    w2 = 0.05 * peak
    mon.close("field", r["fields"][1:, 0], strength * np.exp(-0.5 * (ts[1:] - peak) ** 2 / w2), 1e-9, 1e-12, "force field")
    # the movement is pulled to the reference by gain and damping, and pushed by the field
    y, yd, ydd = r["ys_cur"], r["yds_cur"], r["ydds_cur"]
    g = r["schedules"][1:]
    acc = r["ydds_des"][1:] - g * (y[:-1] - r["ys_des"][1:]) - np.sqrt(g) * (yd[:-1] - r["yds_des"][1:]) + r["fields"][1:]
    mon.close("tracking", ydd[1:], acc, 1e-9, 1e-9 * gen.scale(acc), "accelerations under feedback control and field")
    mon.close("tracking", np.diff(yd, axis=0), dt * ydd[1:], 1e-7, 1e-9 * gen.scale(yd), "velocities")
    mon.close("tracking", np.diff(y, axis=0), dt * yd[1:], 1e-7, 1e-9 * gen.scale(y), "positions")
    for v in ("ys", "yds", "ydds"):
        mon.close("tracking", r[v + "_cur"][0], r[v + "_des"][0], 1e-12, 1e-12, "starts on the reference")
    # what a rollout of the solver and its costs are made of
    beyond, sdt = float(rng.uniform(1.0, 1.5)), 0.02
    solver = TaskSolverDmpWithGainsAndForceField(ref, sdt, beyond, False)
    ref.set_selected_param_names(["weights", "sched_weights"])
    solver._dmp_sched.set_selected_param_names(["weights", "sched_weights"])
    sample = ref.get_param_vector() * rng.uniform(0.9, 1.1, ref.get_param_vector_size())
    M = solver.perform_rollout(sample.copy())
    mon.must("gain-costs", M.shape[1] == 1 + 7 * d, "columns of the rollout", shape=M.shape)
    other = copy.deepcopy(ref)
    other.set_param_vector(sample.copy())
    r2 = force_field_simulator.perform_rollout(other, beyond * ref.tau, len(M), -20.0, 0.5 * ref.tau)
    want = np.column_stack([r2[k] for k in ("ts", "ys_cur", "yds_cur", "ydds_cur", "schedules", "ys_des", "yds_des", "ydds_des")])
    mon.close("gains", M, want, 1e-9, 1e-9 * gen.scale(want), "rollout of the task solver")
    via, t_via = gen.vec(rng, d, -1, 1), float(rng.uniform(0, 1)) * M[-1, 0]
    weights = {k: float(choice(rng, [0.0, rng.uniform(0.1, 3)])) for k in ("viapoint_weight", "acceleration_weight", "gain_weight")}
    lo, hi = 1.0, 4000.0
    task = TaskViapointWithGains(via.reshape(1, d) if d == 1 and chance(rng) else via.copy(), t_via, lo, hi, **weights)
    got = parts(mon, task, task.evaluate_rollout(M, sample))
    mon.close("gain-costs", got["viapoint"], weights["viapoint_weight"] * passed(M[:, 0], M[:, 1:1 + d], via, t_via), 1e-9, 1e-10, "cost of the viapoint")
    mon.close("gain-costs", got["acceleration"], weights["acceleration_weight"] * np.sum(np.abs(M[:, 1 + 2 * d:1 + 3 * d])) / len(M), 1e-9, 1e-10, "cost of accelerations")
    G = M[:, 1 + 3 * d:1 + 4 * d]
    up = M.copy()
    up[:, 1 + 3 * d:1 + 4 * d] += 100.0
    more = parts(mon, task, task.evaluate_rollout(up, sample))
    mon.ok("gain-costs", (more["gains"] > got["gains"]) == (weights["gain_weight"] > 0), "higher gains cost more", low=got, high=more)
    mon.close("gain-costs", more["gains"] - got["gains"], weights["gain_weight"] * 100.0 * d / hi, 1e-6, 1e-9, "cost of gains is relative to the largest gain")
    mon.nontrivial(d, level, n, strength, traj.ys)


def stiff(rng, mon):
    """High gains keep the movement on the reference under a field."""
    d = 1
    dmp, traj = scheduled(rng, d, 10.0)
    strength, peak = float(rng.uniform(5, 20)) * float(choice(rng, [-1, 1])), 0.4 * dmp.tau
    errs = []
    levels = [10.0, 60.0, 360.0]
    for level in levels:
        traj.misc = np.full((traj.length, 1), level)
        one = DmpWithSchedules.from_traj_sched(traj, [FunctionApproximatorRBFN(7, 0.9)], [FunctionApproximatorRBFN(7, 0.9)])
        r = [force_field_simulator.perform_rollout(one, 1.3 * dmp.tau, 1500, k, peak)["ys_cur"] for k in (strength, 0.0)]
        errs.append(float(np.max(np.abs(r[0] - r[1]))))
    mon.describe(levels=levels, deviations=errs, strength=strength)
    mon.ok("tracking", errs[0] > errs[1] > errs[2], "higher gains resist the field better", deviations=errs)
    mon.nontrivial(strength, traj.ys)


FAMILIES = {"viapoint": (viapoint, 300, 6000), "arm": (arm, 60, 900), "ball": (ball, 60, 900), "field": (field, 50, 700), "stiff": (stiff, 10, 100)}
