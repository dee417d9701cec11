"""User code for the optimization workloads: cost functions, tasks, solvers, distributions and updaters
that record what they are called with. They live in a module so that sessions can store and reload them.

LOG is the event log of the case that is running (one case at a time per process).
"""
import copy

import numpy as np

from dmpbbo.bbo.CostFunction import CostFunction
from dmpbbo.bbo.DistributionGaussian import DistributionGaussian
from dmpbbo.bbo.DistributionGaussianBounded import DistributionGaussianBounded
from dmpbbo.bbo.updaters import Updater
from dmpbbo.bbo_of_dmps.Task import Task
from dmpbbo.bbo_of_dmps.TaskSolver import TaskSolver

LOG = []


def log(kind, **kw):
    LOG.append((kind, copy.deepcopy(kw)))


def shaped(total, parts, form):
    """The forms in which users return costs."""
    if form == "float":
        return float(total)
    if form == "numpy":
        return np.float64(total)
    if form == "array1":
        return np.array([total])
    if form == "list":
        return [float(total)] + [float(p) for p in parts]
    return np.concatenate(([total], parts))


class RecCost(CostFunction):
    """Distance to a point; every call costs something different (trial counts the calls)."""

    def __init__(self, point, form="array", labels=None, drift=1e-3):
        self.point, self.form, self.labels, self.drift = point, form, labels, drift
        self.trial = 0

    def evaluate(self, sample):
        self.trial += 1
        dist = float(np.linalg.norm(np.asarray(sample) - self.point))
        reg = 0.01 * float(np.sum(np.abs(sample))) + self.drift * self.trial
        cost = shaped(dist ** 2 + reg, [dist, reg], self.form)
        log("evaluate", sample=sample, cost=cost)
        return cost

    def get_cost_labels(self):
        return copy.copy(self.labels)


class RecTask(Task):
    def __init__(self, point, form="array", labels=None):
        self.point, self.form, self.labels = point, form, labels

    def evaluate_rollout(self, cost_vars, sample):
        v = np.asarray(getattr(cost_vars, "values", cost_vars), dtype=float).reshape(-1)
        a = float(np.mean((v - self.point) ** 2))
        b = 0.01 * float(np.sum(np.abs(sample)))
        cost = shaped(a + 2 * b - 0.3 * a * b, [a, b], self.form)
        log("evaluate", cost_vars=cost_vars, sample=sample, cost=cost)
        return cost

    def get_cost_labels(self):
        return copy.copy(self.labels)


class DrawTask(RecTask):
    """Draws rollouts in its own way."""

    def plot_rollout(self, cost_vars, ax=None):
        v = np.asarray(getattr(cost_vars, "values", cost_vars), dtype=float)
        v = v.reshape(len(v), -1)
        return ax.plot(0.5 * np.arange(len(v)), 1.0 - 2.0 * v), ax


class RecSolver(TaskSolver):
    """Rollouts that differ from call to call, so that each is only good for its own sample."""

    def __init__(self, n_steps, form="matrix"):
        self.n_steps, self.form = n_steps, form
        self.trial = 0

    def perform_rollout(self, sample):
        self.trial += 1
        s = np.asarray(sample, dtype=float)
        t = np.linspace(0, 1, self.n_steps).reshape(-1, 1)
        out = np.cos(t * 3 + s) + 0.01 * self.trial
        if self.form == "vector":
            out = out.sum(axis=1)
        if self.form == "frame":
            import pandas as pd
            out = pd.DataFrame(out, columns=[f"x{i}" for i in range(out.shape[1])])
        log("rollout", sample=sample, cost_vars=out)
        return out


class RecDistribution(DistributionGaussian):
    def __init__(self, mean, covar, uid=0):
        super().__init__(mean, covar)
        self.uid = uid

    def generate_samples(self, n_samples=1):
        x = super().generate_samples(n_samples)
        log("generate", mean=self.mean, covar=self.covar, uid=self.uid, n=n_samples, samples=x)
        return x


class RecDistributionBounded(DistributionGaussianBounded):
    def __init__(self, mean, covar, lower_bound, upper_bound, uid=0):
        super().__init__(mean, covar, lower_bound, upper_bound)
        self.uid = uid

    def generate_samples(self, n_samples=1):
        x = super().generate_samples(n_samples)
        log("generate", mean=self.mean, covar=self.covar, uid=self.uid, n=n_samples, samples=x)
        return x


class RecUpdater(Updater):
    """Wraps an updater of the library; the distributions it returns are numbered."""

    def __init__(self, inner):
        self.inner = inner
        self.count = 0

    def update_distribution(self, distribution, samples, costs):
        new, weights = self.inner.update_distribution(distribution, samples, costs)
        self.count += 1
        if hasattr(distribution, "lower_bound"):
            out = RecDistributionBounded(np.array(new.mean), np.array(new.covar), distribution.lower_bound,
                                         distribution.upper_bound, self.count)
        else:
            out = RecDistribution(np.array(new.mean), np.array(new.covar), self.count)
        log("update", mean=distribution.mean, covar=distribution.covar, uid=distribution.uid, samples=samples, costs=costs,
            new_mean=out.mean, new_covar=out.covar, new_uid=self.count, weights=weights)
        return out, weights


class ViapointTask(Task):
    """Plain task for the workloads that store the task: squared distance to a point half way, and accelerations."""

    def __init__(self, point, n_dims, form="array", labels=None):
        self.point, self.n_dims, self.form, self.labels = point, n_dims, form, labels

    def evaluate_rollout(self, cost_vars, sample):
        m = np.asarray(getattr(cost_vars, "values", cost_vars), dtype=float)
        m = m.reshape(-1, m.shape[-1])
        d = self.n_dims
        y, ydd = m[:, 1:1 + d], m[:, 1 + 2 * d:1 + 3 * d]
        via = float(np.linalg.norm(y[len(y) // 2] - self.point))
        acc = 1e-4 * float(np.mean(np.abs(ydd)))
        reg = 1e-5 * float(np.sum(np.abs(sample)))
        return shaped(via + acc - 0.5 * reg + 0.3 * via ** 2, [via, acc, reg], self.form)  # parts need not add up

    def get_cost_labels(self):
        return copy.copy(self.labels)
