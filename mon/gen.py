"""Generators shared by the checks. Everything is drawn from the rng of the case."""
import numpy as np

from dmpbbo.dynamicalsystems.DynamicalSystem import DynamicalSystem
from dmpbbo.dynamicalsystems.ExponentialSystem import ExponentialSystem
from dmpbbo.dynamicalsystems.RichardsSystem import RichardsSystem
from dmpbbo.dynamicalsystems.SigmoidSystem import SigmoidSystem
from dmpbbo.dynamicalsystems.SpringDamperSystem import SpringDamperSystem
from dmpbbo.dynamicalsystems.TimeSystem import TimeSystem

KINDS = ["exp", "sigmoid", "gating", "spring", "richards", "time"]


def choice(rng, seq):
    return seq[int(rng.integers(len(seq)))]


def chance(rng, p=0.5):
    return bool(rng.random() < p)


def tau_(rng):
    return float(choice(rng, [1.0, 0.1, 0.37, 0.5, 2.0, 3.3, 10.0, rng.uniform(0.2, 5.0)]))


def vec(rng, n, lo=-3.0, hi=3.0):
    """A vector with the occasional special value."""
    v = rng.uniform(lo, hi, n)
    r = rng.random()
    if r < 0.08:
        v[:] = np.round(v)
    elif r < 0.14:
        v = v * 100.0
    elif r < 0.2:
        v = v * 0.01
    elif r < 0.25 and lo < 0:
        v[int(rng.integers(n))] = 0.0
    return v


def dims(rng, hi=4):
    return int(choice(rng, [1, 1, 2, 2, 3, 4, 5][: hi + 3]))


def per_dim(rng, n, lo, hi, p=0.4):
    """Scalar parameter, or one value per dimension."""
    if n > 0 and chance(rng, p):
        return rng.uniform(lo, hi, n)
    return float(rng.uniform(lo, hi))


def away(rng, x, lo=0.3, hi=4.0):
    """Attractor that differs from x in every dimension."""
    s = np.where(rng.random(x.size) < 0.5, -1.0, 1.0)
    return x + s * rng.uniform(lo, hi, x.size) * np.maximum(1.0, np.abs(x))


def times(rng, tau, n=None, factor=None, uniform=None, start=0.0):
    n = n or int(rng.integers(5, 60))
    factor = factor or float(rng.uniform(0.5, 3.0))
    uniform = chance(rng) if uniform is None else uniform
    if uniform:
        return start + np.linspace(0.0, factor * tau, n)
    steps = rng.uniform(0.2, 1.8, n - 1)
    ts = np.concatenate(([0.0], np.cumsum(steps)))
    return start + ts * (factor * tau / ts[-1])


# --- dynamical systems, described by a spec (a dict of final values) from which a fresh one is built

def system_spec(rng, kind=None, dim=None, vectors=True, critical=True, velocity=True, left=True):
    kind = kind or choice(rng, KINDS)
    n = dim or dims(rng)
    p = 0.4 if vectors else 0.0
    s = {"kind": kind, "tau": tau_(rng)}
    if kind == "exp":
        s["x_init"] = vec(rng, n)
        s["x_attr"] = vec(rng, n)
        s["alpha"] = per_dim(rng, n, 0.5, 20.0, p)
    elif kind == "sigmoid":
        x = rng.uniform(0.2, 3.0, n) * np.where(rng.random(n) < 0.3, -1, 1)
        s["x_init"] = x
        sign = -1.0 if chance(rng, 0.7) else 1.0
        # the rate of a sigmoid is not relative to tau
        s["max_rate"] = per_dim(rng, n, 2.0, 12.0, p)
        s["max_rate"] = sign * s["max_rate"] / s["tau"]
        s["inflection_ratio"] = per_dim(rng, n, 0.2, 1.1, p)
    elif kind == "gating":
        s["ratio"] = float(rng.uniform(0.02, 0.5))
        s["n_dims"] = n
    elif kind == "spring":
        s["y_init"] = vec(rng, n)
        s["y_attr"] = vec(rng, n)
        s["damping"] = per_dim(rng, n, 4.0, 30.0, p)
        s["mass"] = per_dim(rng, n, 0.5, 3.0, p) if chance(rng) else 1.0
        s["spring_constant"] = "CRITICALLY_DAMPED"
        if not critical and chance(rng, 0.6):
            s["spring_constant"] = per_dim(rng, n, 10.0, 200.0, p)
        s["z_init"] = vec(rng, n, -5, 5) if (velocity and chance(rng)) else None
    elif kind == "richards":
        s["x_init"] = vec(rng, n)
        s["x_attr"] = away(rng, s["x_init"])
        s["t_infl_ratio"] = per_dim(rng, n, 0.1, 0.9, p)
        s["alpha"] = per_dim(rng, n, 3.0, 15.0, p)
        s["v"] = per_dim(rng, n, 0.6, 4.0, p)
        if left and chance(rng, 0.3):
            # the asymptote before the movement, otherwise derived from the time of inflection
            s["left_asymp"] = s["x_init"] - np.sign(s["x_attr"] - s["x_init"]) * rng.uniform(0.1, 2.0, n)
            if chance(rng, 0.3):
                # from zero
                side = np.where(chance(rng), 1.0, -1.0)
                s["left_asymp"] = np.zeros(n)
                s["x_init"] = side * rng.uniform(0.1, 1.0, n)
                s["x_attr"] = s["x_init"] + side * rng.uniform(0.3, 2.0, n)
        elif chance(rng, 0.15):
            s["v"] = per_dim(rng, n, 4.0, 15.0, p)
            s["alpha"] = per_dim(rng, n, 2.0, 4.0, p)  # (not too stiff)
    elif kind == "time":
        s["count_down"] = chance(rng)
    if kind in ("exp", "sigmoid"):
        s["lists"] = chance(rng, 0.3)  # parameters per dimension given as lists
    return s


def cp(v):
    return v.copy() if isinstance(v, np.ndarray) else v


def build(s):
    k, tau = s["kind"], s["tau"]
    s = {a: cp(b) for a, b in s.items()}
    if s.get("lists"):
        for a in ("alpha", "max_rate", "inflection_ratio"):
            if isinstance(s.get(a), np.ndarray):
                s[a] = s[a].tolist()
    if k == "exp":
        return ExponentialSystem(tau, s["x_init"], s["x_attr"], s["alpha"])
    if k == "sigmoid":
        return SigmoidSystem(tau, s["x_init"], s["max_rate"], s["inflection_ratio"])
    if k == "gating":
        return SigmoidSystem.for_gating(tau, s["ratio"], s["n_dims"])
    if k == "spring":
        ds = SpringDamperSystem(tau, s["y_init"], s["y_attr"], s["damping"],
                                s["spring_constant"], s["mass"])
        if s.get("z_init") is not None:
            ds.x_init = np.concatenate((s["y_init"], s["z_init"]))
        return ds
    if k == "richards":
        ds = RichardsSystem(tau, s["x_init"], s["x_attr"], s["t_infl_ratio"], s["alpha"], s["v"])
        if s.get("left_asymp") is not None:
            ds.set_left_asymp(s["left_asymp"])
        return ds
    if k == "time":
        # (counts up unless told otherwise)
        return TimeSystem(tau, s["count_down"]) if s["count_down"] else TimeSystem(tau)
    raise KeyError(k)


class UserSystem(DynamicalSystem):
    """A system of a user: xd = A (x - c) + b sin(w x), with a log of the states it was asked for."""

    def __init__(self, tau, x_init, A, c, b):
        super().__init__(1, tau, x_init)
        self.A, self.c, self.b = A, c, b
        self.log = []

    def rhs(self, x):
        return (self.A @ (x - self.c) + self.b * np.sin(x)) / self.tau

    def differential_equation(self, x):
        self.log.append(np.array(x, copy=True))
        return self.rhs(x)

    def analytical_solution(self, ts):
        raise NotImplementedError

    def decouple_parameters(self):
        pass


def system_size(spec):
    for k in ("x_init", "y_init"):
        if k in spec:
            return len(spec[k])
    return spec.get("n_dims", 1)


def scale(*arrays):
    """Magnitude for absolute tolerances."""
    m = [np.max(np.abs(np.asarray(a, dtype=float))) for a in arrays if np.size(a)]
    return max([1.0] + [float(x) for x in m if np.isfinite(x)])
