"""C17 Generated trajectories meet their boundary conditions."""
import numpy as np

from dmpbbo.dmps.Trajectory import Trajectory
from mon import gen

RULE = ("A case is a time vector (any start, duration 0.05-50, uniform or not, down to two samples), 1-5 dimensions, "
        "boundary positions, velocities and accelerations, or a viapoint with velocity and acceleration. Non-trivial if "
        "start and end differ, or a boundary velocity or acceleration is not zero. Distinct by parameters.")
ASSUMPTIONS = ["the viapoint lies strictly inside the time range; between two samples it is attributed to the later one"]
required = ["boundary", "derivatives", "straight", "monotone", "peak-velocity", "viapoint", "rest-at-ends", "quintic", "arguments-untouched"]


def axis(rng, n=None):
    n = n or int(gen.choice(rng, [2, 3, 5, 11, 101, int(rng.integers(2, 300))]))
    T = float(gen.choice(rng, [1.0, 0.05, 0.5, 2.0, 50.0, rng.uniform(0.1, 10)]))
    t0 = float(gen.choice(rng, [0.0, 0.0, 1.0, -3.0, rng.uniform(-20, 20)]))
    ts = np.linspace(0, T, n)
    if n > 2 and gen.chance(rng, 0.4):
        ts = np.concatenate(([0.0], np.sort(rng.uniform(0.001, 0.999, n - 2)) * T, [T]))
        ts = np.maximum.accumulate(ts + np.arange(n) * 1e-6 * T)
    return ts + t0


def dense(ts, n=2001):
    """The same range sampled finely (the polynomial does not depend on the samples)."""
    return np.linspace(ts[0], ts[-1], n)


def hermite(mon, t, what):
    """Positions, velocities and accelerations belong together: corrected trapezoid over each step."""
    h = np.diff(t.ts)[:, None]
    T = t.ts[-1] - t.ts[0]
    sy = gen.scale(t.ys, T * t.yds, T * T * t.ydds)
    e = np.diff(t.ys, axis=0) - h / 2 * (t.yds[1:] + t.yds[:-1]) - h * h / 12 * (t.ydds[:-1] - t.ydds[1:])
    mon.ok("derivatives", np.all(np.abs(e) <= 60 * sy * (h / T) ** 5 + 1e-10 * sy), f"{what}: velocities are not the derivative of positions", worst=np.max(np.abs(e)), scale=sy)
    sv = sy / T
    e = np.diff(t.yds, axis=0) - h / 2 * (t.ydds[1:] + t.ydds[:-1])
    mon.ok("derivatives", np.all(np.abs(e) <= 200 * sv * (h / T) ** 3 + 1e-10 * sv), f"{what}: accelerations are not the derivative of velocities", worst=np.max(np.abs(e)), scale=sv)


def boundary(rng, D, scale=1.0):
    kind = gen.choice(rng, ["zero", "random", "random", "random"])
    if kind == "zero":
        return np.zeros(D)
    return rng.normal(size=D) * scale


def polynomial(rng, mon):
    D = gen.dims(rng, 2)
    ts = axis(rng)
    T = ts[-1] - ts[0]
    y0, y1 = gen.vec(rng, D), gen.vec(rng, D)
    if gen.chance(rng, 0.1):
        y1 = y0.copy()
    if gen.chance(rng, 0.1):
        y0, y1 = np.arange(D), np.arange(D)[::-1].copy() + 1  # integers
    v0, v1 = boundary(rng, D, 2 / T), boundary(rng, D, 2 / T)
    a0, a1 = boundary(rng, D, 5 / T ** 2), boundary(rng, D, 5 / T ** 2)
    mon.describe(D=D, n=ts.size, T=T, t0=ts[0], y_from=y0, y_to=y1, yd_from=v0, yd_to=v1, ydd_from=a0, ydd_to=a1)
    with mon.untouched("arguments-untouched", ts, y0, v0, a0, y1, v1, a1):
        t = Trajectory.from_polynomial(ts, y0, v0, a0, y1, v1, a1)
    mon.equal("times", t.ts, ts, "times")
    mon.must("shape", t.ys.shape == (ts.size, D) == t.yds.shape == t.ydds.shape, "shape")
    s = gen.scale(y0, y1, T * v0, T * v1, T * T * a0, T * T * a1)
    for i, y, v, a in ((0, y0, v0, a0), (-1, y1, v1, a1)):
        mon.close("boundary", t.ys[i], y, rtol=0, atol=1e-11 * s, msg=f"position at sample {i}")
        mon.close("boundary", t.yds[i], v, rtol=0, atol=1e-10 * s / T, msg=f"velocity at sample {i}")
        mon.close("boundary", t.ydds[i], a, rtol=0, atol=1e-9 * s / T ** 2, msg=f"acceleration at sample {i}")
    u = Trajectory.from_polynomial(dense(ts), y0, v0, a0, y1, v1, a1)
    hermite(mon, u, "polynomial")
    # at any time the same, whatever the other samples are: fit through the dense one is a quintic
    z = np.linspace(-1, 1, u.length)
    for d in range(D):
        c = np.polynomial.polynomial.polyfit(z, u.ys[:, d], 5)
        mon.close("quintic", np.polynomial.polynomial.polyval(z, c), u.ys[:, d], rtol=0, atol=1e-8 * s, msg="positions are not a quintic")
        zz = 2 * (ts - ts[0]) / T - 1
        mon.close("quintic", t.ys[:, d], np.polynomial.polynomial.polyval(zz, c), rtol=0, atol=1e-8 * s, msg="positions depend on the other samples")
        mon.close("quintic", t.yds[:, d], np.polynomial.polynomial.polyval(zz, np.polynomial.polynomial.polyder(c)) * 2 / T, rtol=0, atol=1e-7 * s / T, msg="velocities")
        mon.close("quintic", t.ydds[:, d], np.polynomial.polynomial.polyval(zz, np.polynomial.polynomial.polyder(c, 2)) * 4 / T ** 2, rtol=0, atol=1e-6 * s / T ** 2, msg="accelerations")
    if not np.array_equal(y0, y1) or np.any(v0) or np.any(a0) or np.any(v1) or np.any(a1):
        mon.nontrivial(D, ts[:5], y0, v0, a0, y1, v1, a1)


def min_jerk(rng, mon):
    D = gen.dims(rng, 2)
    ts = axis(rng)
    T = ts[-1] - ts[0]
    y0 = gen.vec(rng, D)
    y1 = gen.vec(rng, D) if gen.chance(rng, 0.9) else y0.copy()
    if gen.chance(rng, 0.1):
        y0, y1 = np.arange(D), np.arange(D)[::-1].copy() + 1
    mon.describe(D=D, n=ts.size, T=T, t0=ts[0], y_from=y0, y_to=y1)
    with mon.untouched("arguments-untouched", ts, y0, y1):
        t = Trajectory.from_min_jerk(ts, y0, y1)
    mon.equal("times", t.ts, ts, "times")
    mon.must("shape", t.ys.shape == (ts.size, D) == t.yds.shape == t.ydds.shape, "shape")
    A = np.asarray(y1, float) - y0
    s = gen.scale(y0, y1)
    mon.close("boundary", t.ys[0], y0, rtol=0, atol=1e-12 * s, msg="first position")
    mon.close("boundary", t.ys[-1], y1, rtol=0, atol=1e-11 * s, msg="last position")
    for i in (0, -1):
        mon.close("rest-at-ends", t.yds[i], np.zeros(D), rtol=0, atol=1e-10 * s / T, msg=f"velocity at sample {i}")
        mon.close("rest-at-ends", t.ydds[i], np.zeros(D), rtol=0, atol=1e-9 * s / T ** 2, msg=f"acceleration at sample {i}")
    u = Trajectory.from_min_jerk(dense(ts), y0, y1)
    hermite(mon, u, "minimum jerk")
    # progress is the same in all dimensions, and never goes back
    z = (t.ts - t.ts[0]) / T
    for d in range(D):
        if A[d] == 0:
            mon.close("straight", t.ys[:, d], np.full(ts.size, y0[d]), rtol=0, atol=1e-12 * s, msg="dimension that does not move")
            continue
        p = (t.ys[:, d] - y0[d]) / A[d]
        tol = 1e-11 * s / abs(A[d])
        mon.ok("monotone", np.all(np.diff(p) >= -tol) and np.all(p >= -tol) and np.all(p <= 1 + tol), "goes back", progress=p)
        mon.ok("monotone", np.all(t.yds[:, d] * np.sign(A[d]) >= -1e-9 * s / T), "velocity against the direction of movement")
        ref = np.flatnonzero(A)[0]
        q = (t.ys[:, ref] - y0[ref]) / A[ref]
        mon.close("straight", p, q, rtol=0, atol=2 * tol + 2e-11 * s / abs(A[ref]), msg="not a straight line")
        # the minimum-jerk profile: jerk-optimal, symmetric, fastest halfway
        mon.close("min-jerk", p, z ** 3 * (10 - 15 * z + 6 * z * z), rtol=0, atol=1e-9 + 2 * tol, msg="profile")
        up = (u.ys[:, d] - y0[d]) / A[d]
        mon.close("straight", up + up[::-1], np.ones(u.length), rtol=0, atol=1e-9 + 4 * tol, msg="not symmetric")
        v = np.abs(u.yds[:, d])
        mon.ok("peak-velocity", np.argmax(v) == u.length // 2 or v[u.length // 2] >= v.max() * (1 - 1e-9), "peak velocity is not halfway", at=int(np.argmax(v)))
        mon.close("peak-velocity", v.max(), 1.875 * abs(A[d]) / T, rtol=1e-9, atol=1e-9 * s / T, msg="peak velocity")
    if np.any(A):
        mon.nontrivial(D, ts[:5], y0, y1)


def viapoint(rng, mon):
    D = gen.dims(rng, 2)
    ts = axis(rng, n=int(gen.choice(rng, [3, 4, 11, 101, int(rng.integers(3, 200))])))
    n = ts.size
    T = ts[-1] - ts[0]
    k = int(rng.integers(1, n - 1))
    y0, y1, yv = gen.vec(rng, D), gen.vec(rng, D), gen.vec(rng, D)
    vv, av = boundary(rng, D, 2 / T), boundary(rng, D, 5 / T ** 2)
    via = np.concatenate((yv, vv, av))
    time = float(ts[k])
    if gen.chance(rng, 0.3):
        time = float(ts[k] - rng.uniform(0.1, 0.9) * (ts[k] - ts[k - 1]))
    mon.describe(D=D, n=n, T=T, t0=ts[0], y_from=y0, y_to=y1, via=via, time=time, sample=k)
    with mon.untouched("arguments-untouched", ts, y0, y1, via):
        t = Trajectory.from_viapoint_polynomial(ts, y0, via, time, y1)
    mon.must("shape", t.ys.shape == (n, D) == t.yds.shape == t.ydds.shape, "shape", got=t.ys.shape)
    mon.close("times", t.ts, ts, rtol=0, atol=1e-12 * gen.scale(ts), msg="times")
    s = gen.scale(y0, y1, yv, T * vv, T * T * av)
    T1 = min(ts[k] - ts[0], ts[-1] - ts[k])
    mon.close("boundary", t.ys[0], y0, rtol=0, atol=1e-11 * s, msg="first position")
    mon.close("boundary", t.ys[-1], y1, rtol=0, atol=1e-10 * s, msg="last position")
    for i in (0, -1):
        mon.close("rest-at-ends", t.yds[i], np.zeros(D), rtol=0, atol=1e-9 * s / T1, msg=f"velocity at sample {i}")
        mon.close("rest-at-ends", t.ydds[i], np.zeros(D), rtol=0, atol=1e-8 * s / T1 ** 2, msg=f"acceleration at sample {i}")
    mon.close("viapoint", t.ys[k], yv, rtol=0, atol=1e-10 * s, msg="position at the viapoint")
    mon.close("viapoint", t.yds[k], vv, rtol=0, atol=1e-9 * s / T1, msg="velocity at the viapoint")
    mon.close("viapoint", t.ydds[k], av, rtol=0, atol=1e-8 * s / T1 ** 2, msg="acceleration at the viapoint")
    # sampled finely, with the viapoint in its place
    a, b = np.linspace(ts[0], ts[k], 600), np.linspace(ts[k], ts[-1], 600)
    u = Trajectory.from_viapoint_polynomial(np.concatenate((a, b[1:])), y0, via, float(ts[k]), y1)
    for part, w in ((slice(0, 600), "before"), (slice(599, None), "after")):
        hermite(mon, Trajectory(u.ts[part], u.ys[part], u.yds[part], u.ydds[part]), f"{w} the viapoint")
    mon.close("viapoint", u.ys[599], yv, rtol=0, atol=1e-10 * s, msg="position at the viapoint, sampled finely")
    mon.nontrivial(D, ts[:5], y0, via, time, y1)


FAMILIES = {"polynomial": (polynomial, 800, 15000), "min_jerk": (min_jerk, 800, 15000), "viapoint": (viapoint, 800, 15000)}
