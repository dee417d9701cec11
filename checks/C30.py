"""C30 C++ trajectories meet their boundary conditions and survive file storage."""
import os

import numpy as np

from dmpbbo.dmps.Trajectory import Trajectory
from mon import cpp, gen
from mon.gen import chance, choice

RULE = ("A case is a set of trajectories generated in C++ (minimum-jerk, polynomial, viapoint; 1 to 5 dimensions; time vectors that need not start at zero or "
        "be uniform), compared with their boundary conditions and with the Python ones; or a sequence of edits (append, miscellaneous variables, copies), "
        "compared with a model of what samples must be there; or files written by C++ or Python in several formats and read back, with and without "
        "permission to overwrite. Distinct by arguments and sequence.")
ASSUMPTIONS = ["viapoints lie strictly between the first and last time", "appended trajectories share the sample at the join, as the code asserts",
               "files hold six decimals when C++ writes them, seven when Python does"]
required = ["min-jerk", "polynomial", "viapoint", "start-condition", "end-condition", "via-condition", "accessors", "appended", "misc", "range",
            "matrix", "file-round-trip", "python-file", "read-by-python", "no-overwrite", "overwrite", "missing-file", "matrix-file", "printed", "empty"]
VARIANTS = ["checked"]


def setup(ctx):
    cpp.build(ctx, VARIANTS)


def times(rng, n=None):
    n = n or int(rng.integers(3, 60))
    return gen.times(rng, gen.tau_(rng), n) + (float(rng.uniform(-3, 3)) if chance(rng, 0.4) else 0.0)


def check_info(mon, key, o, t):
    """The trajectory t is a dict of ts, ys, yds, ydds, misc (None if absent)."""
    T, D = t["ys"].shape
    m = 0 if t["misc"] is None else t["misc"].shape[1]
    mon.ok("accessors", (o["length"], o["dim"], o["dim_misc"]) == (T, D, m), "length and dimensions", got=(o["length"], o["dim"], o["dim_misc"]), want=(T, D, m))
    tol = t.get("tol", 0.0)
    at = {q: max(tol, 1e-10 * gen.scale(t[q]), t.get("round", {}).get(q, 0.0)) for q in ("ts", "ys", "yds", "ydds")}
    mon.close(key, np.asarray(o["ts"]).reshape(-1), t["ts"], 0, at["ts"], "times")
    for q in ("ys", "yds", "ydds"):
        mon.close(key, o[q], t[q], 1e-9 if not tol else 0, at[q], q)
    if m:
        mon.close("misc", o["misc"], t["misc"], 0, max(tol, 1e-12 * gen.scale(t["misc"])), "miscellaneous variables")
    mon.close("accessors", o["duration"], t["ts"][-1] - t["ts"][0], 1e-9, 2 * at["ts"], "duration")
    mon.close("accessors", np.asarray(o["initial_y"]).reshape(-1), t["ys"][0], 1e-9, at["ys"], "first position")
    mon.close("accessors", np.asarray(o["final_y"]).reshape(-1), t["ys"][-1], 1e-9, at["ys"], "last position")
    mon.close("range", np.asarray(o["range"]).reshape(-1), np.ptp(t["ys"], axis=0), 1e-9, 2 * at["ys"], "range of the positions per dimension")
    M = np.column_stack([t["ts"], t["ys"], t["yds"], t["ydds"]] + ([t["misc"]] if m else []))
    mon.close("matrix", o["matrix"], M, 1e-9 if not tol else 0, max(at.values()), "as matrix")
    pr = np.array([[float(x) for x in line.split()] for line in o["printed"].strip().split("\n")])
    # printed with six significant digits
    mon.close("printed", pr, np.asarray(o["matrix"]), 2e-5, 1e-5 * 1e-300, "printed matrix")


def numeric(mon, o, D):
    """Velocities and accelerations are the derivatives of the positions (fine uniform time vectors)."""
    ts = np.asarray(o["ts"]).reshape(-1)
    dt = ts[1] - ts[0]
    for q, r in (("ys", "yds"), ("yds", "ydds")):
        a, b = np.asarray(o[q]), np.asarray(o[r])
        num = (-a[4:] + 8 * a[3:-1] - 8 * a[1:-3] + a[:-4]) / (12 * dt)
        mon.close("derivatives", b[2:-2], num, 1e-5, 1e-4 * gen.scale(b), f"{r} against differences of {q}")


def model(tr, misc=None):
    return {"ts": np.array(tr.ts), "ys": np.array(tr.ys), "yds": np.array(tr.yds), "ydds": np.array(tr.ydds), "misc": misc}


def generated(rng, mon):
    job, plan, args = cpp.Job(mon), [], []
    for i in range(int(rng.integers(2, 7))):
        d, k = int(rng.integers(1, 6)), choice(rng, ["min-jerk", "polynomial", "viapoint"])
        fine = chance(rng, 0.4) and k != "viapoint"
        ts = np.linspace(0, gen.tau_(rng), 201) + float(rng.uniform(-2, 2)) if fine else times(rng)
        amp = float(choice(rng, [1.0, 1.0, 100.0, 0.01]))
        v = lambda: gen.vec(rng, d) * amp * (0.0 if chance(rng, 0.1) else 1.0)  # noqa: E731
        sid, z = f"t{i}", np.zeros(d)
        if k == "min-jerk":
            a, b = v(), v()
            py = Trajectory.from_min_jerk(ts, a, b)
            job.op("traj_minjerk", sid, ts=ts, **{"from": a, "to": b})
            cond = (a, z, z), (b, z, z)
            via = None
        elif k == "polynomial":
            p = [v() for _ in range(6)]
            py = Trajectory.from_polynomial(ts, *[x.copy() for x in p])
            job.op("traj_poly", sid, ts=ts, **dict(zip(("y_from", "yd_from", "ydd_from", "y_to", "yd_to", "ydd_to"), p)))
            cond = tuple(p[:3]), tuple(p[3:])
            via = None
        else:
            a, b = v(), v()
            j = int(rng.integers(1, len(ts) - 1))
            t = float(ts[j]) if chance(rng) else float(ts[j] - rng.uniform(0, 0.99) * (ts[j] - ts[j - 1]))
            w = np.concatenate([v(), v(), v()])
            py = Trajectory.from_viapoint_polynomial(ts, a, w, t, b)
            job.op("traj_via", sid, ts=ts, time=t, via=w, **{"from": a, "to": b})
            cond = (a, z, z), (b, z, z)
            via = j, (w[:d], w[d:2 * d], w[2 * d:])
        m = model(py)
        # rounding errors grow with the steepness of the polynomials
        parts = [ts[-1] - ts[0]] if via is None else [ts[via[0]] - ts[0], ts[-1] - ts[via[0]]]
        big = max(gen.scale(*[np.atleast_1d(q) * max(parts) ** j for j, q in enumerate(c)]) for c in cond + (() if via is None else (via[1],)))
        m["round"] = {q: 1e-12 * big / min(parts) ** j for j, q in enumerate(("ys", "yds", "ydds"))}
        args.append((k, d, len(ts), float(ts[0]), float(ts[-1]), cond, None if via is None else via[0]))
        plan.append((job.op("traj_info", sid), k, m, cond, via, fine))
    mon.describe(trajectories=args)
    outs = job.run("checked").outs
    for i, k, m, cond, via, fine in plan:
        o = outs[i]
        check_info(mon, k, o, m)
        at = [max(1e-10 * gen.scale(m[q]), m["round"][q]) for q in ("ys", "yds", "ydds")]
        for row, c, key in ((0, cond[0], "start-condition"), (-1, cond[1], "end-condition")):
            for q, v, a in zip(("ys", "yds", "ydds"), c, at):
                mon.close(key, np.asarray(o[q])[row], v, 1e-9, a, f"{k}: {q} at the {'start' if row == 0 else 'end'}")
        if via is not None:
            for q, v, a in zip(("ys", "yds", "ydds"), via[1], at):
                mon.close("via-condition", np.asarray(o[q])[via[0]], v, 1e-9, a, f"{q} at the viapoint")
        if fine:
            numeric(mon, o, None)
    mon.nontrivial(args)
    job.close()


def fresh(rng, d, T, misc, t0=0.0):
    t = {"ts": t0 + np.concatenate(([0.0], np.cumsum(rng.uniform(0.01, 0.2, T - 1))))}
    for q in ("ys", "yds", "ydds"):
        t[q] = rng.normal(size=(T, d)) * choice(rng, [1.0, 1.0, 30.0])
    t["misc"] = rng.normal(size=(T, misc)) if misc else None
    return t


def put(job, sid, t):
    kw = {} if t["misc"] is None else {"misc": t["misc"]}
    job.op("traj_new", sid, ts=t["ts"], ys=t["ys"], yds=t["yds"], ydds=t["ydds"], **kw)


def edited(rng, mon):
    job, plan, log = cpp.Job(mon), [], []
    d, misc = int(rng.integers(1, 5)), int(choice(rng, [0, 0, 1, 3]))
    trajs = {"t0": fresh(rng, d, int(rng.integers(1, 20)), misc, float(rng.uniform(-2, 2)))}
    put(job, "t0", trajs["t0"])
    n = 1
    for _ in range(int(rng.integers(3, 12))):
        k = choice(rng, ["append", "append", "misc", "copy", "info"])
        sid = choice(rng, sorted(trajs))
        t = trajs[sid]
        if k == "append":
            m = 0 if t["misc"] is None else t["misc"].shape[1]
            o = fresh(rng, d, int(rng.integers(1, 15)), m, float(t["ts"][-1]))
            o["ts"][0] = t["ts"][-1]
            zero = [q for q in ("ys", "yds", "ydds") if not np.any(t[q][-1])]
            for q in ("ys", "yds", "ydds") + (("misc",) if m else ()):
                o[q][0] = t[q][-1]
            oid = f"t{n}"
            n += 1
            if chance(rng, 0.4):
                # ends at rest: the next join is there
                for q in ("yds", "ydds"):
                    o[q][-1] = 0.0
                if len(o["ts"]) == 1:
                    for q in ("yds", "ydds"):
                        o[q][0] = t[q][-1]
            put(job, oid, o)
            job.op("traj_append", sid, other=oid)
            trajs[sid] = {q: (None if t[q] is None else np.concatenate((t[q], o[q][1:]))) for q in t}
            trajs[oid] = o
            log.append((sid, "append", len(o["ts"]), len(zero)))
        elif k == "misc":
            m = int(rng.integers(1, 4))
            one = chance(rng)
            v = rng.normal(size=(1 if one else len(t["ts"]), m))
            job.op("traj_misc", sid, misc=v)
            trajs[sid] = dict(t, misc=np.tile(v, (len(t["ts"]), 1)) if one else v)
            log.append((sid, "misc", m, one))
        elif k == "copy":
            oid = f"t{n}"
            n += 1
            job.op("traj_copy", sid, other=oid)
            trajs[oid] = {q: None if v is None else v.copy() for q, v in t.items()}
            log.append((sid, "copy", oid))
        else:
            plan.append((job.op("traj_info", sid), dict(trajs[sid])))
    for sid in trajs:
        plan.append((job.op("traj_info", sid), dict(trajs[sid])))
    e = job.op("traj_empty", "e")
    e = job.op("traj_info", "e")
    late = job.op("traj_via", "late", ts=[0.0, 0.5, 1.0], time=1.5, via=np.ones(3 * d), **{"from": np.zeros(d), "to": np.ones(d)})
    late = job.op("traj_info", "late")
    mon.describe(d=d, misc=misc, log=log)
    outs = job.run("checked").outs
    for i, t in plan:
        check_info(mon, "appended", outs[i], t)
    for i in (e, late):
        mon.ok("empty", outs[i]["length"] == 0 and outs[i]["duration"] == 0, "empty trajectory", got=outs[i])
    mon.nontrivial(d, misc, log)
    job.close()


def files(rng, mon):
    job, plan, log = cpp.Job(mon), [], []
    after = []
    for i in range(int(rng.integers(2, 6))):
        d, misc = int(rng.integers(1, 5)), int(choice(rng, [0, 0, 1, 2]))
        t = fresh(rng, d, int(rng.integers(2, 25)), misc, float(rng.uniform(-2, 2)))
        k = choice(rng, ["cpp", "cpp-dir", "python", "full", "spaces"])
        f = job.path(f"f{i}.txt")
        tol = 5.01e-7
        if k in ("cpp", "cpp-dir"):
            put(job, f"t{i}", t)
            kw = {}
            name = f
            if k == "cpp-dir":
                sub = choice(rng, [".", "x", "x/y/z", f"n{i}"])
                kw["dir"] = job.path(sub)
                name = f"f{i}.txt"
                f = job.path(sub + "/" + name)
            plan.append((job.op("traj_save", f"t{i}", file=name, overwrite=chance(rng), **kw), "saved", True))
            if chance(rng, 0.6):
                # once more, something else
                t2 = fresh(rng, d, int(rng.integers(2, 25)), misc)
                put(job, f"u{i}", t2)
                ow = chance(rng)
                plan.append((job.op("traj_save", f"u{i}", file=name, overwrite=ow, **kw), "saved", ow))
                t = t2 if ow else t
                mon.event("overwrite" if ow else "no-overwrite")
                log.append("overwrite" if ow else "no-overwrite")
            after.append((f, t, misc))
        else:
            M = np.column_stack([t["ts"], t["ys"], t["yds"], t["ydds"]] + ([t["misc"]] if misc else []))
            if k == "python":
                Trajectory(t["ts"], t["ys"], t["yds"], t["ydds"], t["misc"]).savetxt(f)
                mon.event("python-file")
                tol = 5.01e-8
            elif k == "full":
                np.savetxt(f, M, fmt=choice(rng, ["%.18e", "%.17g"]))
                tol = 0.0
            else:
                lines = ["   ".join(choice(rng, ["{:.17g}", "{:+.17g}", "{:.17e}"]).format(x) for x in row) for row in M]
                txt = ""
                for line in lines:
                    txt += choice(rng, ["", "", "\n", "   \n", "\n\n"]) + choice(rng, ["", " ", "\t"]) + line + choice(rng, ["", " ", "\t", "\r"]) + "\n"
                txt += choice(rng, ["", "\n", " \n\n"])
                with open(f, "w", newline="") as out:
                    out.write(txt)
                tol = 0.0
        job.op("traj_read", f"r{i}", file=f, n_misc=misc)
        plan.append((job.op("traj_info", f"r{i}"), "info", dict(t, tol=tol)))
        log.append((k, d, misc, len(t["ts"])))
    # plain matrices
    for i in range(int(rng.integers(1, 4))):
        ty = choice(rng, ["double", "int", "vector"])
        r, c = int(rng.integers(1, 12)), int(rng.integers(1, 6))
        m = rng.integers(-500, 500, (r, c)).astype(float) if ty == "int" else rng.normal(size=(r, c)) * choice(rng, [1.0, 1000.0])
        f = job.path(f"m{i}.txt")
        plan.append((job.op("mat_save", m=m, type=ty, file=f, overwrite=False), "saved", True))
        if ty == "vector":
            m = m[:, :1]
        plan.append((job.op("mat_save", m=m + 1, type=ty, file=f, overwrite=False), "saved", False))
        plan.append((job.op("mat_load", file=f, type="int" if ty == "int" else "double"), "matrix", m))
        log.append((ty, r, c))
    plan.append((job.op("mat_load", file=job.path("is/not/there.txt")), "loaded", False))
    job.op("traj_read", "none", file=job.path("is_not_there.txt"))
    plan.append((job.op("traj_info", "none"), "none", None))
    # an empty file is a file
    f = job.path("placeholder.txt")
    open(f, "w").close()
    ow = chance(rng)
    plan.append((job.op("mat_save", m=np.ones((2, 2)), file=f, overwrite=ow), "saved", ow))
    # a directory is in the way
    os.makedirs(job.path("blocked.txt"), exist_ok=True)
    plan.append((job.op("mat_save", m=np.ones((2, 2)), file=job.path("blocked.txt"), overwrite=True), "saved", False))
    mon.describe(log=log)
    outs = job.run("checked").outs
    for i, k, e in plan:
        o = outs[i]
        if k == "info":
            check_info(mon, "file-round-trip", o, e)
        elif k == "saved":
            mon.ok("saved", o["saved"] is e, "returned whether it was saved", got=o["saved"], want=e)
        elif k == "loaded":
            mon.ok("missing-file", o["loaded"] is e, "a missing file cannot be loaded")
        elif k == "none":
            mon.ok("missing-file", o["length"] == 0, "a missing file gives an empty trajectory")
        else:
            mon.ok("matrix-file", o["loaded"], "loaded")
            mon.close("matrix-file", o["m"], e, 0, 5.01e-7, "matrix read back")
    for f, t, misc in after:
        tr = Trajectory.loadtxt(f, misc)
        mon.close("read-by-python", tr.as_matrix() if misc else tr.as_matrix()[:, : 1 + 3 * t["ys"].shape[1]],
                  np.column_stack([t["ts"], t["ys"], t["yds"], t["ydds"]] + ([t["misc"]] if misc else [])), 0, 5.01e-7, "read by Python")
    mon.nontrivial(log)
    job.close()


FAMILIES = {"generated": (generated, 350, 2500), "edited": (edited, 350, 2500), "files": (files, 350, 2500)}
