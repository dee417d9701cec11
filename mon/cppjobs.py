"""Random sequences of valid operations on every kind of C++ object."""
import numpy as np

from mon import dmpgen, gen
from mon.gen import chance, choice


class World:
    """What exists in the program, as far as needed to make valid calls."""

    def __init__(self, rng, job):
        self.rng, self.job = rng, job
        self.ds, self.dmp, self.fa, self.traj = {}, {}, {}, {}
        self.n = 0
        self.log = []
        self.files = []

    def name(self, c):
        self.n += 1
        return f"{c}{self.n}"

    # ---------------------------------------------------------------- making objects
    def new_ds(self, kind=None, dim=None, force=False):
        rng = self.rng
        kind = kind or choice(rng, ["exp", "sigmoid", "gating", "spring", "time"])
        spec = gen.system_spec(rng, kind, dim=dim if kind not in ("gating", "time") else None, vectors=False, critical=chance(rng))
        sid = self.name("s")
        n = len(spec.get("x_init", spec.get("y_init", [1])))
        if kind == "gating":
            spec["n_dims"] = n = 1 if dim == 1 else spec["n_dims"]
        if chance(rng) and kind != "gating" and not force:
            if kind == "exp":
                self.job.op("new_exp", sid, tau=spec["tau"], x_init=spec["x_init"], x_attr=spec["x_attr"], alpha=spec["alpha"])
            elif kind == "sigmoid":
                self.job.op("new_sigmoid", sid, tau=spec["tau"], x_init=spec["x_init"], max_rate=spec["max_rate"], ratio=spec["inflection_ratio"])
            elif kind == "time":
                self.job.op("new_time", sid, tau=spec["tau"], count_down=spec["count_down"])
            else:
                kw = {} if chance(rng) else {"spring_constant": float(choice(rng, [-1.0, 50.0, 120.0])), "mass": 1.3}
                self.job.op("new_spring", sid, tau=spec["tau"], y_init=spec["y_init"], y_attr=spec["y_attr"], damping=spec["damping"], **kw)
        else:
            self.job.load(sid, gen.build(spec), "ds")
        self.ds[sid] = {"kind": kind, "n": n, "dim": 2 * n if kind == "spring" else n, "tau": spec["tau"]}
        return sid

    def new_fa(self, n_in=None):
        rng = self.rng
        n_in = n_in or int(choice(rng, [1, 1, 2, 3]))
        kind = choice(rng, ["rbfn", "lwr"])
        sid = self.name("f")
        if chance(rng):
            fa, _, _ = dmpgen.fa_trained(rng, dmpgen.fa_spec(rng, kind, n_in), n_in)
            self.job.load(sid, fa, "fa")
        else:
            nb = int(choice(rng, [1, int(rng.integers(2, 15))]))
            kw = {"weights": rng.normal(size=(nb, 1))} if kind == "rbfn" else {
                "slopes": rng.normal(size=(nb, n_in)), "offsets": rng.normal(size=(nb, 1)), "asymmetric": chance(rng)}
            self.job.op("new_fa", sid, kind=kind, centers=np.sort(rng.uniform(0, 1, (nb, n_in)), axis=0), widths=rng.uniform(0.05, 0.5, (nb, n_in)), **kw)
        self.fa[sid] = {"n_in": n_in}
        return sid

    def new_dmp(self):
        rng, job = self.rng, self.job
        sid = self.name("d")
        if chance(rng):
            s = dmpgen.cpp_spec(rng, d=int(rng.integers(1, 4)))
            d = len(s["y_init"])
            job.load(sid, dmpgen.dmp_build(s), "dmp")
            fas, tau = bool(s["fas"]), s["tau"]
        else:
            d, ctor = int(rng.integers(1, 4)), int(rng.integers(0, 5))
            tau = 1.0 if ctor in (1, 3) else gen.tau_(rng)
            scaling = choice(rng, dmpgen.SCALINGS)
            kw = {"ctor": ctor, "scaling": scaling, "amplitudes": rng.uniform(0.5, 2, d) if scaling == "AMPLITUDE_SCALING" else np.zeros(0),
                  "tau": tau, "y_init": gen.vec(rng, d), "y_attr": gen.vec(rng, d), "alpha": 20.0, "n_dims": d, "fas": []}
            how = choice(rng, ["all", "none", "some"])
            if ctor != 4 and how != "none":
                kw["fas"] = [self.new_fa(1) if how == "all" or chance(rng) else None for _ in range(d)]
                for f in kw["fas"]:
                    self.fa.pop(f, None)
            if ctor in (0, 1, 4) and chance(rng, 0.7):
                kw["goal"] = self.new_ds("exp", d, force=chance(rng))
                self.ds.pop(kw["goal"])
            if ctor in (0, 1):
                for part in ("phase", "gating"):
                    kw[part] = self.new_ds(choice(rng, ["exp", "sigmoid", "time", "gating"]), 1)
                    self.ds.pop(kw[part])
            if ctor in (2, 3):
                kw["dmp_type"] = choice(rng, dmpgen.CPP_TYPES[:3])
            job.op("new_dmp", sid, **kw)
            fas = all(kw["fas"]) and bool(kw["fas"])
        self.dmp[sid] = {"n": d, "dim": 3 * d + 2, "tau": tau, "fas": fas}
        return sid

    def rows(self, T, d):
        return self.rng.normal(size=(T, d))

    def new_traj(self, d=None):
        rng, job = self.rng, self.job
        sid = self.name("t")
        d = d or int(rng.integers(1, 4))
        T = int(rng.integers(3, 25))
        ts = gen.times(rng, gen.tau_(rng), T)
        misc = 0
        k = choice(rng, ["new", "minjerk", "poly", "via", "read"])
        v = lambda: gen.vec(rng, d)  # noqa: E731
        if k == "new":
            misc = int(choice(rng, [0, 1, 3]))
            kw = {"misc": self.rows(T, misc)} if misc else {}
            job.op("traj_new", sid, ts=ts, ys=self.rows(T, d), yds=self.rows(T, d), ydds=self.rows(T, d), **kw)
        elif k == "minjerk":
            job.op("traj_minjerk", sid, ts=ts, **{"from": v(), "to": v()})
        elif k == "poly":
            job.op("traj_poly", sid, ts=ts, y_from=v(), yd_from=v(), ydd_from=v(), y_to=v(), yd_to=v(), ydd_to=v())
        elif k == "via":
            i = int(rng.integers(1, T - 1))
            job.op("traj_via", sid, ts=ts, time=float(ts[i]) - 1e-3 * float(ts[i] - ts[i - 1]), via=rng.uniform(0.5, 1, 3 * d), **{"from": v(), "to": v()})
        else:
            misc = int(choice(rng, [0, 2]))
            f = job.path(sid + ".txt")
            np.savetxt(f, np.hstack((ts.reshape(-1, 1), self.rows(T, 3 * d + misc))))
            job.op("traj_read", sid, file=f, n_misc=misc)
        self.traj[sid] = {"n": d, "T": T, "misc": misc, "t0": float(ts[0]), "t1": float(ts[-1]), "ts": ts, "shared": k == "new" and None}
        return sid

    # ---------------------------------------------------------------- using them
    def use_system(self, sid, s, is_dmp):
        rng, job = self.rng, self.job
        ops = ["tau", "ana", "diff", "start", "roll", "roll", "info", "y_init", "delete"]
        if is_dmp:
            ops += ["dmp_ana", "dmp_ana", "attr", "fa_of", "spring"]
        elif s["kind"] in ("exp", "spring"):
            ops += ["attr", "x_init"]
        elif s["kind"] in ("sigmoid", "gating"):
            ops += ["rate", "x_init"]
        k = choice(rng, ops)
        n, tau = s["n"], s["tau"]
        T = int(rng.integers(1, 30))
        ts = gen.times(rng, tau, max(2, T))
        if k == "tau":
            s["tau"] = gen.tau_(rng)
            job.op("set_tau", sid, value=s["tau"])
        elif k == "ana":
            job.op("ana", sid, ts=ts, **{"pass": choice(rng, ["empty", "transposed", "sized", "other"])})
        elif k == "dmp_ana":
            kw = {"pass": "transposed"} if chance(rng, 0.3) and len(ts) != s["dim"] else {}
            if not kw and chance(rng):
                t = self.name("t")
                kw["save_as"] = t
                self.traj[t] = {"n": n, "T": len(ts), "misc": 0, "t0": float(ts[0]), "t1": float(ts[-1]), "ts": ts, "shared": None}
            job.op("dmp_ana", sid, ts=ts, n_out=int(choice(rng, [2, 3, 4])), **kw)
        elif k == "diff":
            job.op("diff", sid, x=rng.uniform(0, 1, (int(rng.integers(1, 4)), s["dim"])))
        elif k == "start":
            kw = {"y_init": rng.uniform(0.2, 1, n)} if chance(rng) and (is_dmp or s["kind"] != "time") else {}
            job.op("start", sid, **kw)
        elif k == "roll":
            m = int(rng.integers(1, 30))
            kw = {"x0": rng.uniform(0, 1, s["dim"])} if chance(rng, 0.4) else {}
            job.op("roll", sid, dts=tau * rng.uniform(0.005, 0.05, m), method=choice(rng, ["euler", "rk", "default"]), inplace=chance(rng), **kw)
        elif k == "info":
            job.op("info", sid)
        elif k == "y_init":
            if is_dmp or s["kind"] != "time":
                job.op("set_y_init", sid, value=rng.uniform(0.2, 1, n), base=chance(rng))
        elif k == "x_init":
            job.op("set_x_init", sid, value=rng.uniform(0.2, 1, s["dim"]))
        elif k == "attr":
            job.op("set_attr", sid, value=gen.vec(rng, n), as_x=chance(rng))
        elif k == "spring":
            job.op("set_param", sid, name=choice(rng, ["damping", "spring_constant"]), value=float(rng.uniform(10, 200)))
        elif k == "rate":
            job.op("set_param", sid, name="max_rate", value=-float(rng.uniform(3, 10)))
        elif k == "fa_of":
            if s["fas"]:
                job.op("fa_of", sid, dim=int(rng.integers(n)), inputs=rng.uniform(0, 1, (T, 1)))
        elif chance(rng, 0.5):
            job.op("delete", sid)
            (self.dmp if is_dmp else self.ds).pop(sid)
        return k

    def use_fa(self, sid):
        rng, job, f = self.rng, self.job, self.fa[sid]
        k = choice(rng, ["predict", "predict", "print", "delete"])
        if k == "predict":
            kw = {"out_rows": int(rng.integers(1, 20))} if chance(rng) else {}
            job.op("predict", sid, inputs=rng.uniform(-0.5, 1.5, (int(rng.integers(1, 20)), f["n_in"])), **kw)
        elif k == "print":
            job.op("print_fa", sid)
        elif chance(rng):
            job.op("delete", sid)
            self.fa.pop(sid)
        return k

    def use_traj(self, sid):
        rng, job, t = self.rng, self.job, self.traj[sid]
        k = choice(rng, ["info", "info", "misc", "append", "copy", "save", "delete"])
        if k == "info":
            job.op("traj_info", sid)
        elif k == "misc":
            m = int(rng.integers(1, 4))
            job.op("traj_misc", sid, misc=self.rows(t["T"] if chance(rng) else 1, m))
            t["misc"] = m
        elif k == "append":
            # two parts that share the sample at the join
            n, T, U, misc = t["n"], int(rng.integers(1, 9)), int(rng.integers(1, 9)), int(choice(rng, [0, 0, 2]))
            rows = self.rows(T + U - 1, 3 * n + misc)
            ts = np.cumsum(rng.uniform(0.01, 0.1, T + U - 1))
            a, b = self.name("t"), self.name("t")
            for nm, sl in ((a, slice(0, T)), (b, slice(T - 1, None))):
                kw = {"misc": rows[sl, 3 * n:]} if misc else {}
                job.op("traj_new", nm, ts=ts[sl], ys=rows[sl, :n], yds=rows[sl, n:2 * n], ydds=rows[sl, 2 * n:3 * n], **kw)
            job.op("traj_append", a, other=b)
            self.traj[a] = {"n": n, "T": T + U - 1, "misc": misc}
            self.traj[b] = {"n": n, "T": U, "misc": misc}
        elif k == "copy":
            o = self.name("t")
            job.op("traj_copy", sid, other=o)
            self.traj[o] = dict(t)
        elif k == "save":
            f = self.name("file") + ".txt"
            if chance(rng):
                job.op("traj_save", sid, file=job.path(f), overwrite=chance(rng))
            else:
                job.op("traj_save", sid, dir=job.path("sub/dir"), file=f, overwrite=chance(rng))
                f = "sub/dir/" + f
            if chance(rng):
                o = self.name("t")
                job.op("traj_read", o, file=job.path(f), n_misc=t["misc"])
                self.traj[o] = dict(t)
        else:
            job.op("delete", sid)
            self.traj.pop(sid)
        return k

    def other(self):
        rng, job = self.rng, self.job
        k = choice(rng, ["gaussian", "covar", "cosine", "mat", "json", "empty"])
        d, nb, n = int(rng.integers(1, 4)), int(rng.integers(1, 7)), int(rng.integers(1, 12))
        X, mus = rng.uniform(-1, 1, (n, d)), rng.uniform(-1, 1, (nb, d))
        if k == "gaussian":
            job.op("gaussian", mus=mus, sigmas=rng.uniform(0.3, 2, (nb, d)), inputs=X, normalized=chance(rng), asymmetric=chance(rng))
        elif k == "covar":
            job.op("gaussian", mus=mus, covars=[np.eye(d) * rng.uniform(0.5, 2) for _ in range(nb)], priors=rng.uniform(0.2, 1, nb), inputs=X,
                   normalized=chance(rng))
        elif k == "cosine":
            job.op("cosine", freqs=mus, phases=rng.uniform(0, 6, nb), inputs=X)
        elif k == "mat":
            ty = choice(rng, ["double", "int", "vector"])
            f = job.path(self.name("m") + ".txt")
            m = rng.integers(-50, 50, (n, d)) if ty == "int" else X
            job.op("mat_save", m=m, type=ty, file=f, overwrite=chance(rng))
            job.op("mat_load", file=f if chance(rng, 0.9) else f + ".missing", type="int" if ty == "int" else "double")
        elif k == "json":
            job.op("json_matrix", value=choice(rng, [X.tolist(), X[:, 0].tolist(), [X[0].tolist()], []]))
        else:
            t = self.name("t")
            job.op("traj_empty", t)
            job.op("traj_info", t)
        return k

    def step(self):
        rng = self.rng
        total = len(self.ds) + len(self.dmp) + len(self.fa) + len(self.traj)
        if total < 3 or chance(rng, 0.2):
            k = choice(rng, ["ds", "dmp", "dmp", "fa", "traj"])
            self.log.append(("make", {"ds": self.new_ds, "dmp": self.new_dmp, "fa": self.new_fa, "traj": self.new_traj}[k]()))
            return
        k = choice(rng, ["ds", "dmp", "dmp", "fa", "traj", "other"])
        if k == "other":
            self.log.append(("other", self.other()))
            return
        pool = getattr(self, k)
        if not pool:
            return
        sid = choice(rng, sorted(pool))
        self.log.append((sid, {"ds": lambda: self.use_system(sid, self.ds[sid], False), "dmp": lambda: self.use_system(sid, self.dmp[sid], True),
                               "fa": lambda: self.use_fa(sid), "traj": lambda: self.use_traj(sid)}[k]()))
