"""C28 The real-time functions of the C++ code allocate no memory."""
import numpy as np

from mon import cpp, dmpgen, gen
from mon.gen import chance, choice

RULE = ("A case is a set of systems, DMPs and approximators (loaded from what Python saved or constructed in C++, up to 12 dimensions and 150 basis "
        "functions) and a random sequence of setters and of real-time calls: steps of each kind, in place or not, from the start and from arbitrary states "
        "(large, infinite, not-a-number), rates of change, single predictions inside and far outside the training range. Each real-time call runs with "
        "malloc, calloc, realloc, aligned allocation and free of the process counted, in an optimized build without assertions and in a debug build with the "
        "real-time checks of the code switched on. Distinct by objects and sequence.")
ASSUMPTIONS = ["starting an integration and converting states are not claimed to be real-time",
               "the caller passes vectors of the right size that it allocated before"]
required = ["no-allocation", "hooks-live", "steps-euler", "steps-rk", "steps-default", "rates", "predictions", "dmp", "first-call"]
VARIANTS = ["release", "debug"]
CASE_TIMEOUT = 200


def setup(ctx):
    cpp.build(ctx, VARIANTS)


def hostile(rng, x):
    x = x.copy()
    k = choice(rng, ["ok", "ok", "ok", "huge", "inf", "nan", "zero", "negative"])
    i = int(rng.integers(x.size))
    if k == "huge":
        x *= 1e200
    elif k == "inf":
        x[i] = np.inf * choice(rng, [1, -1])
    elif k == "nan":
        x[i] = np.nan
    elif k == "zero":
        x[:] = 0
    elif k == "negative":
        x = -np.abs(x)
    return x


def as_json(a):
    # not-a-number and infinities are no JSON numbers
    return np.where(np.isfinite(a), a, np.where(np.isnan(a), 0.0, np.sign(a) * 1e308))


def rt_ops(rng, job, sid, dim, tau, plan, names, can_change):
    for _ in range(int(rng.integers(2, 7))):
        if chance(rng, 0.3):
            can_change()
        k = choice(rng, ["euler", "rk", "default", "diff"])
        if k == "diff":
            X = np.array([hostile(rng, rng.normal(size=dim)) for _ in range(int(rng.integers(1, 6)))])
            plan.append((job.op("diff", sid, x=as_json(X)), ["rates"] + names))
        else:
            m = int(rng.integers(1, 60))
            kw = {"x0": as_json(hostile(rng, rng.normal(size=dim)))} if chance(rng, 0.4) else {}
            dts = tau * rng.uniform(0.002, 0.1, m) * choice(rng, [1.0, 1.0, 20.0])
            plan.append((job.op("roll", sid, dts=dts, method=k, inplace=chance(rng), **kw), ["steps-" + k] + names))


def judge(mon, job, plan, log):
    plan.append((job.op("hook_selftest", n=int(5)), None))
    for v in VARIANTS:
        outs = job.run(v).outs
        for i, names in plan:
            rt = outs[i]["rt"]
            if names is None:
                mon.must("hooks-live", rt[1] == 3, "the hooks do not see allocations", rt=rt)
                continue
            mon.ok("no-allocation", rt[1] == 0, f"memory was allocated or released in {names}", op=job.ops[i]["op"], id=job.ops[i]["id"],
                   variant=v, calls=rt[0], bad_calls=rt[1], first_bad_call=rt[2], sequence=log[-20:])
            for n in names:
                mon.event(n, int(rt[0]))


def systems(rng, mon):
    job, plan, log = cpp.Job(mon), [], []
    specs = []
    for i in range(int(rng.integers(1, 4))):
        n = int(choice(rng, [1, 2, 3, int(rng.integers(4, 13))]))
        kind = choice(rng, ["exp", "sigmoid", "gating", "spring", "time"])
        spec = gen.system_spec(rng, kind, dim=n if kind not in ("gating", "time") else None, vectors=False, critical=chance(rng))
        ds = gen.build(spec)
        sid = f"s{i}"
        job.load(sid, ds, "ds")
        specs.append(spec)

        def change(sid=sid, ds=ds, kind=kind):
            w = choice(rng, ["tau", "x_init", "attr", "start"])
            if w == "tau":
                job.op("set_tau", sid, value=gen.tau_(rng))
            elif w == "x_init" and kind != "time":
                job.op("set_x_init", sid, value=rng.uniform(0.2, 2, ds.dim_x))
            elif w == "attr" and kind in ("exp", "spring"):
                job.op("set_attr", sid, value=gen.vec(rng, ds.dim_y))
            else:
                job.op("start", sid)
            log.append((sid, w))
        first = len(plan)
        rt_ops(rng, job, sid, ds.dim_x, ds.tau, plan, [kind], change)
        plan[first][1].append("first-call")
    mon.describe(systems=specs)
    judge(mon, job, plan, log)
    mon.nontrivial(specs, log, len(plan))
    job.close()


def dmps(rng, mon):
    job, plan, log = cpp.Job(mon), [], []
    d = int(choice(rng, [1, 2, 3, int(rng.integers(4, 9))]))
    s = dmpgen.cpp_spec(rng, d=d)
    if s["fas"] and chance(rng, 0.15):
        for f in s["fas"]:
            f["spec"]["n_bfs"] = int(rng.integers(50, 150))
            f["x"] = np.linspace(0, 1, 300)
            f["y"] = np.sin(7 * f["x"])
    dmp = dmpgen.dmp_build(s)
    job.load("d", dmp, "dmp")

    def change():
        w = choice(rng, ["tau", "y_init", "attr", "start", "ana"])
        if w == "tau":
            job.op("set_tau", "d", value=gen.tau_(rng))
        elif w == "y_init":
            job.op("set_y_init", "d", value=gen.vec(rng, d))
        elif w == "attr":
            job.op("set_attr", "d", value=gen.vec(rng, d))
        elif w == "start":
            job.op("start", "d")
        else:
            job.op("dmp_ana", "d", ts=np.linspace(0, 1, 5))
        log.append(w)
    rt_ops(rng, job, "d", 3 * d + 2, s["tau"], plan, ["dmp", s["scaling"]], change)
    plan[0][1].append("first-call")
    mon.describe(spec=dmpgen.brief(s))
    judge(mon, job, plan, log)
    mon.nontrivial(dmpgen.brief(s), log, len(plan))
    job.close()


def approximators(rng, mon):
    job, plan, specs = cpp.Job(mon), [], []
    for i in range(int(rng.integers(1, 4))):
        n_in = int(choice(rng, [1, 1, 2, 3]))
        kind = choice(rng, ["rbfn", "lwr"])
        sid = f"f{i}"
        if chance(rng, 0.5):
            spec = dmpgen.fa_spec(rng, kind, n_in)
            fa, _, _ = dmpgen.fa_trained(rng, spec, n_in)
            job.load(sid, fa, "fa")
        else:
            nb = int(choice(rng, [1, 2, int(rng.integers(3, 40)), int(rng.integers(100, 2000))]))
            n_in = int(choice(rng, [n_in, int(rng.integers(4, 12))]))
            spec = {"made": "constructed", "kind": kind, "n_bfs": nb, "n_in": n_in, "asymmetric": chance(rng)}
            kw = {"weights": rng.normal(size=(nb, 1))} if kind == "rbfn" else {
                "slopes": rng.normal(size=(nb, n_in)), "offsets": rng.normal(size=(nb, 1)), "asymmetric": spec["asymmetric"]}
            job.op("new_fa", sid, kind=kind, centers=np.sort(rng.uniform(0, 1, (nb, n_in)), axis=0), widths=rng.uniform(0.05, 0.5, (nb, n_in)), **kw)
        specs.append(spec)
        for _ in range(int(rng.integers(1, 4))):
            X = rng.uniform(-0.2, 1.2, (int(rng.integers(1, 20)), n_in)) * choice(rng, [1.0, 1.0, 100.0, 1e160])
            plan.append((job.op("predict", sid, inputs=X), ["predictions", kind]))
    mon.describe(approximators=specs)
    judge(mon, job, plan, [])
    mon.nontrivial(specs, len(plan))
    job.close()


FAMILIES = {"systems": (systems, 250, 2500), "dmps": (dmps, 250, 2500), "approximators": (approximators, 250, 2500)}
