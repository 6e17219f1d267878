"""C27: plots show what is there, and change nothing."""
import bbo
import c19
import c22
import dmps as M
import dynsys as D
import fas as F
import trajs as J

MC = """SPECIFICATION Spec
CONSTANTS Restores = %s
 Keeps = %s
 Fresh = %s
 Depth = %d
 Generate = %s
CHECK_DEADLOCK FALSE
"""
INV = "INVARIANT DrawsWhatIsThere\nINVARIANT PlotsChangeNothing\nCONSTRAINT Small\n"
WHAT = ["times", "times", "also", "states", "all", "compact", "comparison", "comparison"]


def dmp_plot(r, p, trained):
    w = r.choice(WHAT + ["sched"] * bool(p.get("sched")))
    times = None if trained and r.random() < 0.3 and w not in ("states", "all", "sched") else M.times(r, p, 6)
    return ["plot", w, times, r.choice([0, 0, 1, 2, 3]) if w == "comparison" else 0]


def fa_plot(r, p):
    how = dict(ax=r.random() < 0.5)
    if r.random() < 0.3:
        how["plot_residuals"] = False
    if r.random() < 0.4:
        how["plot_model_parameters"] = True
    if r.random() < 0.3:
        return ["plot", None, None, False, how]
    xs = F.predict(r, p)[1][: r.choice([3, 8, 30])]
    xs = xs if len(xs) > 1 else xs + [[x + 0.5 for x in xs[0]]]
    if r.random() < 0.3:      # many, in any order, some of them twice
        xs = [[r.uniform(*b) for b in p["box"]] for _ in range(r.choice([12, 40, 60]))]
        xs += r.sample(xs, 3)
    ys = [r.uniform(-3, 3) for _ in xs] if r.random() < 0.5 else None
    return ["plot", xs, ys, r.random() < 0.5, how]


def check(ctx):
    r = ctx.rng
    ctx.mc("PlotMC", MC % ("TRUE", "TRUE", "TRUE", 0, "FALSE") + INV, what="changing and drawing in any order")
    for i, (what, inv) in enumerate([("plots that leave a changed object behind", "Invariant PlotsChange"), ("plots that remove what is in the axes", "Invariant Draws"),
                                     ("plots of an earlier value", "Invariant Draws")]):
        ctx.mc("PlotMC", MC % (*["FALSE" if i == j else "TRUE" for j in range(3)], 0, "FALSE") + INV, expect_error=inv, what=what)
    hs = ctx.generate("PlotMC", MC % ("TRUE", "TRUE", "TRUE", ctx.n(4, 5), "TRUE") + "INVARIANT Emit\nCONSTRAINT Bound\n")
    hs = [["change" if c.startswith("change") else c for c in h] for h in hs if {"plot", "plotfor"} & set(h)]
    some = lambda k: [r.choice(hs) for _ in range(k)]

    progs = []
    for i in range(ctx.n(60, 500)):
        ops = J.starts(r)
        for c in r.choice(hs):
            k = r.randrange(2)
            ops.append(["plot", k, r.choice([0, 1, 2, 3, 4])] if c.startswith("plot") else ["read", k] if c == "query" else
                       J.edit(r, r.choice(["crop", "croptime", "append", "padfront", "zero", "misc"])))
        progs.append(dict(name=f"trajectory-{i}", ops=ops + [["plot", 0, 0], ["plot", 1, 3], ["read", 0], ["read", 1]]))
    traces = [t for t in ctx.drive("drv_traj.py", progs) if t]
    ctx.validate("TrajectoryTrace", traces)

    progs = []
    for i, h in enumerate(some(ctx.n(60, 500))):
        p = D.system(r, D.KINDS[i % 6], f"system-{i}-" + "-".join(h))
        pl = lambda: ["plot", D.times(r, p), r.random() < 0.5, r.choice([0, 1, 2] + [3] * (p["kind"] == "spring"))]
        p["ops"] = sum([[pl()] if c.startswith("plot") else c22.system(r, p, c) for c in h], []) + [pl(), ["mutate"], ["read"], ["start", None]] + c22.system(r, p, "query")
        progs.append(p)
    traces = [t for t in ctx.drive("drv_dynsys.py", progs) if t]
    ctx.validate("DynSysTrace", traces)

    progs = []
    for i, h in enumerate(some(ctx.n(100, 900))):
        p = F.program(r, F.KINDS[i % 4], f"approximator-{i}-" + "-".join(h))
        p["save"] = [r.random() < 0.5 for _ in range(3)]
        p["ops"] = [F.train(r, p)] * (r.random() < 0.9)
        for c in h:
            p["ops"] += [fa_plot(r, p)] if c.startswith("plot") else [["mutate"]] * (r.random() < 0.5) + c22.approximator(r, p, c)
        p["ops"] += [["mutate"], fa_plot(r, p), F.predict(r, p), ["read"]]
        progs.append(p)
    traces = [t for t in ctx.drive("drv_fa.py", progs) if t]
    ctx.validate("FATrace", traces)

    progs = []
    for i, h in enumerate(some(ctx.n(110, 1000))):
        p = M.dmp(r, f"dmp-{i}-" + "-".join(h), type_=M.TYPES[i % len(M.TYPES)])
        sched = r.random() < 0.2
        if sched:
            M.schedules(r, p)
        trained = r.random() < 0.6
        p["ops"] = [M.train(r, p)] * trained
        for c in h:
            p["ops"] += [dmp_plot(r, p, trained)] if c.startswith("plot") else c22.dmp(r, p, c, sched)
        p["ops"] += [dmp_plot(r, p, trained), ["mutate"]] + c22.dmp(r, p, "query", sched)
        progs.append(p)
    dmps = [t for t in ctx.drive("drv_dmp.py", progs) if t]
    ctx.validate("DmpTrace", dmps)

    progs = []
    for i in range(ctx.n(30, 300)):
        p = c19.program(r, f"contextual-{i}", M.TYPES[i % len(M.TYPES)])
        for _ in range(r.choice([0, 1, 2])):
            p["ops"] += c22.context(r, p, r.choice(["change", "select", "query"]))
        last = [c[1] for c in p["ops"] if c[0] == "ctrain"][-1]
        p["ops"] += [["pplot", r.random() < 0.4], ["cplot", r.sample(last["demos"], r.choice([1, 2, 3])), r.random() < 0.5, r.random() < 0.5]]
        progs.append(p)
    traces = [t for t in ctx.drive("drv_dmp.py", progs) if t]
    ctx.validate("ContextTrace", traces)

    progs = []
    for i in range(ctx.n(40, 400)):
        n = r.choice([1, 2, 2, 3])
        k = r.choice([1, 2, 3, 1, 2, 3, 1, 2, 3, 8])
        p = dict(what=["cost", "task", "manual"][i % 3], name=f"run-{i}", dist=bbo.dist(r, n), updater=bbo.updater(r, n), seed=r.randint(0, 10**6),
                 n=r.choice([1, 2, 3, 5]) if i % 10 else 22, m=r.choice([2, 3, 7]), comps=k, form=r.choice(["list", "array"]), evals=r.random() < 0.5,
                 cls=r.choice(["task", "plain"]), plots=True, labels=[f"cost {j}" for j in range(1, k)] if r.random() < 0.7 else None)
        if i % 2 == 0:
            p["dir"] = str(ctx.scratch / f"run{i}")
        progs.append(p)
    traces = [t for t in ctx.drive("drv_optim.py", progs) if t]
    ctx.validate("OptimTrace", traces, "CONSTANT Mean <- MeanOfRec\n")

    def corrupt(t):
        e = next(e for e in t["ev"] if e["op"] == "plot" and e["out"] == "ok" and len(e["ts"]) > 2)
        y = e["lines"][-1]["y"]
        y[1] += 1e-6 * (1 + max(abs(x) for x in y))
    ctx.binding_demo("DmpTrace", dmps, corrupt)
