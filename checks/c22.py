"""C22: saved objects behave the same when loaded."""
import bbo
import c19
import dmps as M
import dynsys as D
import fas as F
import trajs as J

MODES = ["loaded", "loaded", "original", "twice", "for_cpp", "list", "dict", "both", "quiet"]
MC = """SPECIFICATION Spec
CONSTANTS Saved = %s
 Shared = %s
 Depth = %d
 Generate = %s
CHECK_DEADLOCK FALSE
"""
INV = "INVARIANT AnswersAsBefore\n"
ALL = '{"setting", "derived", "selection"}'


def save(r, c="loaded"):
    return ["json", r.choice(MODES) if c == "loaded" else r.choice(["original", "for_cpp"])]


def system(r, p, c):
    if c == "change":
        return [D.change(r, p)]
    if c == "select":      # nothing to select: what a query leaves behind
        return [["start", D.state(r, p["n"]) if p["kind"] != "time" else None]]
    return [["solution", D.times(r, p)], D.step(r, p), ["read"]] if c == "query" else [save(r, c)]


def approximator(r, p, c):
    if c == "change":
        return [r.choice([F.set_(r, p), F.train(r, p)])]
    if c == "select":
        return [F.select(r, p)]
    return [F.predict(r, p), ["get"], ["read"]] if c == "query" else [save(r, c)]


def dmp(r, p, c, sched):
    if c == "change":
        return [r.choice([M.setting(r, p), M.setting(r, p), M.sub_setting(r, p), M.train(r, p, newfas=r.random() < 0.3)] + ([M.set_(r, p)] if p["fas"] else []))]
    if c == "select":
        return [M.select(r, p)] if p["fas"] else []
    if c == "query":
        return [["get"]] * bool(p["fas"]) + [["read"], ["start", None, sched], M.step(r, p, sched), M.solution(r, p, sched, given=r.random() < 0.7 or not p.get("trained"))]
    return [save(r, c)]


def context(r, p, c):
    t = lambda: c19.task(r, p)
    if c == "change":
        return r.choice([[M.setting(r, p)], [["request", t()]], [["ctrain", c19.ctrain(r, p, "again")]]])
    if c == "select":
        return [["start", None, False, t()]]
    if c == "query":
        return [["read"], ["start", None, False, t()], M.step(r, p), ["solution", M.times(r, p, 5), False, False, t()]]
    return [save(r, c)]


def check(ctx):
    r = ctx.rng
    ctx.mc("SaveMC", MC % (ALL, "FALSE", 0, "FALSE") + INV, what="changing, selecting, saving, loading and asking in any order")
    ctx.mc("SaveMC", MC % ('{"setting", "derived"}', "FALSE", 0, "FALSE") + INV, expect_error="Invariant Answers", what="files without the selection")
    ctx.mc("SaveMC", MC % ('{"setting", "selection"}', "FALSE", 0, "FALSE") + INV, expect_error="Invariant Answers", what="files without the prepared constants")
    ctx.mc("SaveMC", MC % (ALL, "TRUE", 0, "FALSE") + INV, expect_error="Invariant Answers", what="loaded objects that share parts with the saved one")
    hs = ctx.generate("SaveMC", MC % (ALL, "FALSE", ctx.n(4, 5), "TRUE") + "INVARIANT Emit\nCONSTRAINT Bound\n")
    hs = [h for h in hs if {"loaded", "original"} & set(h)]
    some = lambda k: [r.choice(hs) for _ in range(k)] if k < len(hs) * 2 else hs * (k // len(hs))

    progs = []
    for i, h in enumerate(some(ctx.n(240, 1500))):
        p = D.system(r, D.KINDS[i % 6], f"system-{i}-" + "-".join(h))
        p["ops"] = sum([system(r, p, c) for c in h], []) + [["mutate"], ["read"], ["start", None], ["step", "default", 0.01 * p["tau"], None]] + system(r, p, "query")
        progs.append(p)
    traces = [t for t in ctx.drive("drv_dynsys.py", progs) if t]
    ctx.validate("DynSysTrace", traces)

    progs = []
    for i, h in enumerate(some(ctx.n(200, 1200))):
        p = F.program(r, F.KINDS[i % 4], f"approximator-{i}-" + "-".join(h))
        ops = [save(r), ["get"]] if r.random() < 0.15 else []
        p["ops"] = ops + [F.train(r, p)] + sum([approximator(r, p, c) for c in h], []) + [["mutate"], F.predict(r, p), ["read"], F.train(r, p), F.predict(r, p)]
        progs.append(p)
    traces = [t for t in ctx.drive("drv_fa.py", progs) if t]
    ctx.validate("FATrace", traces)

    progs = []
    for i, h in enumerate(some(ctx.n(400, 3000))):
        p = M.dmp(r, f"dmp-{i}-" + "-".join(h), type_=M.TYPES[i % len(M.TYPES)])
        sched = r.random() < 0.2
        if sched:
            M.schedules(r, p)
        p["trained"] = r.random() < 0.4
        p["ops"] = [M.train(r, p)] * p["trained"] + sum([dmp(r, p, c, sched) for c in h], []) + [["mutate"]] + dmp(r, p, "query", sched) + [M.integrate(r, p)]
        progs.append(p)
    dmps = [t for t in ctx.drive("drv_dmp.py", progs) if t]
    ctx.validate("DmpTrace", dmps)

    progs = []
    for i, h in enumerate(some(ctx.n(60, 400))):
        p = c19.program(r, f"contextual-{i}-" + "-".join(h), M.TYPES[i % len(M.TYPES)])
        p["ops"] += sum([context(r, p, c) for c in h], []) + context(r, p, "query")
        progs.append(p)
    traces = [t for t in ctx.drive("drv_dmp.py", progs) if t]
    ctx.validate("ContextTrace", traces)

    progs = []
    for i in range(ctx.n(150, 1200)):
        ops = J.starts(r)
        for _ in range(r.randint(2, 6)):
            k = r.randrange(3)
            ops.append(["through", k, "json-" + r.choice(MODES), k] if r.random() < 0.5 else
                       J.edit(r, r.choice(["crop", "croptime", "append", "padfront", "padend", "zero", "misc"])))
        progs.append(dict(name=f"trajectory-{i}", ops=ops + [["read", 0], ["read", 1]]))
    traces = [t for t in ctx.drive("drv_traj.py", progs) if t]
    ctx.validate("TrajectoryTrace", traces)

    progs = []
    for i in range(ctx.n(80, 600)):
        n = r.choice([1, 2, 3])
        d = bbo.dist(r, n, singular=r.random() < 0.1)
        steps = []
        for _ in range(r.randint(1, 3)):
            m = r.choice([1, 2, 3, 5, 10])
            steps.append([bbo.samples(r, d, m), bbo.costs(r, m), r.choice(bbo.FORMS), r.choice(MODES), r.choice(MODES)])
        progs.append(dict(what="update", name=f"chain-{i}", dist=d, updater=bbo.updater(r, n), steps=steps))
    traces = [t for t in ctx.drive("drv_updater.py", progs) if t]
    ctx.validate("UpdaterTrace", traces)

    progs = []
    for i in range(ctx.n(60, 400)):
        n = r.choice([1, 2, 3])
        d = bbo.dist(r, n, singular=r.random() < 0.4)
        progs.append(dict(what="sample", name=f"sample-{i}", dist=d, bounds=[bbo.bounds(r, n, d["mean"]) for _ in range(2)], save=r.choice(MODES),
                          draws=[[r.randint(0, 10**6), [r.choice([1, 3, "default"]), 5]]]))
    traces = [t for t in ctx.drive("drv_sampling.py", progs) if t]
    ctx.validate("SamplingTrace", traces)
    ctx.binding_demo("DmpTrace", dmps, M.corrupt)
