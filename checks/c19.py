"""C19: contextual DMPs are DMPs with the parameters predicted for the task asked for."""
import dmps as M
import dynsys as D

MC = """SPECIFICATION Spec
CONSTANTS Remember = %s
 Shared = %s
 Depth = %d
 Generate = %s
CHECK_DEADLOCK FALSE
"""
INV = "INVARIANT ParametersAreThoseAskedFor\n"


def program(r, name, type_):
    p = M.dmp(r, name, type_=type_, override=False, fa=M.fas(r, f=1.0, size=r.choice([1, 2, 3])))
    n = p["n"] = min(p["n"], 2)
    p["y0"], p["g"] = p["y0"][:n], p["g"][:n]
    p.pop("amps", None)
    p["scaling"] = r.choice(["none", "none", "g"])
    p["fas"].pop("only", None)
    p["dim"] = r.choice([1, 1, 2])
    form = r.choice(["from_trajs", "from_dmp", "train"])
    if form == "from_dmp" and r.random() < 0.4:
        p["override"] = {w: M.sub(r, p, w) for w in r.sample(["spring", "phase", "gating"], 1)}
        p.pop("alpha", None)
    p["ops"] = [["ctrain", ctrain(r, p, form)]]
    return p


def tasks(r, p, k, spread):
    first = [-1 + 2 * i / (k - 1) + r.uniform(-0.1, 0.1) for i in range(k)]
    r.shuffle(first)
    return [[p["off"] + spread * x] + [p["off"] + spread * r.uniform(-1, 1) for _ in range(p["dim"] - 1)] for x in first]


def ctrain(r, p, form):
    kind = r.choice(["rbfn", "lwr", "lwr", "wls", "gpr"])
    k = r.randint(4, 6) if r.random() < 0.97 else 11
    spread = r.choice([1.0, 1.0, 0.01, 30.0])
    p["off"] = 0.0
    if kind in ("rbfn", "gpr") and r.random() < 0.2:      # far from zero, compared to what they differ by
        p["off"], spread = r.choice([100.0, -40.0]), 0.001
    ts = tasks(r, p, k, spread)
    if kind == "wls":
        par = dict(offset=r.random() < 0.8, reg=r.choice([0.0, 0.01]))
    elif kind == "gpr":
        par = dict(maxcov=1.0, lengths=spread * r.uniform(0.15, 0.3))
    else:
        par = dict(ns=[r.choice([1, 2, 2])] if p["dim"] == 1 else [2, 2], height=r.choice([0.5, 0.8]), reg=r.choice([0.01, 0.1]))
    names = [x for x in M.NAMES[p["fas"]["kind"]] if x not in ("widths", "lengths", "inputs", "centers")]
    names = r.sample(names, r.randint(1, len(names)))
    if r.random() < 0.15:
        names = names[:1] + ["centers"] if p["fas"]["kind"] in ("rbfn", "lwr") else names
    goal = r.random() < 0.3
    if goal and r.random() < 0.2:
        names = []
    d0 = M.demo(r, p, samples=r.choice([12, 16]), uniform=True)
    demos = []
    for x in ts:
        d = dict(d0, **{"from": [a + r.choice([0.0, 0.3]) * r.uniform(-1, 1) for a in d0["from"]]})
        u = [(v - p["off"]) / spread for v in x]
        d["to"] = [b + 0.5 * u[0] + 0.1 * u[-1] for b in d0["to"]]
        if r.random() < 0.3:
            c = r.uniform(0.7, 1.3)
            d["ts"], d["T"] = [c * t for t in d["ts"]], c * d["T"]
            d["ts"][0] = 0.0
        demos.append(dict(task=x, demo=d))
    p["tasks"] = ts
    p["spread"] = spread
    return dict(form=form, ppf=dict(kind=kind, par=par), demos=demos, names=names, goal=goal, scalar=r.random() < 0.5,
                str=r.random() < 0.3, list=r.random() < 0.3)


def task(r, p, which=None):
    v = p["tasks"][r.randrange(len(p["tasks"]))] if which is None else which
    if which is None and r.random() < 0.6:
        v = [p["off"] + p["spread"] * r.uniform(-1.3, 1.3) for _ in range(p["dim"])]
    forms = ["vec", "row", "list"] + (["float"] * 2 if p["dim"] == 1 else [])
    return {"v": v, "form": r.choice(forms)}


def ops_of(r, p, x, a, b):
    which = {"A": a, "B": b}.get(x[-1])
    if which is not None:
        t = task(r, p, which)
        how = x[:-1]
        if how == "start":
            return [["start", D.state(r, p["n"]) if r.random() < 0.3 else None, False, t]]
        if how == "solution":
            return [["solution", M.times(r, p, 5), r.random() < 0.2, False, t]]
        return [["request", t]]
    if x == "set":
        return [M.set_(r, p), ["get"]]
    if x == "train":
        return [["ctrain", ctrain(r, p, "again")]]
    if x == "copy":
        return [["copy", r.random() < 0.5]]
    if x == "step":
        return [M.step(r, p)]
    return [M.setting(r, p)] if r.random() < 0.6 else [["mutate"]]


def check(ctx):
    r = ctx.rng
    ctx.mc("ContextMC", MC % ("FALSE", "FALSE", 0, "FALSE") + INV, what="requests, settings and training in any order")
    ctx.mc("ContextMC", MC % ("TRUE", "FALSE", 0, "FALSE") + INV, expect_error="Invariant Param", what="a request that is skipped because the task is the last one")
    ctx.mc("ContextMC", MC % ("FALSE", "TRUE", 0, "FALSE") + INV, expect_error="Invariant Param", what="copies that share their DMP")
    hs = ctx.generate("ContextMC", MC % ("FALSE", "FALSE", ctx.n(3, 4), "TRUE") + "INVARIANT Emit\nCONSTRAINT Bound\n")
    r.shuffle(hs)
    hs = hs[: ctx.n(300, 2000)]
    progs = []
    for i, h in enumerate(hs):
        p = program(r, f"hist-{i}-" + "-".join(h), M.TYPES[i % len(M.TYPES)])
        a = p["tasks"][0]
        b = task(r, p)["v"] if r.random() < 0.5 else [x * (1 + 1e-4) if not p["off"] else x + 0.3 * p["spread"] for x in a]
        for x in h:
            p["ops"] += ops_of(r, p, x, a, b)
        p["ops"] += [["read"], ops_of(r, p, "startA", a, b)[0], M.step(r, p)]
        progs.append(p)
    for i in range(ctx.n(150, 1500)):
        p = program(r, f"random-{i}", M.TYPES[i % len(M.TYPES)])
        for _ in range(r.randint(3, 9)):
            x = r.choice(["startA", "solutionA", "requestA", "set", "copy", "step", "step", "setting", "read", "rate", "integrate"])
            if x == "rate":
                p["ops"].append(["rate", M.state(r, p)])
            elif x == "read":
                p["ops"].append(["read"])
            elif x == "integrate":
                p["ops"].append(["solution", M.times(r, p, 5), False, False, None])
            else:
                p["ops"] += ops_of(r, p, x, task(r, p)["v"], None)
        p["ops"] += ops_of(r, p, "startA", task(r, p)["v"], None) + [M.step(r, p)]
        progs.append(p)
    traces = [t for t in ctx.drive("drv_dmp.py", progs) if t]
    ctx.validate("ContextTrace", traces)

    def corrupt(t):
        e = next(e for e in t["ev"] if e["op"] == "request" and e["out"] == "ok")
        e["task"] = [x + 0.1 * (1 + abs(x)) for x in e["task"]]
    ctx.binding_demo("ContextTrace", traces, corrupt)
