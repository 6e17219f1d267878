"""C08: parameter vectors obey get/set laws under any selection."""
import dmps as M
import dynsys as D
import fas as F


def fa_history(r, h, kind, name):
    p = F.program(r, kind, name)
    if kind == "wls":
        p["par"]["offset"] = True
    names = F.NAMES[kind] + (["offset"] if kind == "wls" else [])
    ab = dict(zip("ab", r.sample(names, 2)))
    ops = [F.train(r, p)]
    for c in h:
        if c[0] == "select":
            s = [ab[x] for x in c[1]]
            r.shuffle(s)
            ops.append(["select", s, r.random() < 0.5])
        elif c[0] == "set":
            ops.append(F.set_(r, p))
        elif c[0] == "setbad":
            ops.append(F.set_(r, p, r.choice([-1, 1, 2])))
        elif c[0] == "use":
            ops.append(F.predict(r, p))
        elif c[0] == "train":
            ops.append(F.train(r, p))
        else:
            ops.append([c[0]])
    ops += [["get"], ["read"], F.predict(r, p)]
    for x in names[: r.randint(1, len(names))]:
        ops += [["select", [x], True], ["get"]]
    p["ops"] = ops
    return p


def dmp_history(r, h, name):
    p = M.dmp(r, name, override=False, fa=M.fas(r, f=1.0))
    if r.random() < 0.4:
        M.schedules(r, p)
    sched = bool(p.get("sched"))
    names = M.NAMES[p["fas"]["kind"]]
    a, sn = r.choice(names), M.NAMES[p["sched"]["fas"]["kind"]] if sched else []
    goal = r.choice("ab")
    ops = []
    for c in h:
        if c[0] == "select":
            fa = [a] if "a" in c[1] else []
            g = goal in c[1]
            s = [sn[0]] if sched and "b" in c[1] else []
            if "b" in c[1] and (goal != "b" or r.random() < 0.5):
                fa = fa + [x for x in names if x != a][:1]
            ops.append(["select", fa, g, s, r.choice(["list", "str", "goalfirst"])])
        elif c[0] == "set":
            ops.append(M.set_(r, p))
        elif c[0] == "setbad":
            ops.append(M.set_(r, p, r.choice([-1, 1, 2])))
        elif c[0] == "use":
            ops += [["start", None, sched], M.step(r, p, sched)]
        elif c[0] == "train":
            ops.append(M.train(r, p, given=sched, newfas=r.random() < 0.3))
        else:
            ops.append([c[0]])
    ops += [["get"], ["read"], ["start", None, sched], M.solution(r, p, sched)]
    p["ops"] = ops
    return p


def random_dmp(r, name):
    p = M.dmp(r, name, override=False, fa=M.fas(r, f=0.9))
    if r.random() < 0.4:
        M.schedules(r, p)
    sched = bool(p.get("sched"))
    ops = [["get"]]
    for _ in range(r.randint(4, 14)):
        x = r.random()
        if x < 0.25:
            ops += [M.select(r, p), ["get"]]
        elif x < 0.45:
            ops += [M.set_(r, p), ["get"]]
        elif x < 0.53:
            ops += [M.set_(r, p, r.choice([-2, -1, 1, 3])), ["read"]]
        elif x < 0.62:
            ops.append(["mutate"])
        elif x < 0.7:
            ops.append(M.train(r, p, given=sched and r.random() < 0.5, newfas=r.random() < 0.3))
        elif x < 0.78:
            ops.append(M.setting(r, p))
        elif x < 0.84:
            ops += [["start", D.state(r, p["n"]) if r.random() < 0.5 else None, sched], M.step(r, p, sched)]
        elif x < 0.9:
            ops.append(r.choice([["json", True], ["copy", True], ["copy", False]]))
        elif x < 0.95:
            ops.append(M.solution(r, p, sched))
        else:
            ops.append(["read"])
    ops += [["get"], ["read"], M.select(r, p), ["get"]]
    p["ops"] = ops
    return p


def check(ctx):
    r = ctx.rng
    F.mc(ctx)
    hs = F.histories(ctx, ctx.n(3, 4))
    progs = [fa_history(r, h, kind, f"fa-{kind}-{i}") for kind in F.KINDS for i, h in enumerate(r.sample(hs, min(len(hs), ctx.n(250, 3000))))]
    for i in range(ctx.n(150, 1500)):
        p = F.program(r, F.KINDS[i % 4], f"fa-random-{i}")
        ops = [["get"]] if r.random() < 0.3 else []
        ops.append(F.train(r, p))
        for _ in range(r.randint(4, 14)):
            x = r.random()
            ops += ([F.select(r, p), ["get"]] if x < 0.3 else [F.set_(r, p), ["get"]] if x < 0.5 else
                    [F.set_(r, p, r.choice([-2, -1, 1, 3])), ["read"]] if x < 0.6 else [["mutate"]] if x < 0.75 else
                    [F.train(r, p)] if x < 0.85 else [F.predict(r, p)])
        ops += [["get"], ["read"]]
        p["ops"] = ops
        progs.append(p)
    traces = [t for t in ctx.drive("drv_fa.py", progs) if t]
    ctx.validate("FATrace", traces)
    progs = [dmp_history(r, h, f"dmp-{i}") for i, h in enumerate(r.sample(hs, min(len(hs), ctx.n(350, 4000))))]
    progs += [random_dmp(r, f"dmp-random-{i}") for i in range(ctx.n(250, 2500))]
    traces = [t for t in ctx.drive("drv_dmp.py", progs) if t]
    ctx.validate("DmpTrace", traces)

    def corrupt(t):
        e = next(e for e in t["ev"] if e["op"] == "get" and e["out"] == "ok" and len(e["v"]) > 2)
        e["v"][2] += 1e-9
    ctx.binding_demo("DmpTrace", traces, corrupt)
