"""C17: training a DMP on a trajectory makes it reproduce the trajectory."""
import dmps as M
import dynsys as D


def check(ctx):
    r = ctx.rng
    M.mc(ctx)
    progs = []
    for i in range(ctx.n(350, 2500)):
        p = M.dmp(r, f"train-{i}", type_=M.TYPES[i % len(M.TYPES)])
        sched = r.random() < 0.2
        if sched:
            M.schedules(r, p)
        ops = []
        for _ in range(r.choice([0, 1, 3])):
            x = r.random()
            if x < 0.3:
                ops.append(M.setting(r, p))
            elif x < 0.45:
                ops.append(M.solution(r, p))
            elif x < 0.6:
                ops.append(["start", D.state(r, p["n"]) if r.random() < 0.5 else None, False])
            elif x < 0.7:
                ops.append(M.sub_setting(r, p))
            elif x < 0.8 and p["fas"]:
                ops += [M.select(r, p), M.set_(r, p)]
            else:
                ops.append(r.choice([["json", True], ["copy", True]]))
        for _ in range(r.choice([1, 1, 2, 3])):
            ops.append(M.train(r, p, given=sched and r.random() < 0.4, newfas=r.random() < 0.3))
            if r.random() < 0.5:
                ops.append(["mutate"])
        ops += [["read"], M.solution(r, p, given=False), ["start", None, False], M.step(r, p)]
        p["ops"] = ops
        progs.append(p)
    # rich approximators
    for i in range(ctx.n(84, 700)):
        p = M.dmp(r, f"reproduce-{i}", type_=M.TYPES[i % len(M.TYPES)], override=False)
        p["n"] = n = min(p["n"], 2)
        p["y0"], p["g"] = p["y0"][:n], p["g"][:n]
        if p["scaling"] == "amp":
            p["amps"] = p["amps"][:n]
        p["fas"] = M.fas(r, f=0.3, kind=r.choice(["rbfn", "lwr"]), size=r.choice([10, 15, 20]))
        p["fas"].update(height=0.7, reg=r.choice([0, 1e-8]))
        ops = [M.train(r, p, still=True, samples=60, uniform=True)] if i % 3 == 0 else []
        ops += [M.train(r, p, still=True, samples=64, uniform=True), ["reproduce", 300, 0.01]]
        p["ops"] = ops
        progs.append(p)
    # as long as those that are recorded
    for i in range(ctx.n(4, 30)):
        p = M.dmp(r, f"long-{i}", type_=r.choice(M.TYPES), override=False)
        p["n"] = 1
        p["y0"], p["g"] = p["y0"][:1], p["g"][:1]
        if p["scaling"] == "amp":
            p["amps"] = p["amps"][:1]
        p["fas"] = M.fas(r, f=0.3, kind=["rbfn", "lwr"][i % 2], size=r.choice([3, 5]))
        p["ops"] = [M.train(r, p, samples=[287, 1001][i % 4 == 0]), ["read"], M.solution(r, p)]
        progs.append(p)
    r.shuffle(progs)
    traces = [t for t in ctx.drive("drv_dmp.py", progs) if t]
    ctx.validate("DmpTrace", traces)

    def corrupt(t):
        e = next(e for e in t["ev"] if e["op"] == "train" and e["out"] == "ok" and not e["nofas"] and t["cfg"]["scaling"] == "none")
        e["log"][0]["targets"][3] *= 1 + 1e-4
        e["log"][0]["targets"][3] += 1e-2
    ctx.binding_demo("DmpTrace", traces, corrupt)
