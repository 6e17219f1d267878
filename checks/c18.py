"""C18: schedules of a DMP stay within their bounds and are reproduced."""
import dmps as M
import dynsys as D


def check(ctx):
    r = ctx.rng
    M.mc(ctx)
    progs = []
    for i in range(ctx.n(450, 3500)):
        p = M.schedules(r, M.dmp(r, f"dmp-{i}", type_=M.TYPES[i % len(M.TYPES)]))
        ops = [M.train(r, p, given=r.random() < 0.5)] * (r.random() < 0.3) + [["start", None, True]]
        for _ in range(r.randint(3, 9)):
            x = r.random()
            if x < 0.3:
                ops.append(M.step(r, p, True))
            elif x < 0.45:
                ops.append(M.solution(r, p, True))
            elif x < 0.6:
                ops.append(M.train(r, p, given=r.random() < 0.5))
            elif x < 0.7:
                ops.append(["start", D.state(r, p["n"]) if r.random() < 0.5 else None, True])
            elif x < 0.78:
                ops += [M.select(r, p), ["get"], M.set_(r, p)]
            elif x < 0.84:
                ops.append(r.choice([["json", True], ["copy", True]]))
            elif x < 0.9:
                ops.append(["mutate"])
            else:
                ops.append(M.setting(r, p))
        ops += [["read"], ["start", None, True], M.step(r, p, True), M.solution(r, p, True)]
        p["ops"] = ops
        progs.append(p)
    traces = [t for t in ctx.drive("drv_dmp.py", progs) if t]
    ctx.validate("DmpTrace", traces)

    def corrupt(t):
        e = next(e for e in t["ev"] if e["op"] == "step" and e["out"] == "ok" and "sched" in e and t["cfg"]["smin"])
        e["sched"][0] = t["cfg"]["smin"][0] - 1e-3
    ctx.binding_demo("DmpTrace", traces, corrupt)
