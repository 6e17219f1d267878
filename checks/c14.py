"""C14: a DMP is the documented composition of its subsystems."""
import dmps as M
import dynsys as D


def check(ctx):
    r = ctx.rng
    M.mc(ctx)
    progs = []
    for i in range(ctx.n(500, 4000)):
        p = M.dmp(r, f"dmp-{i}", type_=M.TYPES[i % len(M.TYPES)])
        ops = [M.train(r, p)] * (r.random() < 0.15) + [["read"], ["start", D.state(r, p["n"]) if r.random() < 0.4 else None, False]]
        for _ in range(r.randint(4, 10)):
            x = r.random()
            if x < 0.35:
                ops.append(["rate", M.state(r, p)])
            elif x < 0.55:
                ops.append(M.step(r, p))
            elif x < 0.7:
                ops.append(M.integrate(r, p))
            elif x < 0.85:
                ops.append(M.solution(r, p))
            elif x < 0.9:
                ops.append(["mutate"])
            elif x < 0.95:
                ops.append(M.setting(r, p))
            else:
                ops.append(M.train(r, p))
        p["ops"] = ops
        progs.append(p)
    traces = [t for t in ctx.drive("drv_dmp.py", progs) if t]
    ctx.validate("DmpTrace", traces)
    ctx.binding_demo("DmpTrace", traces, M.corrupt)
