"""C15: a DMP does not remember how it got its settings."""
import dmps as M
import dynsys as D


def call(r, p, c, sched):
    return {"tau": lambda: [M.setting(r, p, "tau")], "init": lambda: [M.setting(r, p, "y_init")], "attr": lambda: [M.setting(r, p, "y_attr")],
            "train": lambda: [M.train(r, p, newfas=r.random() < 0.2)], "starty": lambda: [["start", D.state(r, p["n"]), sched]],
            "start": lambda: [["start", None, sched]], "step": lambda: [M.step(r, p, sched)], "solution": lambda: [M.solution(r, p, sched)],
            "mutate": lambda: [["mutate"]], "json": lambda: [["json", True]], "copy": lambda: [["copy", r.random() < 0.5]]}[c]()


def end(r, p, sched):
    return [["mutate"], ["read"], ["start", None, sched], M.step(r, p, sched), M.integrate(r, p), M.solution(r, p, sched)]


def check(ctx):
    r = ctx.rng
    M.mc(ctx)
    progs = []
    hs = M.histories(ctx, ctx.n(3, 4))
    for i, h in enumerate(r.sample(hs, min(len(hs), ctx.n(700, 5000)))):
        p = M.dmp(r, f"history-{i}", type_=M.TYPES[i % len(M.TYPES)])
        sched = r.random() < 0.15
        if sched:
            M.schedules(r, p)
        p["ops"] = sum([call(r, p, c, sched) for c in h], []) + end(r, p, sched)
        progs.append(p)
    for i in range(ctx.n(250, 2500)):
        p = M.dmp(r, f"random-{i}")
        sched = r.random() < 0.2
        if sched:
            M.schedules(r, p)
        ops = []
        for _ in range(r.randint(5, 16)):
            x = r.random()
            if x < 0.7:
                ops += call(r, p, r.choice(["tau", "init", "attr", "train", "starty", "start", "step", "solution", "mutate", "json", "copy"]), sched)
            elif x < 0.78:
                ops.append(M.bad(r, p))
            elif x < 0.86:
                ops.append(M.sub_setting(r, p))
            elif x < 0.9:
                ops.append(["decouple"])
            elif p["fas"]:
                ops += [M.select(r, p), M.set_(r, p)]
        p["ops"] = ops + end(r, p, sched)
        progs.append(p)
    traces = [t for t in ctx.drive("drv_dmp.py", progs) if t]
    ctx.validate("DmpTrace", traces)
    ctx.binding_demo("DmpTrace", traces, M.corrupt)
