"""C12: analytical solutions solve the equation, also after parameter changes."""
import dynsys as D


def check(ctx):
    r = ctx.rng
    D.mc(ctx)
    progs = []
    for i in range(ctx.n(420, 3000)):
        p = D.system(r, D.KINDS[i % 6], f"random-{i}")
        ops = []
        for _ in range(r.randint(3, 10)):
            x = r.random()
            if x < 0.35:
                ops.append(D.change(r, p))
            elif x < 0.4:
                ops.append(["decouple"])
            elif x < 0.5:
                ops.append(["mutate"])
            elif x < 0.6:
                ops.append(["start", D.state(r, p["n"]) if p["kind"] != "time" and r.random() < 0.5 else None])
            elif x < 0.7:
                ops.append(["rate", None])
            else:
                ops.append(["solution", D.times(r, p) if r.random() < 0.7 else D.other_times(r, p)])
        ops += [["solution", D.times(r, p)], ["read"], ["solution", D.other_times(r, p) if r.random() < 0.5 else D.times(r, p)]]
        p["ops"] = ops
        progs.append(p)
    for i in range(ctx.n(60, 300)):
        p = D.system(r, D.KINDS[i % 6], f"agree-{i}")
        ops = []
        for _ in range(r.randint(0, 3)):
            ops.append(D.change(r, p))
        if p["kind"] == "spring" or p["kind"] == "exponential" or p["kind"] == "richards" or p["kind"] == "time":
            ops.append(["converged", 200.0 * max([1.0, p["tau"]] + [c[2] for c in ops if c[:2] == ["set", "tau"]])])
        ops.append(["agree", r.choice([0.3, 0.9, 1.5]) * ([p["tau"]] + [c[2] for c in ops if c[:2] == ["set", "tau"]])[-1], 2500])
        p["ops"] = ops
        progs.append(p)
    hs = D.histories(ctx, ctx.n(3, 4))
    k = 0
    for kind in D.KINDS:
        for h in hs:
            if kind == "time" and "attr" in h:
                continue
            k += 1
            p = D.system(r, kind, f"history-{k}")
            ops = []
            for c in h:
                if c in ("tau", "init", "attr"):
                    ops.append(D.change(r, p, {"init": r.choice(["x_init", "y_init"])}.get(c, c)))
                elif c == "start":
                    ops.append(["start", D.state(r, p["n"]) if kind != "time" else None])
                elif c == "rate":
                    ops.append(["rate", None])
                elif c == "solution":
                    ops.append(["solution", [0.0, 0.3 * p["tau"]]])
                else:
                    ops.append(["mutate"])
            ops += [["solution", [0.0, 0.1 * p["tau"], 0.7 * p["tau"]]]]
            p["ops"] = ops
            progs.append(p)
    traces = [t for t in ctx.drive("drv_dynsys.py", progs) if t]
    ctx.validate("DynSysTrace", traces)

    def corrupt(t):
        e = next(e for e in t["ev"] if e["op"] == "solution" and len(e["ts"]) > 2 and t["cfg"]["sys"]["kind"] == "richards")
        e["xs"][2][0] += 1e-6
    ctx.binding_demo("DynSysTrace", traces, corrupt)
