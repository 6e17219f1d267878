"""C11: integration steps follow the system's differential equation."""
import dynsys as D


def start(r, p):
    y0 = None
    if p["kind"] != "time" and r.random() < 0.5:
        y0 = D.state(r, p["n"])
    return ["start", y0]


def check(ctx):
    r = ctx.rng
    D.mc(ctx)
    progs = []
    for i in range(ctx.n(420, 3000)):
        p = D.system(r, D.KINDS[i % 6], f"random-{i}")
        ops = [["read"], start(r, p)]
        for _ in range(r.randint(4, 14)):
            x = r.random()
            if x < 0.2:
                ops.append(D.change(r, p))
            elif x < 0.25 and p["kind"] != "time":
                ops.append(D.bad(r, p))
            elif x < 0.3:
                ops.append(["decouple"])
            elif x < 0.4:
                ops.append(["mutate"])
            elif x < 0.5:
                ops.append(start(r, p))
            elif x < 0.65:
                ops.append(["rate", D.some_state(r, p)])
            elif x < 0.9:
                ops.append(D.step(r, p))
            else:
                ops.append(D.integration(r, p))
        ops += [["mutate"], ["read"], ["start", None], D.step(r, p)]
        p["ops"] = ops
        progs.append(p)
    # every short history of the model
    hs = D.histories(ctx, ctx.n(3, 4))
    k = 0
    for kind in D.KINDS:
        for h in hs:
            if kind == "time" and "attr" in h:
                continue
            k += 1
            p = D.system(r, kind, f"history-{k}")
            ops = [["start", None]]
            for c in h:
                if c in ("tau", "init", "attr"):
                    ops.append(D.change(r, p, {"init": r.choice(["x_init", "y_init"])}.get(c, c)))
                elif c == "start":
                    ops.append(["start", D.state(r, p["n"]) if kind != "time" else None])
                elif c == "rate":
                    ops.append(["rate", None])
                elif c == "solution":
                    ops.append(["solution", [0.0, 0.3 * p["tau"]]])
                else:
                    ops.append(["mutate"])
            ops += [["read"], ["start", None], ["step", "default", 0.01 * p["tau"], None]]
            p["ops"] = ops
            progs.append(p)
    traces = [t for t in ctx.drive("drv_dynsys.py", progs) if t]
    ctx.validate("DynSysTrace", traces)

    def corrupt(t):
        e = next(e for e in t["ev"] if e["op"] == "step" and e["out"] == "ok" and e["method"] == "rk" and t["cfg"]["sys"]["kind"] == "sigmoid")
        e["x2"][0] *= 1 + 1e-7
    ctx.binding_demo("DynSysTrace", traces, corrupt)
