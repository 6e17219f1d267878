"""C09: function approximators have a sound train/predict lifecycle."""
import fas as F


def check(ctx):
    r = ctx.rng
    F.mc(ctx)
    progs = []
    for i in range(ctx.n(200, 1500)):
        p = F.program(r, F.KINDS[i % 4], f"random-{i}")
        ops = []
        if r.random() < 0.5:
            ops.append(F.predict(r, p))
        if r.random() < 0.3:
            ops += [F.select(r, p), ["get"], F.set_(r, p)]
        for _ in range(r.randint(1, 4)):
            ops.append(F.train(r, p))
            for _ in range(r.randint(1, 5)):
                x = r.random()
                if x < 0.45:
                    ops.append(F.predict(r, p))
                elif x < 0.6:
                    ops.append(F.bad_predict(r, p))
                elif x < 0.85:
                    ops.append(["mutate"])
                elif x < 0.9:
                    ops.append(["read"])
                else:
                    ops += [F.select(r, p), F.set_(r, p)]
        ops += [["mutate"], ["read"], F.predict(r, p)]
        p["ops"] = ops
        progs.append(p)
    traces = [t for t in ctx.drive("drv_fa.py", progs) if t]
    ctx.validate("FATrace", traces)
    ctx.binding_demo("FATrace", traces, F.corrupt)
