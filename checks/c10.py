"""C10: function approximators predict their documented models."""
import fas as F


def check(ctx):
    r = ctx.rng
    progs = []
    for i in range(ctx.n(280, 2000)):
        p = F.program(r, F.KINDS[i % 4], f"random-{i}")
        ops = [F.train(r, p), F.predict(r, p), F.predict(r, p)]
        if r.random() < 0.5:
            ops += [F.select(r, p), F.set_(r, p), F.predict(r, p)]
            if r.random() < 0.5:
                ops[-3][1] = [x for x in F.NAMES[p["kind"]] if x not in ("centers", "widths", "inputs", "lengths")]
        ops += [F.acts(r), F.acts(r)]
        p["ops"] = ops
        progs.append(p)
    traces = [t for t in ctx.drive("drv_fa.py", progs) if t]
    ctx.validate("FATrace", traces)
    ctx.binding_demo("FATrace", traces, F.corrupt)
