"""C20: trajectory edits keep a trajectory consistent and its content intact."""
import trajs as J


def check(ctx):
    r = ctx.rng
    J.mc(ctx)
    progs = []
    names = ["crop", "croptime", "croptime", "append", "prepend", "padfront", "padend", "zero", "misc", "self", "bad", "file", "swap", "recompute"]
    for i in range(ctx.n(300, 2000)):
        ops = J.starts(r)
        for _ in range(r.randint(3, 9)):
            x = r.random()
            if x < 0.2:
                ops.append(["read", r.choice([0, 0, 1])])
            else:
                ops.append(J.edit(r, r.choice(names), r.choice([0, 0, 0, 1])))
        ops += [["read", 0], ["read", 1]]
        progs.append(dict(name=f"random-{i}", ops=ops))
    for i, h in enumerate(J.histories(ctx, ctx.n(2, 3))):
        ops = J.starts(r)
        for c in h:
            ops.append(J.edit(r, c))
        ops += [["read", 0], ["read", 1]]
        progs.append(dict(name=f"history-{i}", ops=ops))
    traces = [t for t in ctx.drive("drv_traj.py", progs) if t]
    ctx.validate("TrajectoryTrace", traces)

    def corrupt(t):
        e = next(e for e in t["ev"] if e["op"] == "edit" and e["what"] == "prepend" and e["out"] == "ok")
        e["after"][e["slot"] - 1]["ts"][-1] += 1e-4
    ctx.binding_demo("TrajectoryTrace", traces, corrupt)
