"""C21: generated trajectories meet their boundary conditions, and derivatives are right."""
import trajs as J


def check(ctx):
    r = ctx.rng
    J.mc(ctx)
    progs = []
    for i in range(ctx.n(450, 4000)):
        ops = [J.poly(r, 0, r.choice(["minjerk", "poly", "poly", "viapoint", "viapoint"])), ["read", 0]]
        if r.random() < 0.3:
            ops += [["recompute", 0], J.poly(r, 1, "poly"), ["read", 0]]
        progs.append(dict(name=f"generated-{i}", ops=ops, ints=False))
    for i in range(ctx.n(40, 200)):
        # whole numbers, given as arrays of integers
        op = J.poly(r, 0, r.choice(["minjerk", "poly", "viapoint"]))
        a = op[2]
        for k in ("from", "to", "via"):
            if k in a:
                a[k] = [[int(round(v)) for v in row] for row in a[k]]
        if r.random() < 0.5:
            a["ts"] = list(range(r.choice([-1, 0, 2]), 5))
            if "via" in a:
                a["viatime"] = 3
        progs.append(dict(name=f"whole-{i}", ops=[op, ["read", 0]], ints=True))
    for i in range(ctx.n(120, 800)):
        n = r.choice([3, 4, 5, 8, 20])
        ts = J.times(r, n, True)
        progs.append(dict(name=f"quadratic-{i}", ops=[["quadratic", 0, dict(ts=ts, coefs=J.mat(r, r.choice([1, 2, 3]), 3))], ["read", 0], ["recompute", 0], ["read", 0]]))
    for i in range(ctx.n(120, 800)):
        d = r.choice([1, 2])
        ops = [J.create(r, 0, d, n=r.choice([2, 2, 3, 4, 6]), ydds=None), J.edit(r, r.choice(["crop", "padend", "padfront", "croptime"])), ["recompute", 0], ["read", 0]]
        progs.append(dict(name=f"derivatives-{i}", ops=ops))
    for i in range(ctx.n(24, 100)):
        progs.append(dict(name=f"filtered-{i}", ops=J.filtered(r, 0) + [["read", 0]]))
    traces = [t for t in ctx.drive("drv_traj.py", progs) if t]
    ctx.validate("TrajectoryTrace", traces)

    def corrupt(t):
        e = next(e for e in t["ev"] if e["op"] == "generated" and e["what"] == "poly" and e["out"] == "ok")
        e["after"][0]["yds"][-1][0] *= 1 + 1e-5
    ctx.binding_demo("TrajectoryTrace", traces, corrupt)
