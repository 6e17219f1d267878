"""Programs for trajectories, shared by C20 and C21."""
import math

MC = """SPECIFICATION Spec
CONSTANTS Defect = "%s"
 Depth = %d
 Generate = %s
CHECK_DEADLOCK FALSE
"""
INV = "INVARIANT EditsKeepConsistent\nCONSTRAINT Small\n"


def mc(ctx):
    ctx.mc("TrajectoryMC", MC % ("none", ctx.n(3, 4), "FALSE") + INV, what="every history of edits of two small trajectories")
    for d, why in (("start", "prepending that ignores the start time"), ("partial", "a refused append that has changed the times"),
                   ("step", "a mean time step that is not updated"), ("align", "cropping that forgets a field")):
        ctx.mc("TrajectoryMC", MC % (d, 2, "FALSE") + INV, expect_error="Invariant EditsKeepConsistent", what=why)


def histories(ctx, depth):
    return ctx.generate("TrajectoryMC", MC % ("none", depth, "TRUE") + "INVARIANT Emit\n")


def nums(r, n, lo=-2.0, hi=2.0):
    return [r.uniform(lo, hi) for _ in range(n)]


def mat(r, n, d, lo=-2.0, hi=2.0):
    return [nums(r, d, lo, hi) for _ in range(n)]


def times(r, n, uniform=None):
    t0 = r.choice([0.0, 0.0, 0.0, 1.5, -0.7, r.uniform(-5, 5)])
    dt = r.choice([0.01, 0.005, 0.1, 0.3, 1.0, r.uniform(0.001, 0.5)] * 4 + [2e-4, 40.0])
    jitter = 10 ** r.uniform(-6, -3) * dt if uniform is None and r.random() < 0.08 else 0.0
    uniform = r.random() < 0.6 if uniform is None else uniform
    if uniform and jitter:
        return [t0 + i * dt + r.uniform(-jitter, jitter) for i in range(n)]
    if uniform:
        return [t0 + i * dt for i in range(n)]
    ts = [t0]
    for _ in range(n - 1):
        ts.append(ts[-1] + dt * r.uniform(0.2, 2))
    return ts


def create(r, slot, d, misc=None, n=None, **kw):
    n = n or r.choice([2, 3, 4, 5, 7, 10, 10, 25] * 5 + [120, r.choice([270, 1003])])
    a = dict(ts=times(r, n), ys=mat(r, n, d) if r.random() < 0.85 else [[r.choice([0.0, 1.0, 1e-7, 4e5]) for _ in range(d)] for _ in range(n)], flat=r.random() < 0.5, share=r.random() < 0.4)
    x = r.random()
    if x < 0.7:
        a["yds"] = mat(r, n, d)
        if x < 0.5:
            a["ydds"] = mat(r, n, d)
    if misc if misc is not None else r.random() < 0.5:
        a["misc"] = mat(r, n, misc if misc else r.choice([1, 1, 2]))
    if r.random() < 0.12:      # columns of zeros
        f = r.choice([f for f in ("ys", "yds", "ydds", "misc") if f in a])
        a[f] = [[0.0] * len(row) for row in a[f]]
    a.update(kw)
    return ["create", slot, a]


def edit(r, name, slot=0):
    other = r.choice([1, 1, 2])
    if name == "crop":
        return ["crop", slot, r.random(), r.random(), r.random() < 0.1]
    if name == "croptime":
        return ["croptime", slot, r.random(), r.random(), r.choice([-0.5, 0, 0, 0.4]), r.choice([-0.5, 0, 0, 0.4, 0.7]),
                r.choice(["", "", "", "beyond", "before", "bad", "late", "early"])]
    if name in ("append", "prepend"):
        return [name, slot, other]
    if name == "self":
        return [r.choice(["append", "prepend"]), slot, slot]
    if name == "bad":
        return r.choice([["misc", slot, r.randrange(10**6), 1, True], ["crop", slot, r.random(), r.random(), True], ["append", slot, 2], ["prepend", slot, 2]])
    if name in ("padfront", "padend"):
        return [name, slot, r.choice([1, 2, 3, 5, 7])]
    if name == "misc":
        return ["misc", slot, r.randrange(10**6), r.choice([1, 2]), False]
    if name == "file":
        return ["through", slot, r.choice(["matrix", "text"]), slot]
    if name == "swap":
        return ["through", slot, "matrix", 1]
    return [name, slot]


def starts(r):
    """Three trajectories, the third of which may not fit."""
    d = r.choice([1, 2, 3] * 8 + [7, 12])
    return [create(r, 0, d), create(r, 1, d), create(r, 2, r.choice([d, d + 1]))]


def poly(r, slot, what):
    d = r.choice([1, 2, 3] * 10 + [8])
    n = r.choice([2, 3, 5, 9] * 8 + [150])
    ts = times(r, n)
    if r.random() < 0.3:
        ts = [ts[0] + i * r.choice([0.25, 0.5]) / (n - 1) for i in range(n)]
        ts = [ts[0] + (ts[-1] - ts[0]) * i / (n - 1) for i in range(n)]
    D = ts[-1] - ts[0]
    # boundary values of similar weight, whatever the duration
    f = lambda: [nums(r, d), nums(r, d, -3 / D, 3 / D), nums(r, d, -5 / D / D, 5 / D / D)]
    a = dict(what=what, ts=ts, to=f())
    a["from"] = f()
    if r.random() < 0.2:
        z = r.choice([0, 1, 2])
        a["from"][z] = [0.0] * d
    if what == "viapoint":
        a["via"] = f()
        if r.random() < 0.25:      # nothing there, in all dimensions or in one
            z, k = r.choice([0, 1, 1, 2]), r.choice([None, 0, d - 1])
            a["via"][z] = [0.0 if k in (None, j) else v for j, v in enumerate(a["via"][z])]
        i = r.randrange(n)
        a["viatime"] = r.choice([ts[i], ts[i] + 0.3 * D / n, ts[0] + r.random() * D, ts[0] + r.random() * D, ts[-1] + 0.1 * D, ts[0] - 0.1 * D])
    return ["generated", slot, a]


def filtered(r, slot):
    dt = r.choice([0.005, 0.01, 0.02])
    n = r.choice([90, 120])
    d = r.choice([1, 2])
    t0 = r.choice([0.0, 2.0])
    ts = [t0 + i * dt for i in range(n)]
    ph, off, rest = nums(r, d), nums(r, d), r.random() < 0.3
    low = [[off[k] + math.sin(2 * math.pi * 0.01 / dt * t + ph[k]) for k in range(d)] for t in ts]
    ys = [[low[i][k] + 0.3 * math.sin(2 * math.pi * 0.45 / dt * ts[i] + 1) for k in range(d)] for i in range(n)]
    if rest:
        for i in range(n):
            low[i][-1] = ys[i][-1] = off[-1]
    return [["create", slot, dict(ts=ts, ys=ys)], ["filter", slot, 0.1 / dt, r.choice([1, 2, 3, 4]), low]]
