"""C04: step-by-step optimization survives process restarts and crashes."""
import bbo

MC = """SPECIFICATION Spec
CONSTANTS M = %d
 Steps = %d
 OpenWrites = %s
 MaxDraws = %d
CONSTRAINT Bounded
INVARIANT CanRestart
INVARIANT Consistent
PROPERTY PastKept
CHECK_DEADLOCK FALSE
"""
MODES = ["before", "empty", "partial"]


def program(r, name, ctx):
    dims, basis = r.choice([(1, 1), (1, 2), (2, 1), (1, 3), (2, 2)])
    select = r.choice([["weights"], ["weights"], ["goal"], ["weights", "goal"]])
    n = (dims * basis if "weights" in select else 0) + (dims if "goal" in select else 0)
    d = bbo.dist(r, n)
    p = dict(name=name, dir=str(ctx.scratch / "steps" / name), dims=dims, basis=basis, select=select, dist=d,
             updater=bbo.updater(r, n), m=bbo.size(r, [1, 2, 3, 5], [11, 14]), seed=r.randint(0, 10**6), traj=r.random() < 0.3,
             form=r.choice(["list", "array"]), cv=r.choice(["1d", "row", "col"]))
    return p


def check(ctx):
    r = ctx.rng
    ctx.mc("StepByStepMC", MC % (1, 1, "FALSE", 3), what="1 sample, 1 update, up to 3 processes, every order of writes and every kill")
    ctx.mc("StepByStepMC", MC % (1, 2, "FALSE", 4), what="1 sample, 2 updates, up to 4 processes, every order of writes and every kill")
    if ctx.thorough:
        ctx.mc("StepByStepMC", MC % (2, 1, "FALSE", 3), what="2 samples, 1 update, up to 3 processes", timeout=3000)
    ctx.mc("StepByStepMC", MC % (1, 1, "TRUE", 3), expect_error="Invariant CanRestart",
           what="opening the directory writes a file that it has to read")

    # runs without kills, and with random ones (also of a step that was killed before)
    progs = [program(r, f"run-{i}", ctx) for i in range(ctx.n(60, 400))]
    # every kill of every step, for a few configurations
    every = [program(r, f"every-{i}", ctx) for i in range(ctx.n(3, 12))]
    for p in every:
        p["m"] = min(p["m"], 3)
    counts = ctx.drive("drv_stepwise.py", [dict(p, what="count") for p in progs + every])
    counts = [c if c and len(c) == 2 else [5, 5] for c in counts]
    runs = []
    for i, p in enumerate(progs):
        c = counts[i]
        n_steps = r.choice([1, 2, 3, 4]) if i % 12 else 12
        p["steps"] = [[[r.randint(1, c[0 if s == 0 else 1]), r.choice(MODES)] for _ in range(r.choice([0, 1, 1, 2]) if i % 4 else 0)]
                      for s in range(n_steps)]
        runs.append(p)
    points = 0
    for i, p in enumerate(every):
        c = counts[len(progs) + i]
        for s in (0, 1):
            for at in range(1, c[s] + 1):
                for mode in MODES:
                    q = dict(p, name=f"{p['name']}-{s}-{at}-{mode}", dir=f"{p['dir']}-{s}-{at}-{mode}")
                    q["steps"] = [[[at, mode]], [], []] if s == 0 else [[], [[at, mode]], []]
                    runs.append(q)
                    points += 1
    traces = [t for t in ctx.drive("drv_stepwise.py", runs, timeout=800) if t]
    ctx.validate("StepByStepTrace", traces)
    ctx.notes.append(f"{points} kills: every operation on files of the preparation and of the first update, before, emptied and half written, "
                     f"for {len(every)} configurations; {sum(len(s) for p in progs for s in p['steps'])} random kills in {len(progs)} longer runs")
    ctx.assumptions.append("A kill ends the process; what it wrote before reaches the disk (no loss of written data by the operating system).")

    def corrupt(t):
        e = [e for e in t["ev"] if e["op"] == "look"][1]
        e["updates"][0]["params"][0][0] += 1e-9
    ctx.binding_demo("StepByStepTrace", traces, corrupt)
