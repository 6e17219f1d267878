"""C03: an optimization run records exactly what happened, in a consistent chain."""
import bbo

MC = """SPECIFICATION Spec
CONSTANTS M = %d
 NUpdates = %d
 Points = {0, 1}
 Mean <- MeanOf
INVARIANT Chain
INVARIANT EachEvaluatedOnce
INVARIANT CostsOfOwnSample
PROPERTY HistoryOnlyGrows
CHECK_DEADLOCK FALSE
"""


def check(ctx):
    r = ctx.rng
    ctx.mc("OptimMC", MC % (2, 2), what="2 updates with 2 samples of 2 points, every order of evaluations")
    if ctx.thorough:
        ctx.mc("OptimMC", MC % (3, 2), what="2 updates with 3 samples of 2 points, every order of evaluations")
    progs = []
    for i in range(ctx.n(120, 900)):
        n = bbo.size(r, [1, 2, 3], [7, 12])
        d = bbo.dist(r, n)
        if r.random() < 0.4:      # a narrow distribution: samples that hardly differ, or not at all
            s = r.choice([1e-6, 1e-12, 1e-16, 0.0])
            d["covar"] = [[s * x for x in row] for row in d["covar"]]
        p = dict(what=["cost", "task", "manual"][i % 3], name=f"run-{i}", dist=d, updater=bbo.updater(r, n), seed=r.randint(0, 10**6),
                 n=r.choice([0, 1, 2, 3, 5, 11]) if i % 10 else 12, m=bbo.size(r, [1, 2, 3, 7, 10], [40, 110]), comps=r.choice([1, 2, 3]),
                 form=r.choice(["list", "array"]), evals=r.random() < 0.5, cls=r.choice(["task", "plain"]))
        if i % 2 == 0:
            p["dir"] = str(ctx.scratch / f"run{i}")
        progs.append(p)
    traces = [t for t in ctx.drive("drv_optim.py", progs) if t]
    cfg = "CONSTANT Mean <- MeanOfRec\n"
    ctx.validate("OptimTrace", traces, cfg, invariants=["Chain"] if False else [])

    def corrupt(t):
        e = next(e for e in t["ev"] if e["op"] == "update" and len(e["costs"]) > 1)
        e["costs"][0], e["costs"][1] = e["costs"][1], e["costs"][0]
    ctx.binding_demo("OptimTrace", traces[::-1], corrupt, cfg)
