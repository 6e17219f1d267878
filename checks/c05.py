"""C05: costs are turned into valid, order-respecting weights."""
import itertools

import bbo


def check(ctx):
    r = ctx.rng
    progs = []
    # Every list of up to 4 costs from a few values, with every method and elite.
    calls = []
    vals = [0.0, 1.0, 2.5]
    for n in range(1, ctx.n(4, 5) + 1):
        for c in itertools.product(vals, repeat=n):
            for m in bbo.METHODS:
                for e in ([1, 2, n, n + 2] if m != "PI-BB" else [1, 10]):
                    calls.append([m, e, [[x] for x in c], r.choice(["scalars", "1d", "lists"])])
    for i in range(0, len(calls), 20):
        progs.append(dict(what="weights", name=f"small-{i}", calls=calls[i : i + 20]))
    for i in range(ctx.n(150, 3000)):
        cs = []
        for _ in range(6):
            n = bbo.size(r, [1, 2, 3, 4, 5, 7, 10, 15, 20, 30], [100, 260])
            m = r.choice(bbo.METHODS + ["unknown"])
            e = r.choice([0.1, 1, 5, 10, 10.5, 100, 1000]) if m in ("PI-BB", "unknown") else r.choice([1, 2, 3, 5, 10, n, n + 1, 40, n // 2 + 1])
            cs.append([m, e, bbo.costs(r, n), r.choice(bbo.FORMS)])
        progs.append(dict(what="weights", name=f"random-{i}", calls=cs))
    traces = [t for t in ctx.drive("drv_updater.py", progs) if t]
    ctx.validate("UpdaterTrace", traces)
    # the weights that updaters return are those of their method, for the costs in order
    progs = []
    for i in range(ctx.n(30, 300)):
        n = r.randint(1, 3)
        d = bbo.dist(r, n)
        m = r.randint(1, 12)
        progs.append(dict(what="update", name=f"updater-{i}", dist=d, updater=bbo.updater(r, n),
                          steps=[[bbo.samples(r, d, m), bbo.costs(r, m), r.choice(bbo.FORMS)]]))
    traces = [t for t in ctx.drive("drv_updater.py", progs) if t]
    ctx.validate("UpdaterTrace", traces)

    def corrupt(t):
        e = t["ev"][0]
        e["w"][0] = e["w"][0] + 1e-6
    ctx.binding_demo("UpdaterTrace", traces, corrupt)
