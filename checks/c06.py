"""C06: a distribution update is the weighted update its updater documents."""
import bbo


def check(ctx):
    r = ctx.rng
    progs = [dict(what="construct", name="learning-rates", lrs=[-1.0, -1e-9, 0.0, 1e-9, 0.5, 1.0, 1.0 + 1e-9, 2.0])]
    for i in range(ctx.n(350, 4000)):
        n = bbo.size(r, [1, 1, 2, 3, 5], [9, 14])
        d = bbo.dist(r, n, singular=r.random() < 0.1)
        steps = []
        for _ in range(r.randint(1, 4)):
            m = bbo.size(r, [1, 2, 3, 5, 10, 15], [60, 130])
            steps.append([bbo.samples(r, d, m), bbo.costs(r, m), r.choice(bbo.FORMS)])
        progs.append(dict(what="update", name=f"chain-{i}", dist=d, updater=bbo.updater(r, n), steps=steps))
    traces = [t for t in ctx.drive("drv_updater.py", progs) if t]
    ctx.validate("UpdaterTrace", traces)

    def corrupt(t):
        e = t["ev"][0]
        e["new"]["covar"][0][0] = e["new"]["covar"][0][0] * (1 + 1e-6) + 1e-6
    ctx.binding_demo("UpdaterTrace", traces[::-1], corrupt)
