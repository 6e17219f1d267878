"""C07: sampling gives the asked number of samples, within the bounds."""
import bbo


def check(ctx):
    r = ctx.rng
    progs = [dict(what="construct", name="sizes")]
    for i in range(ctx.n(120, 1200)):
        n = bbo.size(r, [1, 1, 2, 3, 4], [8, 15])
        d = bbo.dist(r, n, singular=r.random() < 0.4)
        if r.random() < 0.1:
            d["covar"] = [[0.0] * n for _ in range(n)]
        bs = [bbo.bounds(r, n, d["mean"]) for _ in range(3)] + [dict(lower=None, upper=None)]
        progs.append(dict(what="sample", name=f"sample-{i}", dist=d, bounds=bs,
                          draws=[[r.randint(0, 10**6), [r.choice([1, 2, 3, 7, "default"]), bbo.size(r, [1, 5, 20], [0, 130, 600])]] for _ in range(2)]))
    for i in range(ctx.n(12, 60)):
        n = r.choice([1, 2, 3])
        d = bbo.dist(r, n, singular=i % 3 == 0)
        progs.append(dict(what="sample", name=f"statistics-{i}", dist=d, bounds=[],
                          draws=[[r.randint(0, 10**6), [ctx.n(1500, 6000)]]]))
    for i in range(ctx.n(12, 60)):
        n = r.choice([1, 1, 2, 3])
        progs.append(dict(what="sample", name=f"rare-{i}", dist=bbo.dist(r, n), rare=[30, ctx.n(1500, 8000)]))
    for i in range(ctx.n(16, 100)):      # what dimensions have to do with one another, also when it is little
        n = r.choice([2, 2, 3])
        sd = [10 ** r.uniform(-1.5, 1) for _ in range(n)]
        rho = [[1.0 if j == k else 0.0 for j in range(n)] for k in range(n)]
        for j in range(1, n):
            rho[0][j] = rho[j][0] = r.choice([-1, 1]) * r.choice([0.0, 0.02, 0.05, 0.1, 0.3, 0.65])
        d = dict(kind="gaussian", mean=[r.gauss(0, 1) for _ in range(n)], covar=[[rho[j][k] * sd[j] * sd[k] for k in range(n)] for j in range(n)], lower=None, upper=None)
        progs.append(dict(what="moments", name=f"moments-{i}", dist=d, draw=[r.randint(0, 10**6), ctx.n(400000, 4000000)]))
    traces = [t for t in ctx.drive("drv_sampling.py", progs) if t]
    ctx.validate("SamplingTrace", traces)

    def corrupt(t):
        e = next(e for e in t["ev"] if e["dist"]["kind"] == "DistributionGaussianBounded" and e["dist"]["upper"])
        e["s"][0][0] = e["dist"]["upper"][0] + 1e-9
    ctx.binding_demo("SamplingTrace", traces[::-1], corrupt)
