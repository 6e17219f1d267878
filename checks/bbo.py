"""Inputs for the black-box optimization checks."""
import math

METHODS = ["PI-BB", "CEM", "CMA-ES"]
FORMS = ["scalars", "1d", "2d", "arrays", "lists"]


def costs(r, n, comps=None):
    """n costs with components, of some unpleasant kind."""
    kind = r.choice(["plain", "ties", "equal", "offset", "tiny", "huge", "negative", "zero", "ints", "near", "sorted", "reversed"])
    c = [r.random() for _ in range(n)]
    if kind == "ties":
        c = [r.choice([0.5, 1.0, 2.25]) for _ in range(n)]
    elif kind == "equal":
        c = [r.choice([0.0, 3.7, -2.0])] * n
    elif kind == "offset":
        c = [1e9 + x for x in c]
    elif kind == "tiny":
        c = [1e-200 * x for x in c]
    elif kind == "huge":
        c = [1e150 * x for x in c]
    elif kind == "negative":
        c = [-10 * x - 1 for x in c]
    elif kind == "zero":
        c = [0.0 if r.random() < 0.5 else x for x in c]
    elif kind == "ints":
        c = [float(r.randint(-5, 20)) for _ in range(n)]
    elif kind == "near":
        c = [1.0 + r.randint(0, 3) * 2.0**-52 for _ in range(n)]
    elif kind == "sorted":
        c = sorted(c)
    elif kind == "reversed":
        c = sorted(c, reverse=True)
    m = comps or r.choice([1, 1, 2, 3])
    # the other components must not matter: they order the samples differently
    return [[x] + [r.uniform(-100, 100) for _ in range(m - 1)] for x in c]


def covar(r, n, singular=False):
    """A covariance matrix; if singular, some directions have none."""
    a = [[r.gauss(0, 1) for _ in range(n)] for _ in range(n)]
    c = [[sum(a[i][k] * a[j][k] for k in range(n)) / n + (0.1 if i == j else 0) for j in range(n)] for i in range(n)]
    if r.random() < 0.1:      # whole numbers
        c = [[float(r.randint(n, n + 4)) if i == j else 1.0 for j in range(n)] for i in range(n)]
    if singular:
        z = r.randrange(n)
        for i in range(n):
            c[i][z] = c[z][i] = 0.0
    return c


def dist(r, n, singular=False):
    mean = [r.gauss(0, 3) for _ in range(n)]
    if r.random() < 0.2:      # zeros and equal numbers
        mean = [r.choice([0.0, mean[0], 1.0]) for _ in range(n)]
    if r.random() < 0.1:      # whole numbers
        mean = [float(round(m)) for m in mean]
    d = dict(kind=r.choice(["gaussian", "bounded"]), mean=mean, covar=covar(r, n, singular),
             lower=None, upper=None)
    if d["kind"] == "bounded":
        d.update(bounds(r, n, d["mean"]))
    return d


def bounds(r, n, mean):
    lo = r.choice([None, "scalar", "vector"])
    up = r.choice([None, "scalar", "vector"])
    b = {}
    if r.random() < 0.35:     # values that are easily mistaken for none
        b["lower"] = r.choice([None, 0.0, -0.0, -math.inf, [0.0] * n, [-1.0, 0.0, -math.inf, 0.5][:n] + [0.0] * (n - 4), mean[0], list(mean)])
        b["upper"] = r.choice([None, None if b["lower"] is not None else 0.0, math.inf, 100.0, [100.0] * n])
        if b["lower"] is None or r.random() < 0.2:
            b["upper"] = r.choice([0.0, -0.0, 0, math.inf, [0.0] * n, [1.0, 0.0, math.inf, -0.5][:n] + [0.0] * (n - 4), mean[-1]])
            b["lower"] = r.choice([None, -100.0, [-100.0] * n, 0.0 if b["upper"] == 0 else None])
        return b
    b["lower"] = None if lo is None else min(mean) - r.random() if lo == "scalar" else [m - r.uniform(0, 1) for m in mean]
    b["upper"] = None if up is None else max(mean) + r.random() if up == "scalar" else [m + r.uniform(0, 1) for m in mean]
    return b


def size(r, often, big):
    return r.choice(big if r.random() < 0.03 else often)


def samples(r, d, m):
    n = len(d["mean"])
    if r.random() < 0.1:
        return [[float(round(d["mean"][k] + 2 * r.gauss(0, 1))) for k in range(n)] for _ in range(m)]
    return [[d["mean"][k] + r.gauss(0, 1) * math.sqrt(d["covar"][k][k]) for k in range(n)] for _ in range(m)]


def updater(r, n):
    u = dict(kind=r.choice(["mean", "decay", "adaptation", "adaptation", "adaptation"]))
    if r.random() < 0.85:
        u["method"] = r.choice(METHODS)
    if r.random() < 0.85:
        u["elite"] = r.choice([1, 2, 3, 5, 10, 20])
    if u["kind"] == "decay" and r.random() < 0.8:
        u["decay"] = r.choice([0.0, 0.5, 0.8, 0.95, 1.0])
    if u["kind"] == "adaptation":
        if r.random() < 0.6:
            u["diag_only"] = r.random() < 0.6
        if r.random() < 0.7:
            u["lr"] = r.choice([0.0, 0.2, 0.5, 0.9, 1.0])
        lo, hi = r.uniform(0.05, 0.6), r.uniform(0.6, 2)
        if r.random() < 0.5:
            u["max"] = hi if r.random() < 0.5 else [hi + 0.3 * r.random() for _ in range(n)]
        if r.random() < 0.5:
            u["min"] = lo if r.random() < 0.5 else [lo * r.random() for _ in range(n)]
    return u
