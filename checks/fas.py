"""Programs for function approximators, shared by C08, C09 and C10."""

KINDS = ["wls", "rbfn", "lwr", "gpr"]
NAMES = {"wls": ["slope"], "rbfn": ["centers", "widths", "weights"],
         "lwr": ["centers", "widths", "slopes", "offsets"], "gpr": ["inputs", "lengths", "gram_inv_targets"]}
MC = """SPECIFICATION Spec
CONSTANTS Copies = %s
 Replaces = %s
 Depth = %d
 Generate = %s
CHECK_DEADLOCK FALSE
"""
INV = "INVARIANT ValuesAreThoseSet\nINVARIANT SelectionIsTheLast\n"


def mc(ctx):
    ctx.mc("ParamsMC", MC % ("TRUE", "TRUE", 0, "FALSE") + INV, what="selecting, setting and training two parameters, any number of calls")
    ctx.mc("ParamsMC", MC % ("FALSE", "TRUE", 0, "FALSE") + INV, expect_error="Invariant ValuesAreThoseSet", what="an object that keeps the caller's vector")
    ctx.mc("ParamsMC", MC % ("TRUE", "FALSE", 0, "FALSE") + INV, expect_error="Invariant", what="selections that accumulate")


def histories(ctx, depth):
    return ctx.generate("ParamsMC", MC % ("TRUE", "TRUE", depth, "TRUE") + "INVARIANT Emit\nCONSTRAINT Bound\n")


def program(r, kind, name):
    d = r.choice([1, 1, 1, 2, 3])
    p = dict(kind=kind, name=name, dim=d)
    if kind == "wls":
        q = dict(offset=r.random() < 0.6, reg=r.choice([0.0, 0.0, 0.01, 0.5, 3.0]))
    elif kind == "gpr":
        q = dict(maxcov=r.choice([1.0, 0.5, 2.5]), lengths=r.uniform(0.1, 0.5) if r.random() < 0.5 else [r.uniform(0.1, 0.5) for _ in range(d)])
    else:
        top = {1: 8 if r.random() < 0.95 else 24, 2: 4, 3: 3}[d]
        ns = r.choice([1, 2, 3, r.randint(2, top)]) if r.random() < 0.4 else [r.randint(1, top) for _ in range(d)]
        if d == 1 and isinstance(ns, list) and r.random() < 0.5:
            ns = ns[0]
        if isinstance(ns, int):
            ns = min(ns, top)
        q = dict(ns=ns, height=r.choice([0.2, 0.5, 0.7, 0.8, r.uniform(0.1, 0.8)]), reg=r.choice([0.0, 0.0, 0.001, 0.05, 1.0]))
    p["par"] = q
    # range of the inputs
    if r.random() < 0.12:     # whole numbers
        p["whole"] = True
        if kind == "gpr":
            q["lengths"] = r.uniform(0.5, 1.6)
        p["box"] = [(lambda a: [a, a + r.randint(6, 14)])(float(r.randint(-6, 6))) for _ in range(d)]
        return p
    p["box"] = [(lambda a: [a, a + r.uniform(0.5, 4)])(r.choice([0.0, -1.0, r.uniform(-5, 5)])) for _ in range(d)]
    return p


def nbf(p):
    q = p["par"]
    ns = q.get("ns", 1)
    n = 1
    for x in (ns if isinstance(ns, list) else [ns] * p["dim"]):
        n *= x
    return n


def target(r, p):
    """A function from inputs to targets."""
    a = [[r.uniform(-2, 2), r.uniform(0.5, 3), r.uniform(0, 6)] for _ in range(p["dim"])]
    import math
    return lambda x: sum(u * math.sin(v * t + w) for (u, v, w), t in zip(a, x)) + r.gauss(0, 0.05)


def data(r, p, n=None):
    d = p["dim"]
    box = p["box"]
    if r.random() < 0.3:   # elsewhere
        s = r.uniform(-1, 1)
        box = [[a + s, b + s + r.random()] for a, b in box]
    if p["kind"] == "gpr":
        # samples that are not too close to one another
        n = n or r.randint(2, 7)
        le = p["par"]["lengths"]
        le = le if isinstance(le, list) else [le] * d
        xs = [[box[k][0] + (i + r.uniform(-0.2, 0.2)) * 1.2 * le[k] if k == 0 else r.uniform(*box[k]) for k in range(d)] for i in range(n)]
    else:
        n = n or (nbf(p) * r.randint(2, 3) + d + r.randint(2, 6) if nbf(p) > 6 or r.random() < 0.97 else 310)
        xs = [[r.uniform(*box[k]) for k in range(d)] for _ in range(n)]
        if d == 1:   # evenly spread, so that every basis function has data
            xs = [[box[0][0] + (box[0][1] - box[0][0]) * (i + r.random() * 0.5) / n] for i in range(n)]
            r.shuffle(xs)
    if p.get("whole"):
        xs = [[float(round(v)) for v in x] for x in xs]
        if d == 1 and p["kind"] != "gpr":
            xs = [[box[0][0] // 1 + i] for i in range(n)]
        elif p["kind"] == "gpr":
            xs = [[box[0][0] // 1 + 2.0 * i, *x[1:]] for i, x in enumerate(xs)]
    f = target(r, p)
    ys = [f(x) for x in xs]
    if r.random() < 0.2:      # nothing to learn, or numbers of another size
        ys = r.choice([[0.0] * n, [1.7] * n, [float(round(3 * y)) for y in ys], [1e4 * y for y in ys], [1e-5 * y for y in ys], [y + 300.0 for y in ys]])
    w = None
    if p["kind"] == "wls" and r.random() < 0.5:
        w = [r.choice([1.0, 0.0, r.random() * 3]) if i > d + 2 else 1.0 for i in range(n)]
    return xs, ys, w


def train(r, p):
    xs, ys, w = data(r, p)
    return ["train", xs, ys, w, p["dim"] == 1 and r.random() < 0.5]


def queries(r, p, far=True):
    d = p["dim"]
    n = r.choice([1, 2, 3, 5] * 12 + [25, 25, 25, r.choice([280 + r.randint(0, 20), 280 + r.randint(0, 20), 1030])])
    xs = [[r.uniform(a - 0.3, b + 0.3) for a, b in p["box"]] for _ in range(n)]
    if r.random() < 0.15:     # edges, zeros, and the same again
        xs[-1] = [r.choice([a, b, 0.5 * (a + b), 0.0]) for a, b in p["box"]]
        xs[0] = list(r.choice(xs))
    if p.get("whole"):
        xs = [[float(round(v)) for v in x] for x in xs]
    if far and r.random() < 0.25:
        xs[0] = [a + r.choice([-1, 1]) * r.choice([3, 30, 200, 1000]) for a, _ in p["box"]]
    return xs


def predict(r, p):
    return ["predict", queries(r, p), p["dim"] == 1 and r.random() < 0.5]


def bad_predict(r, p):
    n = p["dim"] + r.choice([1, 2]) if p["dim"] == 1 or r.random() < 0.5 else p["dim"] - 1
    return ["predict", [[r.random() for _ in range(n)] for _ in range(r.randint(1, 4))], False]


def select(r, p):
    names = NAMES[p["kind"]] + (["offset"] if p["par"].get("offset") else [])
    names = r.sample(names, r.randint(0 if r.random() < 0.15 else 1, len(names)))
    return ["select", names, r.random() < 0.5]


def set_(r, p, bad=0):
    return ["set", [r.uniform(-1, 1) for _ in range(5)], bad, r.choice(["near"] * 4 + ["close", "spread", "spread"]), r.random() < 0.2]


def acts(r):
    d, n, b = r.choice([1, 2, 3]), r.randint(1, 4), r.choice([1, 2, 3, 6])
    far = r.choice([1.0, 1.0, 1.0, 50.0, 1000.0])
    return ["acts", [[far * r.uniform(-2, 2) for _ in range(d)] for _ in range(n)], [[r.uniform(-2, 2) for _ in range(d)] for _ in range(b)],
            [[r.uniform(0.2, 2) for _ in range(d)] for _ in range(b)], r.random() < 0.6]


def corrupt(t):
    e = next(e for e in t["ev"] if e["op"] == "predict" and e["out"] == "ok" and len(e["ys"]) > 1)
    e["ys"][1] += 1e-5 * (1 + max(abs(y) for y in e["ys"]))
