"""Programs for dynamical systems, shared by C11, C12 and C13."""
import math

KINDS = ["exponential", "sigmoid", "spring", "richards", "gating", "time"]
MC = """SPECIFICATION Spec
CONSTANTS Forget = %s
 Depth = %d
 Generate = %s
CHECK_DEADLOCK FALSE
"""


def mc(ctx):
    ctx.mc("DynSysMC", MC % ('{"tau", "init", "attr"}', 0, "FALSE") + "INVARIANT AnswersFollowSettings\n",
           what="settings, a kept constant and queries, any number of calls")
    ctx.mc("DynSysMC", MC % ('{"tau", "attr"}', 0, "FALSE") + "INVARIANT AnswersFollowSettings\n",
           expect_error="Invariant AnswersFollowSettings", what="a kept constant that survives a change of the initial state")


def histories(ctx, depth):
    return ctx.generate("DynSysMC", MC % ('{"tau", "init", "attr"}', depth, "TRUE") + "INVARIANT Emit\nCONSTRAINT Bound\n")


def rarely(r, often, big, p=0.03):
    """One of the first list, or now and then one of the second: sizes that are seldom tried."""
    return r.choice(big if r.random() < p else often)


def nums(r, n, lo, hi):
    return [r.uniform(lo, hi) for _ in range(n)]


def par(r, n, lo, hi):
    """One number for all dimensions, or one per dimension."""
    return r.uniform(lo, hi) if r.random() < 0.5 else nums(r, n, lo, hi)


def state(r, n, kind=None):
    """Numbers; with the kind of a system also zeros and numbers of other sizes, where the system has them."""
    x = [r.choice([-1, 1]) * r.uniform(0.1, 3) for _ in range(n)]
    if r.random() < 0.15:
        x = [float(math.copysign(math.ceil(abs(v)), v)) for v in x]
    if kind in ("exponential", "spring", "richards") and r.random() < 0.3:
        some = [0.0, 0.0, 1.0, 1e-7, -3e-4, 250.0] if kind != "richards" else [0.0, 1.0]
        x = [r.choice(some) if r.random() < 0.6 else v for v in x]
    return x


def near(r, x, n):
    """Numbers that (nearly) equal x."""
    x = x if isinstance(x, list) else [x] * n
    by = r.choice([0.0, 1e-12, 1e-9, 1e-6, 1e-4, 3e-3])
    return [v + r.choice([-1, 1, 0]) * by for v in x]


def system(r, kind, name):
    n = 1 if kind == "time" else rarely(r, [1, 1, 2, 3], [6, 10])
    p = dict(kind=kind, n=n, tau=rarely(r, [0.1, 0.5, 0.6, 1.0, 1.7, 5.0, r.uniform(0.2, 4)], [0.004, 0.02, 40.0, 150.0], 0.05), name=name)
    x0 = state(r, n, kind)
    if n == 1 and r.random() < 0.3:
        x0 = x0[0]
    t = p["tau"]
    if kind == "exponential":
        q = dict(x0=x0, attr=state(r, n, kind) if r.random() < 0.85 or n > 1 else 1.5, alpha=par(r, n, 0.5, 20))
    elif kind == "sigmoid":
        q = dict(x0=x0, rmax=par(r, n, -15 / t, -3 / t) if r.random() < 0.7 else par(r, n, 1 / t, 10 / t), infl=par(r, n, 0.2, 1.2))
    elif kind == "gating":
        q = dict(ratio=r.choice([0.1, 0.5, 0.01, r.uniform(0.05, 0.9)]))
    elif kind == "time":
        q = dict(down=r.random() < 0.5)
    elif kind == "spring":
        q = dict(x0=x0, attr=state(r, n, kind) if n > 1 or r.random() < 0.8 else 0.7, d=par(r, n, 4, 25), k="CRITICALLY_DAMPED")
        if r.random() < 0.3:
            q["m"] = par(r, n, 0.3, 3)
        if r.random() < 0.3:
            q["k"] = par(r, n, 5, 150)
        elif r.random() < 0.3:
            q["explicit"] = True
    else:
        q = dict(x0=x0, attr=state(r, n, kind), infl=par(r, n, -0.1, 1.0), alpha=par(r, n, 1, 15), v=par(r, n, 0.4, 3))
        if n > 1 and r.random() < 0.3:
            q["attr"][0] = (q["x0"][0] if isinstance(q["x0"], list) else q["x0"]) * (1 + r.choice([0, 0, 3e-16, -2e-16, 1e-15, 1e-13]))
    if kind in ("exponential", "spring") and r.random() < 0.2:
        q["attr"] = near(r, x0, n)
    p["par"] = q
    return p


def change(r, p, what=None):
    """A change of a setting that the system has."""
    k, n = p["kind"], p["n"]
    ok = ["tau", "x_init", "y_init"]
    if k in ("exponential", "spring", "richards"):
        ok += ["attr", "attr"]
    if k == "exponential":
        ok += ["alpha", "x_attr"]
    if k == "spring":
        ok += ["d", "k", "m"]
    if k in ("sigmoid", "gating"):
        ok += ["rmax"]
    if k == "richards":
        ok += ["alpha", "v", "infl"]
    if k == "time":
        ok = ["tau", "down"]
    w = r.choice(ok) if what is None or what not in ok else what
    if what == "attr" and "attr" not in ok:
        w = "tau" if k != "time" else "down"
    if w == "tau" and r.random() < 0.3:
        return ["set", w, p["tau"] * (1 + r.choice([-1, 1]) * r.choice([1e-5, 1e-3, 0.03])), True]
    if w in ("x_init", "y_init", "attr", "x_attr") and r.random() < 0.25 and k != "gating":
        x = p["par"]["x0" if w.endswith("init") else "attr"]      # almost the old value
        x = list(x) if isinstance(x, list) else [x] * n
        x[-1] *= 1 + r.choice([1e-5, 1e-3, 0.03])
        return ["set", w, x + ([0.0] * n if k == "spring" and w == "x_init" else []), True]
    if w == "tau":
        return ["set", w, r.choice([0.25, 0.5, 0.9, 1.0, 2.0, 3.3]) * (1 if k not in ("sigmoid", "gating") else p["tau"]), True]
    if w == "x_init":
        return ["set", w, state(r, n, k) + (nums(r, n, -2, 2) if k == "spring" else []), True]
    if w in ("y_init", "attr", "x_attr"):
        if k in ("exponential", "spring") and r.random() < 0.2:      # (nearly) where it starts, or ends
            return ["set", w, near(r, p["par"]["attr" if w == "y_init" else "x0"], n), True]
        return ["set", w, state(r, n, k), True]
    if w == "rmax":
        return ["set", w, par(r, n, -13.0 / p["tau"], -4.0 / p["tau"]), True]
    if w == "down":
        return ["set", w, r.random() < 0.5, True]
    lim = {"alpha": (0.5, 15), "v": (0.4, 3), "infl": (0.0, 1.0), "d": (4, 20), "k": (5, 100), "m": (0.3, 3)}[w]
    return ["set", w, par(r, n, *lim), True]


def bad(r, p):
    n = p["n"]
    w = r.choice(["x_init", "y_init"] + (["attr"] if p["kind"] in ("exponential", "spring") else []))
    size = n + r.choice([1, 2]) if w != "x_init" or p["kind"] != "spring" else r.choice([n, 2 * n + 1])
    if w == "x_init" and p["kind"] == "spring" and size == 2 * n:
        size += 1
    return ["set", w, nums(r, size, -1, 1), False]


def some_state(r, p):
    """A state to evaluate (None: the last one)."""
    if r.random() < 0.4 or p["kind"] == "richards":
        return None
    if p["kind"] == "time":
        return [r.choice([0.0, 1.0, -0.1, 1.1, r.random(), r.random()])]
    return nums(r, p["n"] * (2 if p["kind"] == "spring" else 1), -3, 3)


def times(r, p, uniform=False):
    n = rarely(r, [1, 2, 3, 6, 10], [33, 150], 0.02)
    ts = [0.0]
    for _ in range(n - 1):
        ts.append(ts[-1] + (0.1 if uniform else r.uniform(0.01, 0.4)) * p["tau"])
    if r.random() < 0.15:
        ts = [t + 0.3 * p["tau"] for t in ts]
    if p["kind"] == "time" and r.random() < 0.3:
        ts[-1] = p["tau"]
        ts.sort()
    if not uniform and r.random() < 0.08:      # long after the end
        ts.append(r.choice([15, 40, 100, 400]) * p["tau"])
    if not uniform and r.random() < 0.25:      # in another order, and the same again
        ts += [r.choice(ts) for _ in range(r.choice([0, 1, 2]))] + ([1.2 * p["tau"]] if r.random() < 0.5 else [])
        r.shuffle(ts)
    p["times"] = p.get("times", []) + [ts]
    return ts


def other_times(r, p):
    """Times like some before: as many, from and to the same ones."""
    ts = list(r.choice(p.get("times") or [times(r, p)]))
    for i in range(1, len(ts) - 1):
        ts[i] += r.uniform(-0.02, 0.02) * p["tau"]
    return ts


def dt(r, p):
    return p["tau"] * r.choice([0.001, 0.01, 0.02, 0.05, 0.1]) if p.get("what") == "system" or r.random() < 0.97 else 0.0      # (C++ wants them to be positive)


def step(r, p):
    return ["step", r.choice(["euler", "rk", "default"]), dt(r, p), some_state(r, p)]


def integration(r, p):
    ts = [0.0]
    for _ in range(rarely(r, [0, 1, 5, 12], [40, 300])):
        ts.append(ts[-1] + dt(r, p))
    return ["integrate", r.choice(["euler", "rk", "default"]), ts]
