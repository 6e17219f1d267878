"""Programs for DMPs, shared by C08 and C13 to C18."""
import dynsys as D

TYPES = ["IJSPEERT_2002_MOVEMENT", "KULVICIUS_2012_JOINING", "COUNTDOWN_2013", "SCT23", "SCT23_NO_SCALING", "SCT23_DAMPING",
         "SCT23_NO_SCALING_DAMPING"]
ALIASES = {"IJSPEERT_2002_MOVEMENT": "Ijs02", "KULVICIUS_2012_JOINING": "Kul12", "SCT23": "2022"}
NAMES = {"wls": ["slope", "offset"], "rbfn": ["weights", "centers", "widths"],
         "lwr": ["offsets", "slopes", "centers", "widths"], "gpr": ["gram_inv_targets", "inputs", "lengths"]}
MC = """SPECIFICATION Spec
CONSTANTS TauTo = %s
 InitTo = {"spring", "goal"}
 AttrTo = %s
 Rewrites = %s
 Depth = %d
 Generate = %s
CHECK_DEADLOCK FALSE
"""
ALL = '{"spring", "goal", "phase", "gating", "damping"}'
SCRATCH = '{"spring"}'
INV = "INVARIANT AnswersFollowSettings\n"


def mc(ctx):
    ctx.mc("DmpMC", MC % (ALL, '{"goal"}', SCRATCH, 0, "FALSE") + INV, what="settings kept in the subsystems of a DMP, and queries, any number of calls")
    ctx.mc("DmpMC", MC % ('{"spring", "goal", "phase", "gating"}', '{"goal"}', SCRATCH, 0, "FALSE") + INV,
           expect_error="Invariant AnswersFollowSettings", what="a subsystem that is not told a new tau")
    ctx.mc("DmpMC", MC % (ALL, '{"spring"}', SCRATCH, 0, "FALSE") + INV,
           expect_error="Invariant AnswersFollowSettings", what="a goal system that is not told a new goal")
    ctx.mc("DmpMC", MC % (ALL, '{"goal"}', "{}", 0, "FALSE") + INV,
           expect_error="Invariant AnswersFollowSettings", what="a query that uses what an earlier one left in a subsystem")


def histories(ctx, depth):
    return ctx.generate("DmpMC", MC % (ALL, '{"goal"}', SCRATCH, depth, "TRUE") + "INVARIANT Emit\nCONSTRAINT Bound\n")


# ---------------------------------------------------------------- DMPs
def fas(r, f=0.85, kind=None, size=None):
    k = kind or r.choice(["rbfn", "rbfn", "lwr", "lwr", "wls", "gpr"])
    q = dict(kind=k)
    if k in ("rbfn", "lwr"):
        q["nbf"] = size or D.rarely(r, [1, 2, 3, 5, 8, 13], [20, 24])
        q["height"] = r.choice([0.5, 0.7, 0.8, r.uniform(0.2, 0.8)])
        q["reg"] = r.choice([0.0, 0.0, 1e-6, 0.01] if q["nbf"] < 8 else [1e-6, 0.01] if q["nbf"] < 10 else [0.01])
    elif k == "wls":
        q.update(offset=True, reg=r.choice([0.0, 0.1]))
    else:
        q["length"] = r.uniform(0.05, 0.12)
    if r.random() < f:
        q["f"] = [r.choice([1.0, 20.0, 100.0, 300.0]) * r.uniform(0.5, 1.0), r.uniform(1, 9), r.uniform(0, 6)]
    return q


def dmp(r, name, type_=None, override=True, fa="any"):
    n = D.rarely(r, [1, 1, 1, 2, 2, 2, 3, 3, 5], [7, 11], 0.02)
    t = type_ or r.choice(TYPES)
    p = dict(name=name, n=n, tau=D.rarely(r, [0.5, 1.0, 0.7, 2.0, r.uniform(0.3, 4)], [0.03, 12.0, 60.0]), y0=D.state(r, n), g=D.state(r, n),
             type=t if r.random() < 0.8 else ALIASES.get(t, t))
    if r.random() < 0.1:
        p["g"][0] = p["y0"][0]
    elif r.random() < 0.15:
        p[r.choice(["g", "y0"])] = [r.choice([0.0, 0.0, 1.0, 30.0]) for _ in range(n)]
    elif r.random() < 0.05:
        p["g"] = list(p["y0"])
    p["from_traj"] = r.random() < 0.4
    p["scaling"] = r.choice(["none", "none", "g", "amp"])
    if p["scaling"] == "amp":
        p["amps"] = [r.uniform(0.2, 2) for _ in range(n)]
        if n > 1 and r.random() < 0.15:
            p["amps"][0] = 0.0
    p["fas"] = (fas(r) if r.random() < 0.88 else None) if fa == "any" else fa
    if p["fas"] and "f" in p["fas"] and n > 1 and r.random() < 0.15:
        p["fas"]["only"] = r.sample(range(n), r.randint(1, n - 1))
    if p["scaling"] == "amp" and "f" in (p["fas"] or {}):
        p["fas"]["f"][0] /= 2
    if r.random() < 0.2:
        p["alpha"] = r.choice([10.0, 15.0, 25.0, r.uniform(8, 30)])
    if override and r.random() < 0.35:
        p["override"] = {w: sub(r, p, w) for w in r.sample(["spring", "goal", "phase", "gating"], r.choice([1, 1, 2]))
                         if not (w == "goal" and t.startswith(("SCT23", "2022")) and "NO_SCALING" not in t)}
        if "spring" in p["override"]:
            p.pop("alpha", None)
    return p


def sub(r, p, which):
    """A subsystem that is not the one of the type."""
    n = p["n"]
    q = dict(n=n, name="")
    if which == "spring":
        q.update(kind="spring", par=dict(x0=p["y0"], attr=p["g"], d=D.par(r, n, 8, 25), k="CRITICALLY_DAMPED"))
        if r.random() < 0.6:
            q["par"]["k"] = D.par(r, n, 40, 150)
        if r.random() < 0.5:
            q["par"]["m"] = D.par(r, n, 0.5, 2)
    elif which == "goal":
        if r.random() < 0.5:
            q.update(kind="exponential", par=dict(x0=p["y0"], attr=p["g"], alpha=D.par(r, n, 5, 20)))
        else:
            q.update(kind="richards", par=dict(x0=p["y0"], attr=p["g"], infl=D.par(r, n, 0.1, 0.5), alpha=D.par(r, n, 6, 12), v=D.par(r, n, 0.6, 2)))
    elif which == "phase":
        q["n"] = 1
        q.update(kind="time", par=dict(down=r.random() < 0.5)) if r.random() < 0.5 else \
            q.update(kind="exponential", par=dict(x0=[1.0], attr=[0.0], alpha=r.uniform(3, 6)))
    else:
        q["n"] = 1
        x = r.random()
        if x < 0.4:
            q.update(kind="gating", par=dict(ratio=r.choice([0.1, 0.05, 0.3])))
        elif x < 0.7:
            q.update(kind="exponential", par=dict(x0=[1.0], attr=[0.0], alpha=r.uniform(3, 6)))
        else:
            q.update(kind="richards", par=dict(x0=[1.0], attr=[0.0], infl=r.uniform(0.6, 1.0), alpha=r.uniform(6, 12), v=r.uniform(2, 10)))
            s = q["par"]      # so that the forcing term is not divided by a gating that has become zero by rounding
            s["v"] = min(s["v"], 26 / s["alpha"] / max(1e-3, 1 - s["infl"]))
    return q


def schedules(r, p):
    """Make it a DMP with schedules."""
    k = D.rarely(r, [1, 1, 2, 3], [5, 8])
    s = dict(n=k, fas=fas(r, f=1.0))
    s["fas"]["f"] = [r.choice([1.0, 5.0]) * r.uniform(0.5, 1), r.uniform(2, 9), r.uniform(0, 6)]
    x = r.random()
    lo = r.choice([0.0, -1.0, r.uniform(-1, 0.2), [r.uniform(-1.5, 0) for _ in range(k)], [0.0] * k])
    hi = r.choice([0.0, 1.0, r.uniform(0.3, 1.5), [r.uniform(0.2, 1.5) for _ in range(k)], [0.0] * k])
    if x < 0.25 or x > 0.5:
        s["min"] = lo
    if x >= 0.25:
        s["max"] = hi
    if "min" in s and "max" in s and (lo in (0.0, [0.0] * k) or not isinstance(lo, list) and lo > 0):
        s["max"] = r.choice([0.8, [0.5 + 0.2 * i for i in range(k)]])
    if x > 0.95:
        s.pop("min", None), s.pop("max", None)
    p["sched"] = s
    if p["fas"] is None:      # (the class requires approximators for the movement)
        p["fas"] = fas(r)
    return p


# ---------------------------------------------------------------- operations
def state(r, p):
    if r.random() < 0.5:
        return None
    n = p["n"]
    return {"which": r.randrange(20), "add": D.nums(r, 2 * n, -2, 2) if r.random() < 0.7 else [0.0] * (2 * n),
            "goal": D.nums(r, n, -1, 1) if r.random() < 0.3 and p.get("override", {}).get("goal", {}).get("kind") != "richards" else None}


DTS = [0.00137, 0.0113, 0.0217, 0.0471]


def step(r, p, sched=False):
    m = r.choice(["euler", "rk", "default"])
    return ["step", "sched" if sched else m, p["tau"] * r.choice(DTS), state(r, p)]


def integrate(r, p):
    ts = [0.0]
    m = D.rarely(r, [1, 3, 5], [30, 150], 0.02)
    for _ in range(m):
        ts.append(ts[-1] + p["tau"] * (r.choice(DTS) if m < 10 else r.uniform(0.001, 0.01)))
    return ["integrate", r.choice(["euler", "rk", "default"]), ts]


def times(r, p, most=9):
    m = r.choice([2, 3, 5, most] * 12 + [3 * most] * 3 + [r.choice([100, 100, 270])])
    if r.random() < 0.5:
        end = r.choice([1.0, 0.6, 1.4]) * p["tau"]
        ts = [end * i / (m - 1) for i in range(m)]
        if r.random() < 0.25:     # not quite evenly spread
            e = 10 ** r.uniform(-6, -2) * end / m
            ts = [t + (r.uniform(-e, e) if 0 < i < m - 1 else 0) for i, t in enumerate(ts)]
        return ts
    ts = [0.0]
    for _ in range(m - 1):
        ts.append(ts[-1] + r.uniform(0.02, 0.2) * p["tau"])
    return ts


def solution(r, p, sched=False, given=True):
    return ["solution", times(r, p) if given else None, r.random() < 0.2, sched]


def demo(r, p, still=False, samples=None, uniform=None):
    n = p["n"]
    t = r.choice([0.5, 1.0, 1.3, r.uniform(0.3, 3)]) * (1 if 0.1 < p["tau"] < 10 else p["tau"])
    k = samples or D.rarely(r, [8, 12, 20], [70], 0.02)
    for q in (p["fas"], (p.get("sched") or {}).get("fas")):
        if q and q["kind"] in ("rbfn", "lwr"):     # enough samples for all basis functions
            k = max(k, 3 * q["nbf"])
    if p["fas"] and p["fas"]["kind"] == "gpr":
        k = min(k, 7)
    ts = [t * i / (k - 1) for i in range(k)]
    if uniform is False or uniform is None and r.random() < 0.3 and not (p["fas"] and p["fas"]["kind"] in ("gpr", "rbfn")):
        ts = [0.0] + sorted(r.uniform(0.05, 0.95) * t for _ in range(k - 2)) + [t]
    rest = [n > 1 and r.random() < 0.15 for _ in range(n)]
    fr, to = D.state(r, n), D.state(r, n)
    sines = [[[r.uniform(-1, 1) * 0.5, r.uniform(1, 6) / t] for _ in range(r.choice([0, 1, 2]))] for _ in range(n)]
    sc = [[r.uniform(-0.3, 1.5) + 0.3 * (d % 3) for d in range(max(3, (p.get("sched") or {}).get("n", 0)))] for _ in range(k)]
    return dict(ts=ts, T=t, to=to, sines=sines, rest=rest, still=still, scheds=sc, **{"from": fr})


def train(r, p, given=False, newfas=False, **kw):
    return ["train", demo(r, p, **kw), given, newfas]


def setting(r, p, what=None):
    n = p["n"]
    w = what or r.choice(["tau", "y_init", "y_attr"])
    near = r.random() < 0.25
    if w == "tau":
        return ["tau", p["tau"] * (1 + r.choice([1e-5, 1e-3, -0.03])) if near else r.choice([0.4, 0.8, 1.0, 2.5, r.uniform(0.3, 3)]) * (1 if 0.1 < p["tau"] < 10 else p["tau"])]
    old = p["y0"] if w == "y_init" else p["g"]
    v = list(old) if near else D.state(r, n)
    if r.random() < 0.2:      # the other end, or zeros
        return [w, r.choice([[0.0] * n, list(p["g"] if w == "y_init" else p["y0"]), [r.choice([0.0, x]) for x in v]])]
    if near:
        v[-1] *= 1 + r.choice([1e-6, 1e-3, 0.02])
    return [w, v]


def bad(r, p):
    return [r.choice(["y_init", "y_attr"]), D.nums(r, p["n"] + r.choice([1, 2]), -1, 1)]


def sub_setting(r, p):
    """A parameter of a subsystem."""
    n, ov = p["n"], p.get("override", {})
    ok = [("spring_system", "k", 60, 150)]
    if not ("DAMPING" in p["type"]):
        ok += [("spring_system", "d", 8, 25)]
    ok += [("spring_system", "m", 0.5, 2)]
    goal = ov.get("goal", {}).get("kind")
    if goal is None and p["type"].startswith(("KUL", "Kul", "COUNT")):
        goal = "exponential"
    if goal == "exponential":
        ok += [("goal_system", "alpha", 5, 20)]
    if "DAMPING" in p["type"]:
        ok += [("damping_system", "alpha", 2, 8)]
    s, w, lo, hi = r.choice(ok)
    return ["sub", s, w, D.par(r, n, lo, hi)]


def select(r, p, goal=None):
    names = NAMES[p["fas"]["kind"]]
    if p["fas"]["kind"] == "wls" and not p["fas"].get("offset", True):
        names = ["slope"]
    fa = r.sample(names, r.randint(0 if r.random() < 0.2 else 1, len(names)))
    sn = []
    if p.get("sched") and r.random() < 0.7:
        sn = r.sample(NAMES[p["sched"]["fas"]["kind"]], r.choice([1, 1, 2]))
    g = r.random() < 0.5 if goal is None else goal
    return ["select", fa, g, sn, r.choice(["list", "str", "goalfirst"])]


def set_(r, p, bad=0):
    return ["set", D.nums(r, 7, -1, 1), bad, r.choice([True, True, True, False, "close"])]


def corrupt(t):
    e = next(e for e in t["ev"] if e["op"] == "rate" and e["out"] == "ok")
    n = len(t["cfg"]["yinit"])
    e["xd"][n] += 1e-6 * (1 + abs(e["xd"][n])) + 1e-3
