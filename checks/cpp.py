"""Objects that are exported to C++: programs for C23 and C24."""
import dmps as M
import dynsys as D
import fas as F

MC = """SPECIFICATION Spec
CONSTANTS Read = %s
 Renewed = %s
 Depth = %d
 Generate = %s
CHECK_DEADLOCK FALSE
"""
INV = "INVARIANT AnswersAsPython\n"
ALL = '{"tau", "init", "attr", "model"}'
SET = '{"tau", "init", "attr"}'
KINDS = ["exponential", "sigmoid", "spring", "gating", "time"]
TYPES = ["IJSPEERT_2002_MOVEMENT", "KULVICIUS_2012_JOINING", "COUNTDOWN_2013"]


def mc(ctx):
    ctx.mc("DeployMC", MC % (ALL, SET, 0, "FALSE") + INV, what="setting, exporting, setting in C++ and asking, any number of calls")
    ctx.mc("DeployMC", MC % ('{"tau", "init", "attr"}', SET, 0, "FALSE") + INV, expect_error="Invariant AnswersAsPython", what="a part of the file that is not read")
    ctx.mc("DeployMC", MC % (ALL, '{"tau", "attr"}', 0, "FALSE") + INV, expect_error="Invariant AnswersAsPython", what="a setting that does not renew what is kept")


def histories(ctx, depth):
    hs = ctx.generate("DeployMC", MC % (ALL, SET, depth, "TRUE") + "INVARIANT Emit\nCONSTRAINT Bound\n")
    return [h for h in hs if "export" in h and "ask" in h[h.index("export"):]]


# ---------------------------------------------------------------- dynamical systems
def system(r, kind, name):
    p = D.system(r, kind, name)
    n, q = p["n"], p["par"]
    for k in ("alpha", "rmax", "infl", "d", "k", "m"):      # C++ has one number for all dimensions
        if isinstance(q.get(k), list):
            q[k] = q[k][0]
    for k in ("x0", "attr"):
        if k in q and not isinstance(q[k], list):
            q[k] = [q[k]]
    p["what"] = "system"
    return p


def scalar(c):
    if c[0] == "set" and c[1] in ("alpha", "rmax", "infl", "d", "k", "m") and isinstance(c[2], list):
        c[2] = c[2][0]
    return c


def system_change(r, p, part, python):
    k = p["kind"]
    if part == "tau":
        return scalar(D.change(r, p, "tau"))
    if part == "init":
        return [D.change(r, p, r.choice(["x_init", "y_init"]))] [0] if k != "time" else D.change(r, p, "tau")
    if part == "attr":
        return scalar(D.change(r, p, r.choice(["attr", "x_attr"]) if k == "exponential" else "attr" if k == "spring" else "tau"))
    if python:
        return scalar(D.change(r, p))
    w = {"spring": ["d", "k", "m"], "sigmoid": ["rmax"], "gating": ["rmax"]}.get(k, ["tau"])
    return scalar(D.change(r, p, r.choice(w)))


def system_ask(r, p):
    n = p["n"] if p["kind"] != "time" else 1
    x = r.random()
    if x < 0.25:
        return ["start", D.state(r, n) if p["kind"] != "time" and r.random() < 0.4 else None]
    if x < 0.4:
        return ["rate", D.some_state(r, p)]
    if x < 0.65:
        return D.step(r, p)
    if x < 0.75:
        return D.integration(r, p)
    return ["solution", D.times(r, p)]


def system_ops(r, p, h):
    ops, python = [], True
    for c in h:
        if c == "ask":
            ops += [system_ask(r, p), system_ask(r, p)]
        elif c in ("export", "back"):
            ops.append([c])
            python = c == "back"
        else:
            if p["kind"] == "time" and not python and c != "tau":
                continue
            c = system_change(r, p, c if not (python is False and c == "model") else "model", python)
            if c[1] == "down" and not python:
                continue
            ops.append(c)
    if not python:
        ops += [["read"], system_ask(r, p), ["solution", D.times(r, p)], ["start", None]]
        if r.random() < 0.2:
            ops.append(["phase", r.choice(["euler", "rk", "integrate", "solution"]), 0.03 * p["tau"], 60] if p["kind"] == "time" else
                       ["agree", r.choice([0.3, 0.9]) * ([p["tau"]] + [c[2] for c in ops if c[:2] == ["set", "tau"]])[-1], 600])
        ops += [["back"], ["read"], ["start", None], ["solution", D.times(r, p)]] if r.random() < 0.3 else []
    return ops


# ---------------------------------------------------------------- approximators
def approximator(r, kind, name):
    p = F.program(r, kind, name)
    p["what"] = "fa"
    return p


def approximator_ops(r, p, h):
    ops, python = [F.train(r, p)], True
    for c in h:
        if c == "ask":
            ops.append(F.predict(r, p))
        elif c in ("export", "back"):
            ops.append([c])
            python = c == "back"
        elif python:
            ops += [F.train(r, p)] if c == "model" else [F.select(r, p), F.set_(r, p)]
    ops.append(F.predict(r, p))
    return ops


# ---------------------------------------------------------------- DMPs
def dmp(r, name, type_, fa="any"):
    while True:
        p = M.dmp(r, name, type_=type_, fa=fa)
        if p["fas"] and (p["fas"]["kind"] not in ("rbfn", "lwr") or "f" not in p["fas"] or "only" in p["fas"]):
            continue
        ov = p.get("override", {})
        if any(q["kind"] == "richards" for q in ov.values()):
            continue
        for q in ov.values():
            for k in ("alpha", "d", "k", "m"):
                if isinstance(q["par"].get(k), list):
                    q["par"][k] = q["par"][k][0]
        p["what"] = "dmp"
        return p


def sub_setting(r, p, python):
    while True:
        c = M.sub_setting(r, p)
        if python or c[1] == "spring_system" and c[2] in ("d", "k"):
            c[3] = c[3][0] if isinstance(c[3], list) else c[3]
            return c


def dmp_ask(r, p):
    x = r.random()
    if x < 0.2:
        return ["start", D.state(r, p["n"]) if r.random() < 0.4 else None, False]
    if x < 0.35:
        return ["rate", M.state(r, p)]
    if x < 0.6:
        return M.step(r, p)
    if x < 0.75:
        return M.integrate(r, p)
    c = M.solution(r, p)
    c[2] = False
    return c


def dmp_ops(r, p, h):
    ops, python = [], True
    names = {"tau": "tau", "init": "y_init", "attr": "y_attr"}
    for c in h:
        if c == "ask":
            ops += [dmp_ask(r, p), dmp_ask(r, p)]
        elif c in ("export", "back"):
            ops.append([c] if c == "back" else [c, "read" if p.get("override") or r.random() < 0.4 else r.choice(["type", "type later", "spring"])])
            if c == "export" and r.random() < 0.15:
                ops[-1][1] = "systems"
            python = c == "back"
        elif c == "model":
            x = r.random()
            if x < 0.3 or not python or not p["fas"]:
                ops.append(sub_setting(r, p, python))
            elif x < 0.6:
                ops.append(M.train(r, p))
            else:
                ops += [M.select(r, p), M.set_(r, p)]
        elif not python and c == "attr" and r.random() < 0.3:
            ops.append(sub_setting(r, p, python))
        else:
            ops.append(M.setting(r, p, names[c]))
    if not python:
        ops += [["read"], dmp_ask(r, p), dmp_ask(r, p), ["start", None, False], ["solution", M.times(r, p), False, False]]
        x = r.random()
        if x < 0.1:
            ops.append(["agree", 300, 1.2])
        elif x < 0.2:
            ops.append(["converged", 450, 8.0, r.choice(["solution", "integrate"])])
        ops += [["back"], ["read"], ["start", None, False], ["solution", M.times(r, p), False, False]] if r.random() < 0.3 else []
    return ops


# ---------------------------------------------------------------- programs
def programs(ctx, systems, approximators, dmps, hs):
    r = ctx.rng
    progs = []
    for i in range(systems):
        h = hs[i % len(hs)] if systems >= len(hs) else r.choice(hs)
        p = system(r, KINDS[i % 5], f"system-{i}-" + "-".join(h))
        p["ops"] = system_ops(r, p, h)
        progs.append(p)
    for i in range(approximators):
        h = r.choice(hs)
        p = approximator(r, ["rbfn", "lwr"][i % 2], f"approximator-{i}-" + "-".join(h))
        p["ops"] = approximator_ops(r, p, h)
        progs.append(p)
    for i in range(dmps):
        h = hs[i % len(hs)] if dmps >= len(hs) else r.choice(hs)
        p = dmp(r, f"dmp-{i}-" + "-".join(h), TYPES[i % 3])
        p["ops"] = dmp_ops(r, p, h)
        progs.append(p)
    return progs


# ---------------------------------------------------------------- control loops
ALLOC = """SPECIFICATION Spec
CONSTANTS Prepared = %s
 Kept = %s
 Dropped = %s
 Depth = %d
 Generate = %s
CHECK_DEADLOCK FALSE
CONSTRAINT Bound
"""
TEMPS = '{"forcing", "approximation", "stages"}'
NONE = "INVARIANT NoAllocation\n"


def alloc_mc(ctx):
    ctx.mc("AllocMC", ALLOC % (TEMPS, TEMPS, "{}", 0, "FALSE") + NONE, what="any calls and settings")
    for what, a in (("a temporary that is allocated by the first call", ('{"forcing", "approximation"}', TEMPS, "{}")),
                    ("a temporary that is not kept", (TEMPS, '{"forcing", "stages"}', "{}")),
                    ("a setting that drops a temporary", (TEMPS, TEMPS, '{"stages"}'))):
        ctx.mc("AllocMC", ALLOC % (*a, 0, "FALSE") + NONE, expect_error="Invariant NoAllocation", what=what)


def loop_histories(ctx, depth):
    return ctx.generate("AllocMC", ALLOC % (TEMPS, TEMPS, "{}", depth, "TRUE") + "INVARIANT Emit\n")


def loops(ctx, n, hs):
    """Control loops on exported systems, DMPs and approximators: one program per history and kind of object."""
    r = ctx.rng
    progs = []
    for i in range(n):
        h = hs[i % len(hs)]
        name = f"loop-{i}-" + "-".join(h)
        k = r.random()
        if k < 0.15:
            p = approximator(r, r.choice(["rbfn", "lwr"]), name)
            p["ops"] = [F.train(r, p), ["export"]] + [F.predict(r, p) for c in h if c != "set"]
        elif k < 0.45:
            p = system(r, r.choice(KINDS), name)
            ops = [["export"], ["start", None]]
            for c in h:
                if c == "set":
                    ops.append(system_change(r, p, r.choice(["tau", "init", "attr", "model"]), False))
                    if ops[-1][1] in ("x_init", "y_init", "down") and p["kind"] == "time":
                        ops.pop()
                elif c == "rate":
                    ops.append(["rate", D.some_state(r, p)])
                elif c == "output":
                    ops.append(D.integration(r, p))
                else:
                    s = D.step(r, p)
                    s[1] = c
                    ops.append(s)
            p["ops"] = ops
        else:
            p = dmp(r, name, TYPES[i % 3])
            ops = [["export", "read" if p.get("override") else r.choice(["read", "type", "type later", "systems"])], ["start", None, False]]
            for c in h:
                if c == "set":
                    ops.append(sub_setting(r, p, False) if r.random() < 0.2 else M.setting(r, p, r.choice(["tau", "y_init", "y_attr"])))
                elif c == "rate":
                    ops.append(["rate", M.state(r, p)])
                elif c == "output":
                    ops.append(["integrate", r.choice(["euler", "rk", "default"]), [0.013 * p["tau"] * j for j in range(r.randint(3, 40))]])
                else:
                    s = M.step(r, p)
                    s[1] = c
                    ops.append(s)
            p["ops"] = ops
        progs.append(p)
    return progs
