"""C26: a rollout is the movement of the DMP with the sample as its parameters."""
import dmps as M
import dynsys as D

MC = """SPECIFICATION Spec
CONSTANTS Copies = %s
 FixesTime = %s
 Replaces = %s
 Depth = %d
 Generate = %s
CHECK_DEADLOCK FALSE
"""
INV = "INVARIANT RolloutsAreThoseAskedFor\nINVARIANT CallersDmpIsItsOwn\n"


def solver(r, p):
    factor = r.choice([1.0, 1.2, 1.5, 0.5, r.uniform(0.3, 2)])
    dt = p["now"] * factor / D.rarely(r, [1, 7, 12, r.uniform(2, 25), r.uniform(2, 25)], [101.3])
    if p["decimal"]:      # numbers as people write them, whose quotient is a whole number but for rounding
        factor, dt = r.choice([1.0, 1.0, 1.5, 1.2]), r.choice([0.1, 0.1, 0.05, 0.02])
    table = r.random() < 0.4
    return ["solver", dt, factor, table, not table and r.random() < 0.5]


def call(r, p, c):
    if c == "construct":
        p["calls"] = {"rollout1": D.nums(r, 7, -1, 1), "rollout2": D.nums(r, 7, -1, 1)}
        return [solver(r, p)]
    if c.startswith("rollout"):
        return [["rollout", p["calls"][c], 0, c]]
    if c.startswith("tau"):
        p["now"] = p["taus"][c]
        return [["tau", p["now"]]]
    if c.startswith("set"):
        x = r.random()
        if x < 0.5:
            return [M.set_(r, p)]
        return [M.select(r, p)] if x < 0.75 else [r.choice([M.setting(r, p, "y_init"), M.setting(r, p, "y_attr"), M.train(r, p), M.sub_setting(r, p)])]
    if c == "other":
        return [["rollout of"]]
    return [r.choice([["mutate"], ["get"], M.step(r, p), M.solution(r, p), ["json", True], ["copy", r.random() < 0.5], ["read"], M.integrate(r, p)])]


def program(r, i, h, name):
    p = M.dmp(r, name, type_=M.TYPES[i % len(M.TYPES)], fa=M.fas(r, size=r.choice([1, 2, 3, 5])))
    p["decimal"] = 0.1 < p["tau"] < 10 and r.random() < 0.25
    if p["decimal"]:
        p["tau"] = r.choice([0.3, 0.6, 0.7, 1.2, 1.4])
    p["now"] = p["tau"]
    p["taus"] = {"tau1": p["tau"] * r.choice([0.5, 2, 0.9]), "tau2": p["tau"] * r.choice([1.3, 0.7, 1.001])}
    if p["decimal"]:
        p["taus"] = {"tau1": r.choice([0.6, 0.7]), "tau2": r.choice([0.3, 0.9, 1.2])}
    p["ops"] = [M.train(r, p)] * (r.random() < 0.5 or "f" not in p["fas"])
    if r.random() < 0.95:
        p["ops"].append(M.select(r, p))
    p["ops"] += sum([call(r, p, c) for c in h], [])
    return p


def check(ctx):
    r = ctx.rng
    ctx.mc("SolverMC", MC % ("TRUE", "TRUE", "TRUE", 0, "FALSE") + INV, what="solvers, rollouts and changes of the DMP they were made for, in any order")
    ctx.mc("SolverMC", MC % ("FALSE", "TRUE", "TRUE", 0, "FALSE") + INV, expect_error="is violated", what="a solver that works on the DMP of its caller")
    ctx.mc("SolverMC", MC % ("TRUE", "FALSE", "TRUE", 0, "FALSE") + INV, expect_error="Invariant Rollouts", what="a time span that is not fixed")
    ctx.mc("SolverMC", MC % ("TRUE", "TRUE", "FALSE", 0, "FALSE") + INV + "CONSTRAINT Small\n", expect_error="Invariant Rollouts",
           what="rollouts that depend on the ones before")
    hs = ctx.generate("SolverMC", MC % ("TRUE", "TRUE", "TRUE", ctx.n(5, 6), "TRUE") + "INVARIANT Emit\nCONSTRAINT Bound\n")
    hs = [h for h in hs if h[0] == "construct" and h[-1] in ("rollout1", "rollout2", "other")]
    progs = [program(r, i, r.choice(hs), f"history-{i}") for i in range(ctx.n(300, 2500))]
    for i in range(ctx.n(200, 1500)):
        h = ["construct"]
        for _ in range(r.randint(2, 10)):
            h.append(r.choice(["rollout1", "rollout1", "rollout2", "tau1", "tau2", "set1", "other", "query", "query", "construct"]))
        p = program(r, i, h + ["rollout1"], f"random-{i}")
        at = r.choice([k for k, c in enumerate(p["ops"]) if c[0] == "rollout"])
        if r.random() < 0.3:
            p["ops"].insert(at, ["rollout", D.nums(r, 7, -1, 1), r.choice([1, -1, 3]), "bad"])
        progs.append(p)
    traces = [t for t in ctx.drive("drv_dmp.py", progs) if t]
    ctx.validate("RolloutTrace", traces)

    def corrupt(t):
        e = next(e for e in t["ev"] if e["op"] == "rollout" and e["out"] == "ok" and len(e["rows"]) > 3)
        e["rows"][-2][-1] += 1e-3 * (1 + abs(e["rows"][-2][-1]))
    ctx.binding_demo("RolloutTrace", traces, corrupt)
