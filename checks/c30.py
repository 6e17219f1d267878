"""C30: the robot performs what the optimization has sampled, and is judged by what it did."""
import bbo
import cpp
import cppbuild
import dmps as M
import dynsys as D

MC = """SPECIFICATION Spec
CONSTANTS Sticky = %s
 Latched = %s
 Release = 1
 End = 7
 Floor = 0
 Places = {2, 3, 5}
INVARIANT HeldUntilReleased
INVARIANT NotBelowFloor
INVARIANT NeverUnder
PROPERTY StaysWhereItLanded
PROPERTY OneWay
CHECK_DEADLOCK FALSE
"""


def task(r):
    return dict(goal=r.choice([-0.7, 0.0, r.uniform(-2, 2)]), margin=r.choice([0.01, 0.0, r.uniform(0, 0.5)]), floor=-0.3,
                weight=r.choice([0.001, 0.0, r.uniform(0, 0.1)]))


def shape(r, p):
    """Movements of the size of a robot's."""
    p["n"] = 2
    p["y0"], p["g"] = D.nums(r, 2, -1, 1), D.nums(r, 2, -1, 1)
    return p


def dmp(r, name, type_, demo):
    while True:
        p = M.dmp(r, name, type_=type_, override=not demo, fa=M.fas(r, f=1.0, kind=r.choice(["rbfn", "lwr"]), size=r.choice([1, 2, 3, 5, 8])))
        ov = p.get("override", {})
        if p["n"] == 2 and "only" not in p["fas"] and not ov and not 10 < p["tau"]:
            break
    p["tau"] = r.uniform(0.25, 1.1)      # (not a multiple of the time step)
    p["fas"]["f"][0] = r.choice([1.0, 10.0, 40.0])
    p["goal"] = r.random() < 0.3
    names = M.NAMES[p["fas"]["kind"]]
    p["select"] = r.choice([names[:1], names[:1], names[:2]])
    p["select"] = [x for x in p["select"] if x not in ("centers", "widths")]
    return p


def library(r, i, ctx):
    name = f"library-{i}"
    how = "traj" if i % 3 == 2 else "dmp"
    p = dmp(r, name, cpp.TYPES[i % 3], how == "traj")
    p.update(what="library", how=how, dir=str(ctx.scratch / "robot" / name), task=task(r), m=r.choice([1, 2, 3]), updates=r.choice([1, 1, 2]),
             seed=r.randint(0, 10**6), sigma=r.choice([0.01, 0.1, 0.3, 1e-4, 1e-5]), least=r.choice([0.01, 1e-3, 1e-6]), dist=dict(kind="gaussian"), updater=bbo.updater(r, 1))
    for k in ("max", "min"):      # (for one dimension)
        if isinstance(p["updater"].get(k), list):
            p["updater"][k] = p["updater"][k][0]
    if how == "traj":
        p["demo"] = M.demo(r, p, samples=r.choice([40, 70]), uniform=True)
    return p


def scripts(r, i, ctx):
    name = f"scripts-{i}"
    p = dict(name=name, what="scripts", how="traj" if i % 3 == 2 else "dmp", dir=str(ctx.scratch / "robot" / name), n=2, tau=1.0,
             fas=dict(kind="rbfn", nbf=r.choice([3, 4, 5])), sigma=r.choice([1.0, 5.0, 0.5]), updates=r.choice([1, 2]))
    p["demo"] = M.demo(r, p, samples=r.choice([40, 60]), uniform=True)
    scale = r.uniform(0.3, 0.9) / p["demo"]["T"]
    p["demo"]["ts"] = [t * scale for t in p["demo"]["ts"]]
    p["demo"]["T"] *= scale
    return p


def check(ctx):
    r = ctx.rng
    ctx.mc("RobotMC", MC % ("TRUE", "TRUE"), what="throws: every movement of the hand, flight and landing, in whole numbers")
    ctx.mc("RobotMC", MC % ("FALSE", "TRUE"), expect_error="is violated", what="a floor on which the ball does not stop")
    ctx.mc("RobotMC", MC % ("TRUE", "FALSE"), expect_error="is violated", what="a hand that gets hold of the ball again")
    exe = cppbuild.robot(ctx.scratch)
    progs = [scripts(r, i, ctx) for i in range(ctx.n(5, 16))]
    progs += [library(r, i, ctx) for i in range(ctx.n(24, 240))]
    for i in range(ctx.n(24, 240)):
        p = dmp(r, f"simulate-{i}", r.choice(M.TYPES), False)
        t = task(r)
        p.update(what="simulate", task=t, floors=r.choice([[-0.3], [-0.3, -0.3], [r.uniform(-1, -0.1)]]))
        progs.append(p)
    for i in range(ctx.n(40, 400)):
        q = dict(n=2, tau=1.0, fas=None)
        demos = [M.demo(r, q, samples=r.choice([20, 60, 100])) for _ in range(r.choice([1, 2]))]
        progs.append(dict(name=f"traj-{i}", what="traj", demos=demos, dir=str(ctx.scratch / "robot" / f"traj-{i}")))
    traces = [t for t in ctx.drive("drv_robot.py", progs, env=dict(VERIF_ROBOT=str(exe))) if t]
    ctx.validate("RobotTrace", traces)

    def corrupt(t):
        e = next(e for e in t["ev"] if e["op"] == "perform" and len(e["rows"]) > 30)
        e["rows"][25][2] += 1e-3
    ctx.binding_demo("RobotTrace", traces, corrupt)
