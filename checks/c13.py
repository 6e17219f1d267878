"""C13: phase and time run monotonically to their end and stay there."""
import dmps as M
import dynsys as D


def check(ctx):
    r = ctx.rng
    D.mc(ctx)
    # the time system by itself
    progs = []
    for i in range(ctx.n(200, 1500)):
        p = D.system(r, "time", f"time-{i}")
        ops = []
        tau = p["tau"]
        for _ in range(r.choice([0, 0, 1, 3])):
            x = r.random()
            c = D.change(r, p) if x < 0.8 else ["mutate"]
            ops.append(c)
            if c[0] == "set" and c[1] == "tau":
                tau = c[2]
            if r.random() < 0.4:
                ops += [["start", None], D.step(r, p)]
        for _ in range(r.choice([1, 2])):
            h = r.choice([0.001, 0.01, 0.1, 0.25, 0.5, 1.0, 0.3, 0.7, 1.5, r.uniform(0.01, 0.9)]) * (tau if r.random() < 0.7 else 1.0)
            steps = min(int(r.choice([1.2, 2.5]) * tau / h) + 3, 400)
            if r.random() < 0.3:
                ops.append(["solution", D.times(r, dict(p, tau=tau))])
            ops.append(["phase", r.choice(["euler", "rk", "integrate", "solution"]), h, steps])
        p["ops"] = ops
        progs.append(p)
    traces = [t for t in ctx.drive("drv_dynsys.py", progs) if t]
    ctx.validate("DynSysTrace", traces)
    # phase and gating in a DMP
    progs = []
    for i in range(ctx.n(300, 2000)):
        p = M.dmp(r, f"dmp-{i}", type_=M.TYPES[i % len(M.TYPES)], override=i % 3 == 0)
        if r.random() < 0.2:
            M.schedules(r, p)
        ops = []
        for _ in range(r.choice([0, 0, 1, 3])):
            ops.append(r.choice([lambda: M.setting(r, p, "tau"), lambda: M.setting(r, p), lambda: M.train(r, p), lambda: ["json", True],
                                 lambda: ["copy", True], lambda: ["start", None, False], lambda: M.solution(r, p)])())
        how = r.choice(["solution", "solution", "rk", "euler"])
        rich = p["type"].startswith(("SCT", "2022")) or p.get("override", {}).get("gating", {}).get("kind") == "richards" \
            or p.get("override", {}).get("goal", {}).get("kind") == "richards"
        h = r.choice([0.0071, 0.0083] if rich and how == "euler" else [0.0071, 0.0113] if rich and how == "rk" else [0.0113, 0.0217, 0.0413])
        ops.append(["phases", how, h, int(2.3 / h)])
        p["ops"] = ops
        progs.append(p)
    traces = [t for t in ctx.drive("drv_dmp.py", progs) if t]
    ctx.validate("DmpTrace", traces)

    def corrupt(t):
        e = next(e for e in t["ev"] if e["op"] == "phases" and e["out"] == "ok")
        e["rows"][-2][1] += 0.02
    ctx.binding_demo("DmpTrace", traces, corrupt)
