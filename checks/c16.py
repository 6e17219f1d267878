"""C16: stepwise and closed-form DMP trajectories agree, and reach the goal."""
import dmps as M
import dynsys as D


def check(ctx):
    r = ctx.rng
    M.mc(ctx)
    progs = []
    for i in range(ctx.n(420, 3000)):
        t = M.TYPES[i % len(M.TYPES)]
        what = ["agree", "converged", "tauscale"][i % 3]
        p = M.dmp(r, f"{what}-{i}", type_=t, override=what != "converged")
        ops = []
        for _ in range(r.choice([0, 1, 2, 4])):
            x = r.random()
            if x < 0.4:
                ops.append(M.setting(r, p))
            elif x < 0.5:
                ops.append(M.train(r, p))
            elif x < 0.6:
                ops.append(["start", D.state(r, p["n"]) if r.random() < 0.5 else None, False])
            elif x < 0.7:
                ops.append(M.solution(r, p))
            elif x < 0.8:
                ops.append(["json", True] if r.random() < 0.5 else ["copy", True])
            elif p["fas"] and x < 0.9:
                ops += [M.select(r, p, goal=r.random() < 0.8), M.set_(r, p)]
        if what == "agree":
            ops.append(["agree", r.choice([200, 400, ctx.n(800, 2000)]), r.choice([1.0, 1.3])])
        elif what == "converged":
            ops.append(["converged", r.choice([450, 600]), 8.0, r.choice(["solution", "integrate"])])
        else:
            ops.append(["tauscale", r.choice([0.3, 0.5, 2.0, 3.7, r.uniform(0.2, 5)]), 30, r.choice([0.0137, 0.0413])])
        ops.append(M.solution(r, p))
        p["ops"] = ops
        progs.append(p)
    traces = [t for t in ctx.drive("drv_dmp.py", progs) if t]
    ctx.validate("DmpTrace", traces)

    def corrupt(t):
        e = next(e for e in t["ev"] if e["op"] == "converged" and e["out"] == "ok")
        e["x"][0] += 0.05 * (1 + abs(e["size"][0])) + abs(t["cfg"]["yattr"][0] - t["cfg"]["yinit"][0])
    ctx.binding_demo("DmpTrace", traces, corrupt)
