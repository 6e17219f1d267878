"""C25: trajectories of the C++ implementation."""
import cppbuild
import trajs as J


def check(ctx):
    r = ctx.rng
    J.mc(ctx)
    exe = cppbuild.build(ctx.scratch)
    hows = ["cpp-text", "cpp-file", "cpp-files", "cpp-join", "cpp-copy"]
    progs = []
    for i in range(ctx.n(250, 2000)):
        op = J.poly(r, 0, r.choice(["minjerk", "poly", "poly", "viapoint", "viapoint"]))
        a = op[2]
        a["cpp"] = True
        if a["what"] == "viapoint":      # inside, or beyond the end
            n = len(a["ts"])
            if n < 3:
                continue
            i1 = r.randrange(1, n - 1)
            a["viatime"] = r.choice([a["ts"][i1], a["ts"][i1], (a["ts"][i1] + a["ts"][i1 - 1]) / 2, a["ts"][-1] + 0.1])
        progs.append(dict(what="traj", name=f"generated-{i}", ops=[op, ["cppread", 0], ["through", 0, r.choice(hows), 1], ["read", 1]]))
    names = ["crop", "croptime", "append", "prepend", "padfront", "padend", "zero", "misc", "swap"]
    for i in range(ctx.n(200, 1500)):
        ops = J.starts(r)
        for _ in range(r.randint(3, 9)):
            x = r.random()
            k = r.choice([0, 0, 1])
            if x < 0.15:
                ops.append(["cppread", k])
            elif x < 0.5:
                ops.append(["through", k, r.choice(hows), r.choice([0, 1, 2])])
            elif x < 0.6:
                ops.append(["save", k, r.choice([0, 1, 2]), r.random() < 0.5, r.random() < 0.4, r.random() < 0.5])
            elif x < 0.7:
                ops.append(["cppmisc", k, r.randrange(10**6), r.choice([1, 2]), r.random() < 0.5])
            else:
                ops.append(J.edit(r, r.choice(names), k))
        progs.append(dict(what="traj", name=f"random-{i}", ops=ops + [["cppread", 0], ["read", 0]]))
    res = [x for x in ctx.drive("drv_cpp.py", progs, env=dict(VERIF_CPP=str(exe))) if x]
    ctx.failures += [(x["name"], 0, "run", x["broken"], None) for x in res if "broken" in x]
    traces = [x["trace"] for x in res if "trace" in x]
    ctx.validate("TrajectoryTrace", traces)

    def corrupt(t):
        e = next(e for e in t["ev"] if e["op"] == "through" and e["what"] == "cpp-join" and e["out"] == "ok")
        e["after"][e["to"] - 1]["yds"][-1][0] += 1e-9
    ctx.binding_demo("TrajectoryTrace", traces, corrupt)
