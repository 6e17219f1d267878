"""C02: a learning session on disk answers the same after reopening."""
import sessions


def check(ctx):
    sessions.mc(ctx)
    r = ctx.rng
    traces = []
    ks = [{"k1": ["samples", 1, None], "k2": ["samples", 11, None]}, {"k1": ["cost", 0, 1], "k2": ["cost", 0, "eval"]}]
    for d in ("TRUE", "FALSE"):
        hs = [h for h in sessions.histories(ctx, d, ctx.n(3, 4)) if any(c[0] in ("reopen", "save_all") for c in h)]
        ps = [sessions.program_of(ctx, h, r.random() < 0.5, d == "TRUE", r.choice(ks)) for h in hs]
        for p in ps:
            p["ops"].append(["files", []])
        traces += sessions.run_programs(ctx, ps, f"model-{d}-", False)
    # Every kind of value, told and then asked for by a new process.
    ps = []
    for v in sessions.ARRAYS + sessions.TABLES + sessions.OBJECTS:
        for hasdir in (True, False):
            ps.append(dict(task=False, hasdir=hasdir, n=4, values=[v], dmps=[],
                           ops=[["open", []], ["tell", "x", 2, 7, v], ["reopen" if hasdir else "save_all"],
                                ["ask", "x", 2, 7], ["mutate"], ["ask", "x", 2, 7], ["ask", "n_samples_per_update", None, None],
                                ["files", []]]))
    # An entry told again with a value of another kind, then asked for by a new process.
    for v in ("arr_2x3_1", "tab_3", "obj_gauss2", "arr_1x3_1"):
        for w in ("arr_2x3_2", "tab_1", "obj_task2", "arr_3x1_1", "arr_3_1"):
            ps.append(dict(task=True, hasdir=False, n=4, values=[v, w], dmps=[],
                           ops=[["open", []], ["tell", "x", 0, None, v], ["save"], ["tell", "x", 0, None, w], ["files", []], ["save_all"],
                                ["ask", "x", 0, None], ["files", []]]))
            ps.append(dict(task=True, hasdir=True, n=4, values=[v, w], dmps=[],
                           ops=[["open", []], ["tell", "x", 0, None, v], ["tell", "x", 0, None, w], ["reopen"],
                                ["ask", "x", 0, None], ["tell", "x", 0, None, v], ["reopen"], ["ask", "x", 0, None], ["files", []]]))
    # An entry told again with almost the same value.
    for v in ("arr_2x3_1", "arr_3_1", "arr_1500_1", "tab_3", "tab_70", "obj_gauss2"):
        for a, b in ((v, "near_" + v), ("near_" + v, v)):
            ps.append(dict(task=True, hasdir=True, n=4, values=[a, b], dmps=[],
                           ops=[["open", []], ["tell", "x", 0, 1, a], ["tell", "x", 0, 1, b], ["reopen"], ["ask", "x", 0, 1],
                                ["tell", "x", 0, 1, a], ["reopen"], ["ask", "x", 0, 1], ["files", []]]))
    traces += sessions.run_programs(ctx, ps, "value-", True)
    ps = []
    for i in range(ctx.n(150, 1500)):
        hasdir = i % 4 > 0
        p, keys = sessions.random_program(r, i % 2 == 0, hasdir, r.randint(5, 25), hasdir, dmp=hasdir, saves=not hasdir)
        opens = 0
        ops = []
        for o in p["ops"]:  # at most three reopenings in a program
            opens += o[0] == "reopen"
            if o[0] != "reopen" or opens <= 3:
                ops.append(o)
        p["ops"] = ops + [["reopen"] if hasdir else ["save_all"]] + [["files", p["dmps"]]]
        p["ops"] += [[o, *k] for k in keys for o in ("exists", "ask")]
        ps.append(p)
    traces += sessions.run_programs(ctx, ps, "random-", True)
    ctx.validate("SessionTrace", traces, "CONSTANT KeepOld = FALSE\n", invariants=["TraceVisible", "TraceDurable"])

    def corrupt(t):
        e = next(e for e in t["ev"] if e["op"] == "files")
        e["files"] = e["files"][1:]
    ctx.binding_demo("SessionTrace", traces[::-1], corrupt, "CONSTANT KeepOld = FALSE\n")
