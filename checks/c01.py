"""C01: a learning session answers with what was last told to it."""
import sessions


def check(ctx):
    sessions.mc(ctx)
    r = ctx.rng
    traces = []
    ks = [{"k1": ["samples", 1, None], "k2": ["samples", 11, None]}, {"k1": ["cost", 0, 1], "k2": ["cost", 0, "eval"]},
          {"k1": ["x", None, ["np", 0]], "k2": ["x", None, None]}, {"k1": ["x", ["np", 0], None], "k2": ["x", ["np", 1], None]}]
    for d in ("TRUE", "FALSE"):
        hs = [h for h in sessions.histories(ctx, d, ctx.n(3, 4)) if not any(c[0] in ("reopen", "save", "save_all") for c in h)]
        ps = [sessions.program_of(ctx, h, r.random() < 0.5, d == "TRUE", r.choice(ks)) for h in hs]
        traces += sessions.run_programs(ctx, ps, f"model-{d}-", False)
    ps = []
    for i in range(ctx.n(250, 2500)):
        p, keys = sessions.random_program(r, i % 2 == 0, i % 3 > 0, r.randint(10, 40), False)
        p["ops"] += [["mutate"]] + [[o, *k] for k in keys for o in ("exists", "ask")]
        ps.append(p)
    traces += sessions.run_programs(ctx, ps, "random-", False)
    ctx.validate("SessionTrace", traces, "CONSTANT KeepOld = FALSE\n", invariants=["TraceVisible", "TraceDurable"])

    def corrupt(t):
        e = next(e for e in reversed(t["ev"]) if e["op"] == "ask")
        e["got"] = "arr_3x1_2" if e["got"] != "arr_3x1_2" else "error"
    ctx.binding_demo("SessionTrace", traces[::-1], corrupt, "CONSTANT KeepOld = FALSE\n")
