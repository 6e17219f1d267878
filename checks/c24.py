"""C24: control loops allocate nothing (C++)."""
import cpp
import cppbuild


def check(ctx):
    cpp.alloc_mc(ctx)
    hs = cpp.loop_histories(ctx, ctx.n(4, 5))
    ctx.rng.shuffle(hs)
    deploy = cpp.histories(ctx, 3)
    for kind in ("release", "debug"):      # the debug build has assertions, and the library's own check
        exe = cppbuild.build(ctx.scratch, kind)
        progs = cpp.loops(ctx, len(hs) * ctx.n(1, 3) if kind == "release" else ctx.n(300, len(hs)), hs)
        progs += cpp.programs(ctx, ctx.n(100, 800), ctx.n(50, 300), ctx.n(100, 800), deploy)
        for p in progs:
            p["name"] = kind + "-" + p["name"]
        res = [x for x in ctx.drive("drv_cpp.py", progs, env=dict(VERIF_CPP=str(exe))) if x]
        ctx.failures += [(x["name"], 0, "run", x["broken"], None) for x in res if "broken" in x]
        traces = [dict(name=x["trace"]["name"] if "trace" in x else x["name"], cfg={}, ev=x["calls"]) for x in res if x["calls"]]
        ctx.validate("RealTimeTrace", traces)

    def corrupt(t):
        t["ev"][-1]["allocs"] = 1
    ctx.binding_demo("RealTimeTrace", traces, corrupt)
