"""C23: what is exported to C++ behaves as in Python."""
import cpp
import cppbuild


def check(ctx):
    r = ctx.rng
    cpp.mc(ctx)
    hs = cpp.histories(ctx, ctx.n(4, 5))
    exe = cppbuild.build(ctx.scratch)
    progs = cpp.programs(ctx, ctx.n(350, 2500), ctx.n(150, 1000), ctx.n(400, 3000), hs)
    res = [x for x in ctx.drive("drv_cpp.py", progs, env=dict(VERIF_CPP=str(exe))) if x]
    ctx.failures += [(x["name"], 0, "run", x["broken"], None) for x in res if "broken" in x]
    res = [x for x in res if "trace" in x]
    for what, module in (("system", "DynSysCppTrace"), ("fa", "FATrace"), ("dmp", "DmpCppTrace")):
        ctx.validate(module, [x["trace"] for x in res if x["what"] == what])
    import dmps as M
    ctx.binding_demo("DmpCppTrace", [x["trace"] for x in res if x["what"] == "dmp"], M.corrupt)
