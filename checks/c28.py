"""C28: matrices keep their numbers in the files and JSON of the C++ library."""
import cppbuild
import dynsys as D

MC = """SPECIFICATION Spec
CONSTANTS Names = {"a", "d/b"}
 Values = {1, 2}
 Asks = %s
 Truthful = %s
 Depth = %d
 Generate = %s
CHECK_DEADLOCK FALSE
"""
INV = "INVARIANT LoadsWhatWasSaved\nINVARIANT FilesAreThoseSaved\n"
FORMS = ["plain", "tabs", "wide", "trailing", "leading", "blank", "header", "comments", "windows", "unended", "short", "numpy", "savetxt", "savetxt"]
BAD = ["bad-words", "bad-ragged", "bad-short", "bad-comma", "bad-json", "bad-tail", "bad-unit"]


def number(r):
    x = r.random()
    if x < 0.2:
        return float(r.choice([0, 1, -1, 2, 10, -3]))
    if x < 0.3:
        return r.choice([1, -1]) * 10.0 ** r.randint(-12, 9) * r.uniform(1, 9)
    if x < 0.4:
        return r.choice([1 / 3, -0.0, 5e-7, 123456789.123456789, 0.1, 1e-300, -2.5e-7, 999999.9999999])
    return r.uniform(-5, 5)


def matrix(r):
    n, k = r.choice([(1, 1), (1, 3), (3, 1), (5, 1), (2, 2), (4, 3), (2, 5), (r.randint(1, 12), r.randint(1, 6))]) if r.random() < 0.98 else r.choice([(2, 70), (2, 600), (300, 2), (1, 120), (150, 1)])
    return [[number(r) for _ in range(k)] for _ in range(n)]


def step(r, c, known):
    name = c[1]
    if c[0] == "save":
        m = matrix(r)
        return ["save", name, m, len(m[0]) == 1 and r.random() < 0.5, True if c[2] else r.choice([False, None]),
                r.choice(["plain", "slash"]) if "/" in name or r.random() < 0.3 else None]
    if c[0] == "write":
        return ["write", name, matrix(r), r.choice(FORMS if c[2] == "matrix" else BAD)]
    if c[0] == "load":
        return ["load", name, r.random() < 0.3]
    return ["numpy", name]


def check(ctx):
    r = ctx.rng
    ctx.mc("FilesMC", MC % ("TRUE", "TRUE", 0, "FALSE") + INV, what="saving, writing by others, and loading, in any order")
    ctx.mc("FilesMC", MC % ("FALSE", "TRUE", 0, "FALSE") + INV, expect_error="is violated", what="saving that does not ask whether it may overwrite")
    ctx.mc("FilesMC", MC % ("TRUE", "FALSE", 0, "FALSE") + INV, expect_error="is violated", what="saving that always tells it saved")
    hs = ctx.generate("FilesMC", MC % ("TRUE", "TRUE", ctx.n(3, 4), "TRUE") + "INVARIANT Emit\nCONSTRAINT Bound\n")
    exe = cppbuild.build(ctx.scratch)
    progs = []
    for i in range(ctx.n(150, 1200)):
        ops = []
        for c in r.choice(hs):
            ops.append(step(r, c, ops))
            if r.random() < 0.4:
                ops.append(["load", c[1], r.random() < 0.3])
        ops += [["load", n, False] for n in ("a", "d/b")] + [["numpy", n] for n in ("a", "d/b")]
        progs.append(dict(name=f"history-{i}", ops=ops))
    for i in range(ctx.n(100, 800)):
        ops = []
        for _ in range(r.randint(4, 12)):
            n = r.choice(["a", "b.txt", "d/b", "d/e/c.txt", "missing"])
            c = r.choice([["save", n, r.random() < 0.5]] * 2 + [["write", n, r.choice(["matrix", "matrix", "text"])], ["load", n], ["load", n], ["numpy", n]])
            if n == "missing" or (c[0] == "save" and "/" in n and r.random() < 0.5):
                c = ["load", n]
            ops.append(step(r, c, ops))
            m = matrix(r)
            ops.append(["json", m, r.choice(["flat", "column"]) if len(m[0]) == 1 and r.random() < 0.6 else False, r.choice(["python", "cpp", "read"])])
            if ops[-1][2] == "column" and ops[-1][3] != "python":
                ops[-1][2] = "flat"
        progs.append(dict(name=f"random-{i}", ops=ops))
    traces = [t for t in ctx.drive("drv_matrix.py", progs, env=dict(VERIF_CPP=str(exe))) if t]
    ctx.validate("FilesTrace", traces)

    def corrupt(t):
        e = next(e for e in t["ev"] if e["op"] == "load" and e["loaded"])
        e["m"][-1][-1] += 1e-6
    ctx.binding_demo("FilesTrace", traces, corrupt)
