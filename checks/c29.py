"""C29: basis functions give their documented activations, in Python and C++."""
import cppbuild
import dynsys as D


def program(r, i):
    ops = []
    for _ in range(4):
        what = r.choice(["gaussian"] * 3 + ["covariances", "covariances", "cosine", "cosines"])
        k, b, n = D.rarely(r, [1, 1, 2, 3], [6]), D.rarely(r, [1, 1, 2, 3, 5, 9], [30]), D.rarely(r, [1, 2, 4, 7], [70])
        far = r.choice([1, 1, 1, 3, 60])
        q = dict(what=what, normalized=False, asymmetric=False, sized=r.random() < 0.5, by_default=r.random() < 0.5, by="cpp")
        q["centers"] = [D.nums(r, k, -2, 2) for _ in range(b)]
        if r.random() < 0.5:
            q["centers"].sort()
        q["xs"] = [D.nums(r, k, -2 * far, 2 * far) for _ in range(n)]
        if r.random() < 0.4:        # at a center, or far away
            q["xs"][r.randrange(n)] = list(r.choice(q["centers"]))
        if r.random() < 0.3:
            q["xs"][r.randrange(n)] = [x + r.choice([50.0, -80.0, 1e4]) for x in r.choice(q["centers"])]
        if what == "gaussian":
            q["widths"] = [[r.uniform(0.05, 2) for _ in range(k)] for _ in range(b)]
            q["normalized"] = r.random() < 0.5
            q["by"] = r.choice(["cpp", "python"])
            q["asymmetric"] = q["by"] == "cpp" and r.random() < 0.5
        elif what == "covariances":
            q["covars"], q["priors"] = [], [r.choice([1.0, 0.5, 2.0, r.uniform(0.1, 3)]) for _ in range(b)]
            for _ in range(b):
                a = [D.nums(r, k, -1, 1) for _ in range(k)]
                q["covars"].append([[sum(a[i][l] * a[j][l] for l in range(k)) + 0.3 * (i == j) for j in range(k)] for i in range(k)])
            q["normalized"] = r.random() < 0.6
        else:
            q["phases"] = D.nums(r, b, -4, 4)
            if far > 3:
                q["xs"] = [[x / far for x in row] for row in q["xs"]]
        ops.append(["basis", q])
    return dict(name=f"basis-{i}", ops=ops)


def check(ctx):
    r = ctx.rng
    exe = cppbuild.build(ctx.scratch)
    traces = [t for t in ctx.drive("drv_matrix.py", [program(r, i) for i in range(ctx.n(250, 3000))], env=dict(VERIF_CPP=str(exe))) if t]
    ctx.validate("BasisTrace", traces)

    def corrupt(t):
        e = next(e for e in t["ev"] if e["normalized"] and len(e["centers"]) > 1)
        e["a"][0][0] += 1e-6
    ctx.binding_demo("BasisTrace", traces, corrupt)
