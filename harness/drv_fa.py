"""Runs programs on function approximators. IN: list of programs; OUT: list of traces."""
import contextlib
import copy
import io
import json
import sys
from pathlib import Path

import vlib
from vlib import np, attempt, Trace, Raw, vec, mat

from dmpbbo.functionapproximators.basis_functions import Gaussian
from dmpbbo.functionapproximators.FunctionApproximatorGPR import FunctionApproximatorGPR
from dmpbbo.functionapproximators.FunctionApproximatorLWR import FunctionApproximatorLWR
from dmpbbo.functionapproximators.FunctionApproximatorRBFN import FunctionApproximatorRBFN
from dmpbbo.functionapproximators.FunctionApproximatorWLS import FunctionApproximatorWLS

FIELDS = {"wls": ["slope", "offset"], "rbfn": ["centers", "widths", "weights"],
          "lwr": ["centers", "widths", "slopes", "offsets"], "gpr": ["inputs", "lengths", "gram_inv_targets"]}
MATRICES = {"centers", "widths", "slopes", "inputs", "lengths"}


def val(x):
    return vlib.given(x) if isinstance(x, list) else x


def make(p):
    k, q = p["kind"], p["par"]
    if k == "wls":
        return FunctionApproximatorWLS(q["offset"], q["reg"])
    if k == "gpr":
        return FunctionApproximatorGPR(q["maxcov"], val(q["lengths"]))
    cls = {"rbfn": FunctionApproximatorRBFN, "lwr": FunctionApproximatorLWR}[k]
    return cls(val(q["ns"]), q["height"], q["reg"])


def meta(p):
    k, q, d = p["kind"], p["par"], p["dim"]
    m = dict(reg=float(q.get("reg", 0.0)))
    if k == "wls":
        m["offset"] = q["offset"]
    elif k == "gpr":
        m.update(lengths=vec(np.full((d,), q["lengths"])), maxcov=float(q["maxcov"]))
    else:
        m.update(ns=[int(n) for n in np.full((d,), q["ns"])], height=float(q["height"]))
    return m


def read_model(fa, kind, dim=None, maxcov=None):
    """The parameters of an approximator, read through the selection interface of a copy."""
    fa = copy.deepcopy(fa)
    d = dim or fa.dim_input()
    m = dict(kind=kind)
    for f in FIELDS[kind]:
        fa.set_selected_param_names(f)
        if kind == "wls" and f == "offset":
            try:
                m[f] = vec(fa.get_param_vector())
            except KeyError:  # without offset
                m[f] = []
            continue
        v = fa.get_param_vector()
        m[f] = mat(np.reshape(v, (-1, d))) if f in MATRICES else vec(v)
    if kind == "gpr":
        m["maxcov"] = float(maxcov)
    return m


def run(p):
    kind = p["kind"]
    t = Trace(p["name"])
    t.cfg.update(kind=kind, meta=meta(p))
    fa = make(p)
    garbage, chosen = [], []
    d = p["dim"]
    mc = p["par"].get("maxcov")
    count = -1

    def shape(xs, flat):
        x = vlib.given(xs)
        return x.ravel() if flat and x.shape[1] == 1 else x

    for c in p["ops"]:
        op = c[0]
        if op == "train":
            xs, ys, w, flat = c[1:]
            x, y = shape(xs, flat), vlib.given(ys)
            kw = {} if w is None else dict(weights=vlib.given(w))
            count += 1
            save = p["save"][count % len(p["save"])] if p.get("save") else False
            if save:
                kw["save_training_data"] = True
            keep = x.copy(), y.copy()
            out, _ = attempt(fa.train, x, y, **kw)
            un = bool(np.array_equal(x, keep[0]) and np.array_equal(y, keep[1]) and (w is None or vec(kw["weights"]) == w))
            e = dict(xs=Raw(xs), ys=Raw(ys), w=Raw(w or [1.0] * len(ys)), out=out, unmodified=un)
            if out == "ok":
                new = make(p)
                o2, _ = attempt(new.train, keep[0].copy(), keep[1].copy(), **kw)
                o3, m = attempt(read_model, fa, kind, d, mc)
                o4, m2 = attempt(read_model, new, kind, d, mc)
                none = dict(kind="none")
                p["data"] = [xs, ys] if save else None
                e.update(trained=bool(fa.is_trained()), model=m if o3 == "ok" else none, fresh=m2 if o4 == "ok" else none)
            t.add("train", **e)
            garbage += [x, y]
        elif op == "predict":
            xs, flat = c[1], c[2]
            x = shape(xs, flat)
            keep = x.copy()
            out, y = attempt(fa.predict, x)
            e = dict(xs=Raw(xs), out=out, unmodified=bool(np.array_equal(x, keep)))
            if out == "ok":
                def more():
                    again = np.array_equal(y, fa.predict(x))      # (in another order of memory, rounding may differ)
                    perm = list(range(len(xs)))[::-1]
                    some = sorted({0, 1, 2, len(xs) // 2, len(xs) - 1} & set(range(len(xs))))
                    back = np.ravel(fa.predict(keep[perm]))[::-1]
                    one = [float(np.ravel(fa.predict(keep[i:i + 1]))[0]) for i in some]
                    y1 = np.ravel(y)
                    near = np.allclose(y1, back, rtol=1e-12, atol=1e-12) and np.allclose(y1[some], one, rtol=1e-12, atol=1e-12)
                    return bool(again), bool(near)
                o, r = attempt(more)
                e.update(ys=Raw(vec(y)), again=r[0] if o == "ok" else False, single=r[1] if o == "ok" else False)
                garbage.append(y)
            t.add("predict", **e)
            if out == "ok" and hasattr(fa, "rt"):      # the same in real time
                fa.predict(x)
                t.add("predict", xs=Raw(xs), out="ok", unmodified=True, ys=Raw(vec(fa.rt)), again=True, single=True)
            garbage.append(x)
        elif op == "plot":
            xs, ys, flat, how = c[1:]
            x = shape(xs, flat) if xs is not None else None
            kw = {} if ys is None else dict(targets=np.array(ys))
            ax = vlib.axes(1, (fa.dim_input() or 1) + 1)[0] if how["ax"] else None
            keep = vlib.kept(x, kw.get("targets"))
            kw.update({k: v for k, v in how.items() if k.startswith("plot")}, **({"ax": ax} if ax else {}))
            out, r = attempt(fa.plot, x, **kw) if x is not None else attempt(fa.plot, **kw)
            if x is None and out == "ok" and r[0] is None:
                out = "nothing"
            if x is None:
                xs, ys = p["data"] if p.get("data") else (None, None)
            e = dict(out=out, unmodified=vlib.kept(x, kw.get("targets")) == keep, err=str(r) if out == "raised" else "", xs=Raw(xs or []), ys=Raw(ys or []), targets=ys is not None, residuals=how.get("plot_residuals", True),
                     model=how.get("plot_model_parameters", False), saved=c[1] is not None or bool(p.get("data")))
            if out == "ok":
                e.update(grid=Raw(vlib.lines_of(r[0])), lines=Raw([[list(v) for v in zip(*q.values())] for q in vlib.lines_of(list(r[1].lines))]))
            t.add("plot", **e)
            vlib.close()
            if isinstance(x, np.ndarray):
                garbage.append(x)
        elif op == "acts":
            xs, cs, ws, norm = c[1:]
            out, a = attempt(Gaussian.activations, vlib.given(xs), centers=vlib.given(cs), widths=vlib.given(ws), normalized=norm)
            t.add("acts", xs=Raw(xs), cs=Raw(cs), ws=Raw(ws), norm=norm, out=out, a=Raw(mat(a) if out == "ok" else []))
        elif op == "select":
            out, _ = attempt(fa.set_selected_param_names, c[1] if len(c[1]) != 1 or not c[2] else c[1][0])
            chosen = c[1] if out == "ok" else chosen
            t.add("select", names=Raw(c[1]), out=out)
        elif op == "get":
            out, v = attempt(fa.get_param_vector)
            so, n = attempt(fa.get_param_vector_size)
            t.add("get", out=out, v=Raw(vec(v) if out == "ok" else []), sizeout=so, size=int(n) if so == "ok" else -1,
                  flat=out == "ok" and np.ndim(v) == 1)
            garbage.append(v)
        elif op == "set":
            # relative to the current size: values are drawn from the list given
            so, n = attempt(fa.get_param_vector_size)
            n = int(n) + c[2] if so == "ok" else 1 + c[2]
            if n < 0:
                n = 1
            src = c[1]
            v = np.array([src[i % len(src)] + 0.01 * (i // len(src)) for i in range(n)])
            if c[2] == 0:  # close to the present values, so that widths remain positive; or almost these
                o, cur = attempt(fa.get_param_vector)
                if o == "ok" and np.size(cur) == n and c[3] == "spread" and not {"centers", "widths", "inputs", "lengths"} & set(chosen):
                    v = np.ravel(cur) * 10 ** (6 * v)      # of very different sizes
                elif o == "ok" and np.size(cur) == n:
                    v = np.ravel(cur) * (1 + (3e-9 if c[3] == "close" else 0.05) * v)
            v = v.tolist() if c[4] else vlib.given(v)
            keep = vec(v)
            out, _ = attempt(fa.set_param_vector, v)
            t.add("set", v=Raw(keep), out=out, unmodified=vec(v) == keep)
            garbage.append(v)
        elif op == "mutate":
            for a in garbage:
                vlib.spoil(a, 3.75)
            garbage.clear()
            t.add("mutate")
        elif op in ("export", "back"):      # on to C++, and back
            import drv_cpp
            out, r = attempt(drv_cpp.CppFA, fa, "fa", "read") if op == "export" else ("ok", getattr(fa, "python", fa))
            if out == "ok":
                fa = r
            t.add("json", out=out)
        elif op == "json":
            out, r = attempt(vlib.save_load, fa, c[1], lambda o: break_it(o, kind, d))
            if out == "ok":
                fa = r
            t.add("json", out=out)
        elif op == "read":
            out, m = attempt(read_model, fa, kind, d, mc)
            if fa.is_trained():
                t.add("read", model=m if out == "ok" else dict(kind="none"))
    return t.as_dict()


def break_it(fa, kind, d):
    """Change everything about an approximator that must not matter any more."""
    def f():
        fa.set_selected_param_names(FIELDS[kind][-1])
        fa.set_param_vector(np.full((fa.get_param_vector_size(),), 5.0))
    attempt(f)
    x = np.linspace(-3.3, 4.1, 40 * d).reshape(40, d) if kind != "gpr" else np.linspace(-9, 9, 4 * d).reshape(4, d)
    attempt(lambda: fa.train(x, 7.0 + np.sin(3 * x[:, 0])))


if __name__ == "__main__":
    progs = json.loads(Path(sys.argv[1]).read_text())
    with contextlib.redirect_stdout(io.StringIO()):
        out = vlib.run_all(run, progs)
    Path(sys.argv[2]).write_text(json.dumps(out))
