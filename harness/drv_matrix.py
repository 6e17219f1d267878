"""Matrices in text files and JSON, and basis functions, of C++ and Python. IN: list of programs; OUT: list of traces."""
import json
import shutil
import sys
import tempfile
from pathlib import Path

import drv_cpp
import vlib
from vlib import Raw, Trace, mat, np


def ask(**c):
    """One command; the server is started again if it ended."""
    drv_cpp.SERVER = drv_cpp.SERVER or drv_cpp.Server()
    return drv_cpp.tell(drv_cpp.SERVER, **c)


def read(path):
    """What a file has, by a reader of its own."""
    rows = []
    for line in path.read_bytes().decode().split("\n"):
        line = line.split("#")[0].split()
        if line:
            try:
                rows.append([float(x) for x in line])
            except ValueError:
                return {"is": "text"}
    if any(len(r) != len(rows[0]) for r in rows):
        return {"is": "text"}
    return {"is": "matrix", "m": vlib.nest(rows)}


def text(m, form):
    """A text that a person or a program writes for a matrix."""
    sep = {"tabs": "\t", "wide": "    "}.get(form, " ")
    lines = [sep.join(("%g" if form == "short" else "%.18e" if form == "numpy" else "%r") % x for x in r) for r in m]
    if form == "trailing":
        lines = [x + " " * (1 + i % 2) for i, x in enumerate(lines)]
    if form == "leading":
        lines = ["  " + x for x in lines]
    if form == "blank":
        lines = [""] + lines[:1] + ["  "] + lines[1:] + ["", ""]
    if form == "header":
        lines = ["# shape: %d %d" % (len(m), len(m[0]))] + lines
    if form == "comments":
        lines = ["# one"] + [x + " # two 3" for x in lines] + ["#"]
    s = ("\r\n" if form == "windows" else "\n").join(lines)
    return s if form == "unended" else s + ("\r\n" if form == "windows" else "\n")


BAD = {"words": "1 2\nthree 4\n", "ragged": "1 2\n3 4 5\n", "short": "1 2 3\n4 5\n", "comma": "1,2\n3,4\n", "json": "{\"a\": 1}\n", "tail": "1 2\n3 x\n",
       "unit": "1m 2m\n"}


def run(p):
    t = Trace(p["name"])
    d = Path(tempfile.mkdtemp(dir="."))

    def seen():
        return Raw({str(f.relative_to(d)): read(f) for f in sorted(d.rglob("*")) if f.is_file()})

    for op, *a in p["ops"]:
        if op == "basis":
            q = a[0]
            fields = {k: (Raw(vlib.nest(v)) if isinstance(v, list) else v) for k, v in q.items() if k != "by"}
            out, r = vlib.attempt(basis, q)
            t.add("basis", by=q["by"], out=out, a=Raw(mat(r[0]) if out == "ok" else []), unmodified=bool(out == "ok" and r[1]), **fields)
        elif op == "save":
            name, m, vector, overwrite, indir = a
            c = dict(what="save", vector=vector, m=[r[0] for r in m] if vector else m, cols=len(m[0]), overwrite=overwrite)
            if indir:
                c.update(directory=str(d / Path(name).parent) + ("/" if indir == "slash" else ""), file=Path(name).name)
            else:
                c.update(file=str(d / name))
            out, r = vlib.attempt(ask, op="matrix", **c)
            t.add("save", name=name, m=Raw(vlib.nest(m)), vector=vector, overwrite=bool(overwrite), out=out,
                  saved=bool(out == "ok" and r["saved"]), seen=seen())
        elif op == "write":
            name, m, form = a
            f = d / name
            f.parent.mkdir(parents=True, exist_ok=True)
            if form == "savetxt":
                np.savetxt(f, np.array(m))
            elif form == "header":
                np.savetxt(f, np.array(m), header="shape: %d %d" % np.shape(m))
            elif form.startswith("bad-"):
                f.write_text(BAD[form[4:]])
            else:
                f.write_bytes(text(m, form).encode())
            t.add("write", name=name, form=form, **{"is": "text" if form.startswith("bad-") else "matrix"}, seen=seen())
        elif op == "load":
            name, vector = a
            out, r = vlib.attempt(ask, op="matrix", what="load", vector=vector, file=str(d / name))
            ok = out == "ok"
            t.add("load", name=name, vector=vector, out=out, loaded=bool(ok and r["loaded"]), m=Raw(vlib.nest(r["m"]) if ok else []),
                  rows=r["rows"] if ok else -1, unmodified=bool(ok and r["unmodified"]), seen=seen())
        elif op == "numpy":
            out, r = vlib.attempt(np.loadtxt, d / a[0], ndmin=2)
            t.add("numpy", name=a[0], out=out, m=Raw(mat(r) if out == "ok" else []))
        elif op == "json":
            m, vector, form = a
            flat = [r[0] for r in m]

            def through():
                if form == "python":        # written by Python
                    s = json.dumps(flat if vector == "flat" else m)
                else:
                    s = ask(op="matrix", what="to json", vector=vector == "flat", m=flat if vector == "flat" else m, cols=len(m[0]))["text"]
                if form == "read":
                    r = json.loads(s)
                    return dict(m=r, rows=len(r), cols=len(r[0]))
                return ask(op="matrix", what="from json", vector=bool(vector), text=s)
            out, r = vlib.attempt(through)
            ok = out == "ok"
            t.add("json", form=form, vector=str(vector), m=Raw(vlib.nest(m)), out=out, back=Raw(vlib.nest(r["m"]) if ok else []),
                  rows=r["rows"] if ok else -1, cols=r["cols"] if ok else -1)
    shutil.rmtree(d)
    return t.as_dict()


def basis(q):
    if q["by"] == "cpp":
        r = ask(op="basis", **{k: v for k, v in q.items() if k != "by"})
        return r["a"], r["unmodified"]
    from dmpbbo.functionapproximators.basis_functions import Gaussian

    xs, cs, ws = (np.array(q[k]) for k in ("xs", "centers", "widths"))
    if xs.shape[1] == 1 and q["sized"]:
        xs, cs, ws = xs.ravel(), cs.ravel(), ws.ravel()
    before = vlib.kept(xs, cs, ws)
    kw = {} if q["by_default"] and not q["normalized"] else dict(normalized=q["normalized"])
    a = Gaussian.activations(xs, centers=cs, widths=ws, **kw)
    return a, vlib.kept(xs, cs, ws) == before


def main():
    progs = json.loads(Path(sys.argv[1]).read_text())
    res = vlib.run_all(run, progs)
    if drv_cpp.SERVER:
        drv_cpp.SERVER.end()
    Path(sys.argv[2]).write_text(json.dumps(res))


if __name__ == "__main__":
    main()
