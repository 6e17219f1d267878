"""Runs programs on trajectories. IN: list of programs; OUT: list of traces."""
import contextlib
import io
import json
import os
import sys
import tempfile
from pathlib import Path

import vlib
from vlib import np, attempt, Trace, Raw, vec, num

from dmpbbo.dmps.Trajectory import Trajectory

SLOTS = 3
EMPTY = {"ts": [], "ys": [], "yds": [], "ydds": [], "misc": []}


def rows(m):
    if m is None:
        return []
    m = np.asarray(m, dtype=float)
    if m.ndim == 1:
        m = m.reshape(-1, 1)
    return [] if m.shape[1] == 0 else vlib.nest(m.tolist())


def view(t):
    if t is None:
        return EMPTY
    return dict(ts=vec(t.ts), ys=rows(t.ys), yds=rows(t.yds), ydds=rows(t.ydds), misc=rows(t.misc))


def noise(k, *shape):
    """Some numbers, the same for the same k."""
    return np.random.RandomState(k % 2**31).uniform(-2, 2, shape)


def run(p):
    t = Trace(p["name"], slots=SLOTS)
    s = [None] * SLOTS
    given = []  # arrays passed in, and copies of them

    def arg(x):
        if x is None:
            return None
        x = vlib.given(x if p.get("ints") else np.array(x, dtype=float))
        given.append((x, x.copy()))
        return x

    def after():
        return Raw([view(x) for x in s])

    def unmodified():
        return all(np.array_equal(a, b, equal_nan=True) for a, b in given)

    last_ts = None
    for c in p["ops"]:
        op, k = c[0], c[1]
        if op == "create":
            a = c[2]
            ts = last_ts if a.get("share") and last_ts is not None and last_ts.size == len(a["ts"]) else arg(a["ts"])
            last_ts = ts
            ys, yds, ydds, misc = (arg(a.get(f)) for f in ("ys", "yds", "ydds", "misc"))
            if a.get("flat"):
                ys, yds, ydds, misc = (x.ravel() if x is not None and x.shape[1] == 1 else x for x in (ys, yds, ydds, misc))
            out, r = attempt(Trajectory, ts, ys, yds, ydds, misc)
            if out == "ok":
                s[k] = r
            t.add("create", slot=k + 1, ts=Raw(vec(ts)), ys=Raw(rows(a["ys"])), yds=Raw(rows(a.get("yds"))), ydds=Raw(rows(a.get("ydds"))),
                  misc=Raw(rows(a.get("misc"))), out=out, after=after(), unmodified=unmodified())
            continue
        if op == "generated":
            a = c[2]
            ts, f, to, via = arg(a["ts"]), [arg(x) for x in a["from"]], [arg(x) for x in a["to"]], a.get("via")
            z = np.zeros(len(a["from"][0])).tolist()
            if a.get("cpp"):
                z = np.zeros(len(a["from"][0])).tolist()
                q = {"minjerk": [a["from"][0], a["to"][0]], "poly": a["from"] + a["to"]}.get(a["what"]) or \
                    [a["from"][0], via[0] + via[1] + via[2], a["viatime"], a["to"][0]]
                out, r = attempt(lambda: of_cpp(cpp(op="generate", what={"poly": "polynomial"}.get(a["what"], a["what"]), ts=a["ts"], p=q)))
                frm, too = (a["from"], a["to"]) if a["what"] == "poly" else ([a["from"][0], z, z], [a["to"][0], z, z])
                if out == "ok" and r is None:
                    out = "refused"
            elif a["what"] == "minjerk":
                out, r = attempt(Trajectory.from_min_jerk, ts, f[0], to[0])
                frm, too = [a["from"][0], z, z], [a["to"][0], z, z]
            elif a["what"] == "poly":
                out, r = attempt(Trajectory.from_polynomial, ts, *f, *to)
                frm, too = a["from"], a["to"]
            else:
                out, r = attempt(Trajectory.from_viapoint_polynomial, ts, f[0], arg(via[0] + via[1] + via[2]), a["viatime"], to[0])
                frm, too = [a["from"][0], z, z], [a["to"][0], z, z]
            if out == "ok":
                s[k] = r
            t.add("generated", slot=k + 1, what=a["what"], ts=Raw(a["ts"]), viatime=a.get("viatime", 0.0), out=out, after=after(), unmodified=unmodified(),
                  **{"from": Raw(frm), "to": Raw(too), "via": Raw(via or frm)})
            continue
        if op == "quadratic":
            a = c[2]
            ts = np.array(a["ts"])
            ys = np.stack([q[0] + q[1] * ts + q[2] * ts * ts for q in a["coefs"]], axis=1)
            out, r = attempt(Trajectory, ts, ys)
            if out == "ok":
                s[k] = r
            t.add("quadratic", slot=k + 1, ts=Raw(a["ts"]), coefs=Raw(a["coefs"]), out=out, after=after())
            continue
        x = s[k]
        if x is None:
            continue
        n = x.length
        if n == 0:
            break
        if op == "read":
            m = x.misc
            names = ["t"] + [f"{q}{d}" for q in ("y", "yd", "ydd") for d in range(x.dim)] + [f"misc{d}" for d in range(0 if m is None else m.shape[1])]
            df = x.as_dataframe()
            t.add("read", slot=k + 1, length=int(x.length), dim=int(x.dim), dim_misc=int(x.dim_misc), has_misc=bool(x.has_misc()), duration=num(x.duration),
                  dt=num(x.dt_mean), y_init=Raw(vec(x.y_init)), y_final=Raw(vec(x.y_final)), range=Raw(vec(x.get_range_per_dim())), matrix=Raw(rows(x.as_matrix())),
                  table=Raw(rows(df.to_numpy())), columns=list(df.columns), names=names, yddds=Raw(rows(x.yddds())), after=after())
        elif op == "plot":
            axs = vlib.axes(c[2]) if c[2] else None
            out, r = attempt(lambda: x.plot(axs) if axs else x.plot())
            t.add("plot", slot=k + 1, axes=c[2], out=out, lines=Raw(vlib.lines_of(r[0]) if out == "ok" else []), after=after())
            vlib.close()
        elif op == "through":
            how, to = c[2], c[3]
            md = 0 if x.misc is None else x.misc.shape[1]

            def f():
                if how.startswith("json"):
                    return vlib.save_load(x, how[5:], lambda y: break_it(y, y is not x))
                if how.startswith("cpp"):
                    return through_cpp(x, how[4:], md)
                if how == "matrix":
                    return Trajectory.from_matrix(x.as_matrix(), md)
                name = os.path.join(tempfile.mkdtemp(dir="."), "t.txt")
                x.savetxt(name)
                return Trajectory.loadtxt(name, md)
            # what is saved with its number of decimals has to have distinct times
            if ("text" in how or "file" in how) and n > 1 and np.min(np.diff(x.ts)) < 1e-5:
                continue
            out, r = attempt(f)
            if out == "ok":
                s[to] = r
            t.add("through", slot=k + 1, to=to + 1, what=how, out=out, after=after())
        elif op == "cppread":
            m = x.misc
            q = cpp(op="edit", what="read", t=to_cpp(x))
            t.add("cppread", slot=k + 1, **{f: q[f] for f in ("length", "dim", "dim_misc", "duration")}, y_init=Raw(q["initial"]), y_final=Raw(q["final"]),
                  range=Raw(q["range"]), matrix=Raw(q["matrix"]), after=after())
        elif op == "save":      # of one trajectory, and then of another one, under the same name
            y = s[c[2]]
            name, into = f"saved-{os.getpid()}.txt", "saved-in"
            where = Path(into, name) if c[4] else Path(name)
            if y is None or min(np.diff(np.concatenate((x.ts, [np.inf]))).min(), np.diff(np.concatenate((y.ts, [np.inf]))).min()) < 1e-5:
                continue
            where.unlink(missing_ok=True)
            d = dict(directory=into) if c[4] else {}
            f = str(name if c[4] else where)
            one = cpp(op="edit", what="save", t=to_cpp(x), file=f, overwrite=bool(c[5]), **d)["saved"]
            two = cpp(op="edit", what="save", t=to_cpp(y), file=f, overwrite=c[3], **d)["saved"]
            out, r = attempt(Trajectory.loadtxt, where, 0 if (y if c[3] else x).misc is None else (y if c[3] else x).misc.shape[1])
            where.unlink(missing_ok=True)
            t.add("save", slot=k + 1, other=c[2] + 1, overwrite=c[3], one=one, two=two, out=out, got=Raw(view(r if out == "ok" else None)), after=after())
        elif op in ("recompute", "filter"):
            if n < 2:
                continue
            if op == "recompute":
                out, _ = attempt(x.recompute_derivatives)
            else:
                out, _ = attempt(x.apply_low_pass_filter, c[2], c[3])
            t.add("differentiate", slot=k + 1, what=op, low=Raw(c[4] if op == "filter" else []), out=out, after=after())
        else:
            e = dict(slot=k + 1, what=op)
            if op == "crop":
                a = int(c[2] * n)
                b = a + 1 + int(c[3] * (n - a + 2))
                if c[4]:
                    a, b = b, a
                e.update(start=a, end=b)
                out, _ = attempt(x.crop, a, b)
            elif op == "croptime":
                i, j = int(c[2] * n), int(c[3] * n)
                step = x.duration / max(1, n - 1) or 0.1
                if i > j:
                    i, j = j, i
                a, b = x.ts[i] + c[4] * step, x.ts[j] + c[5] * step
                if c[6] == "bad":
                    a, b = max(a, b), min(a, b)
                elif c[6] == "beyond":
                    b = x.ts[-1] + (2 + c[2]) * step
                elif c[6] == "before":
                    a = x.ts[0] - (2 + c[2]) * step
                elif c[6] == "late":
                    a, b = x.ts[-1] + step, x.ts[-1] + 2 * step
                elif c[6] == "early":
                    a, b = x.ts[0] - 2 * step, x.ts[0] - step
                a, b = float(a), float(b)
                outside = a > x.ts[-1] or b < x.ts[0]
                if a < b and not outside and not np.any((x.ts >= a) & (x.ts < b)):
                    continue
                e.update(start=a, end=b)
                out, _ = attempt(x.crop, a, b, True)
            elif op in ("append", "prepend"):
                o = s[c[2]]
                if o is None or (n < 2 if op == "append" else o.length < 2):
                    continue
                e.update(other=c[2] + 1)
                out, _ = attempt(getattr(x, op), o)
            elif op in ("padfront", "padend"):
                if n < 2 and not np.isfinite(x.dt_mean):
                    continue
                e.update(n=c[2])
                out, _ = attempt({"padfront": x.pad_front, "padend": x.pad_end}[op], c[2])
            elif op == "zero":
                out, _ = attempt(x.set_start_time_to_zero)
            elif op == "cppmisc":
                m = noise(c[2], 1 if c[4] else n, c[3])
                e.update(what="misc", v=Raw(rows(np.repeat(m, n, 0) if c[4] else m)))
                out, r = attempt(lambda: of_cpp(cpp(op="edit", what="misc", t=to_cpp(x), v=m.tolist())))
                if out == "ok":
                    s[k] = r
            elif op == "misc":
                m = noise(c[2], n + (1 if c[4] else 0), c[3]) * (c[2] % 6 > 0)
                given.append((m, m.copy()))
                e.update(v=Raw(rows(m)))
                out, _ = attempt(setattr, x, "misc", m.ravel() if c[3] == 1 and c[2] % 2 else m)
            t.add("edit", out=out, after=after(), unmodified=unmodified(), **e)
    return t.as_dict()


def cpp(**c):
    import drv_cpp
    drv_cpp.SERVER = drv_cpp.SERVER or drv_cpp.Server()
    return drv_cpp.tell(drv_cpp.SERVER, **c)


def to_cpp(x, rows_=slice(None)):
    r = dict(ts=vec(x.ts[rows_]), ys=x.ys[rows_].tolist(), yds=x.yds[rows_].tolist(), ydds=x.ydds[rows_].tolist())
    return r if x.misc is None else dict(r, misc=np.reshape(x.misc, (len(x.ts), -1))[rows_].tolist())


def of_cpp(q):
    if not q["ts"]:
        return None
    a = [np.array(q[f], dtype=float) for f in ("ts", "ys", "yds", "ydds", "misc")]
    return Trajectory(*a[:4], a[4] if a[4].size else None)


def through_cpp(x, how, md):
    """Another trajectory with the same rows, by means of C++."""
    name = str(Path(f"through-{os.getpid()}.txt").resolve())
    if how == "text":      # saved in Python
        x.savetxt(name)
        r = of_cpp(cpp(op="edit", what="file", file=name, misc=md))
    elif how in ("file", "files"):      # saved in C++
        if not cpp(op="edit", what="save", t=to_cpp(x), file=name, overwrite=True)["saved"]:
            raise RuntimeError("not saved")
        r = Trajectory.loadtxt(name, md) if how == "file" else of_cpp(cpp(op="edit", what="file", file=name, misc=md))
    elif how == "join":      # of two parts that share a row
        k = len(x.ts) // 2
        q = cpp(op="edit", what="append", t=to_cpp(x, slice(0, k + 1)), other=to_cpp(x, slice(k, None)))
        if not q["unmodified"]:
            raise RuntimeError("the other trajectory was changed")
        r = of_cpp(q)
    else:
        r = of_cpp(cpp(op="edit", what="read", t=to_cpp(x)))
    Path(name).unlink(missing_ok=True)
    return r


def break_it(x, own):
    """Change a trajectory in every way; in place only if it owns its arrays."""
    for a in (x.ts, x.ys, x.yds, x.ydds, x.misc) if own else ():
        vlib.spoil(a, 11.0)
    attempt(x.pad_end, 3)
    attempt(x.crop, 1, 3)
    attempt(setattr, x, "misc", np.ones((x.length, 2)))


if __name__ == "__main__":
    progs = json.loads(Path(sys.argv[1]).read_text())
    with contextlib.redirect_stdout(io.StringIO()):
        out = vlib.run_all(run, progs)
    Path(sys.argv[2]).write_text(json.dumps(out))
