"""Runs programs on dynamical systems. IN: list of programs; OUT: list of traces."""
import contextlib
import io
import json
import sys
from pathlib import Path

import vlib
from vlib import np, attempt, Trace, Raw, vec, mat

from dmpbbo.dynamicalsystems.ExponentialSystem import ExponentialSystem
from dmpbbo.dynamicalsystems.RichardsSystem import RichardsSystem
from dmpbbo.dynamicalsystems.SigmoidSystem import SigmoidSystem
from dmpbbo.dynamicalsystems.SpringDamperSystem import SpringDamperSystem
from dmpbbo.dynamicalsystems.TimeSystem import TimeSystem


def val(x):
    """Parameters in programs: numbers, lists (arrays)."""
    return vlib.given([float(v) for v in x]) if isinstance(x, list) else x


def full(x, n):
    return vec(np.zeros(n) + np.array(x, dtype=float))


def make(p, shared):
    """The real system, and the specification's record of it."""
    k, n = p["kind"], p["n"]
    q = p["par"]
    if k == "time":
        return TimeSystem(vlib.scalar(p["tau"]), q["down"]), dict(kind=k, tau=float(p["tau"]), xinit=[1.0 if q["down"] else 0.0], down=q["down"])
    x0, attr, tau = val(q.get("x0")), val(q.get("attr")), vlib.scalar(p["tau"])
    if k == "exponential":
        o = ExponentialSystem(tau, x0, attr, val(q["alpha"]))
        r = dict(attr=full(q["attr"], n), alpha=full(q["alpha"], n))
    elif k == "sigmoid":
        o = SigmoidSystem(tau, x0, val(q["rmax"]), val(q["infl"]))
        r = dict(rmax=full(q["rmax"], n), infl=full(q["infl"], n))
    elif k == "gating":
        o = SigmoidSystem.for_gating(tau, q["ratio"], n)
        k = "sigmoid"
        d = 10e-7
        # N(tau) = ratio for a sigmoid from 1 with capacity 1 + d
        rm = -np.log((((1 + d) / q["ratio"]) - 1) / d) / p["tau"]
        infl = -np.log(1 / d) / rm / p["tau"]
        r = dict(rmax=full(rm, n), infl=full(infl, n))
        q = dict(q, x0=[1.0] * n)
    elif k == "spring":
        args = [tau, x0, attr, val(q["d"])]
        kw = {}
        if q["k"] != "CRITICALLY_DAMPED" or q.get("explicit"):
            kw["spring_constant"] = val(q["k"])
        if "m" in q:
            kw["mass"] = val(q["m"])
        o = SpringDamperSystem(*args, **kw)
        m = np.array(full(q.get("m", 1.0), n))
        d = np.array(full(q["d"], n))
        r = dict(attr=full(q["attr"], n), d=vec(d), m=vec(m),
                 k=vec(d * d / 4 / m) if q["k"] == "CRITICALLY_DAMPED" else full(q["k"], n))
    else:
        o = RichardsSystem(tau, x0, attr, val(q["infl"]), val(q["alpha"]), val(q["v"]))
        r = dict(attr=full(q["attr"], n), infl=full(q["infl"], n), alpha=full(q["alpha"], n), v=full(q["v"], n), left=[])
    x = full(q["x0"], n)
    r.update(kind=k, tau=float(p["tau"]), xinit=x + [0.0] * n if k == "spring" else x)
    shared.extend(a for a in (x0, attr) if isinstance(a, np.ndarray))
    return o, r


ATTR = {"alpha": "alpha", "v": "v", "infl": "t_infl_ratio", "d": "damping_coefficient", "k": "spring_constant", "m": "mass", "rmax": "max_rate"}


def setter(o, what, v):
    if what in ("tau", "x_init", "y_init"):
        setattr(o, what, vlib.scalar(v))
    elif what == "x_attr":
        o.x_attr = v
    elif what == "attr":
        o.y_attr = v
    elif what == "left":
        o.set_left_asymp(v)
    elif what == "down":
        o.count_down = v
    else:
        setattr(o, ATTR[what], v)


def flat(*xs):
    return all(np.ndim(x) == 1 for x in xs)


def run(p):
    n = p["n"]
    garbage = []
    out, r = attempt(make, p, garbage)
    if out != "ok":
        t = Trace(p["name"], sys=dict(kind="none"))
        t.cfg["sys"] = dict(kind="time", tau=1.0, xinit=[0.0], down=False)
        t.add("decouple", out="not constructed: " + str(r))
        return t.as_dict()
    o, rec = r
    t = Trace(p["name"])
    t.cfg["sys"] = rec
    spring = rec["kind"] == "spring"
    last = {}

    def give(v):
        v = val(v)
        if isinstance(v, np.ndarray):
            garbage.append(v)
        return v

    for c in p["ops"]:
        op = c[0]
        if op == "set":
            what, v, ok = c[1], c[2], c[3]
            a = give(v) if what in ("x_init", "y_init", "attr", "x_attr") else val(v)
            out, _ = attempt(setter, o, what, a)
            sv = v if what in ("tau", "down") else full(v, n) if ok and not isinstance(v, list) else vec(v)
            t.add("set", what="attr" if what == "x_attr" else what, v=Raw(sv), valid=ok, out=out)
        elif op == "decouple":
            out, _ = attempt(o.decouple_parameters)
            t.add("decouple", out=out)
        elif op == "json":
            out, r = attempt(vlib.save_load, o, c[1], lambda x: break_it(x, n))
            if out == "ok":
                o = r
            t.add("json", out=out)
        elif op in ("export", "back"):      # on to C++, and back
            import drv_cpp
            out, r = attempt(drv_cpp.CppSystem, o) if op == "export" else ("ok", getattr(o, "python", o))
            if out == "ok":
                o = r
            t.add(op, out=out)
        elif op == "mutate":
            for a in garbage:
                vlib.spoil(a, 17.25)
            garbage.clear()
            t.add("mutate")
        elif op == "read":
            attr = getattr(o, "y_attr", [])
            t.add("read", tau=float(o.tau), x_init=Raw(vec(o.x_init)), y_init=Raw(vec(o.y_init)), dim_x=int(o.dim_x), dim_y=int(o.dim_y),
                  attr=Raw(vec(attr)))
        elif op == "start":
            y0 = give(c[1]) if c[1] is not None else None
            out, r = attempt(o.integrate_start, y0) if y0 is not None else attempt(o.integrate_start)
            if out == "ok":
                x, xd = r
                t.add("start", y0=Raw(c[1] or []), x=Raw(vec(x)), xd=Raw(vec(xd)), out=out, flat=flat(x, xd))
                last["x"] = np.array(x, dtype=float).ravel()
                garbage += [a for a in (x, xd) if isinstance(a, np.ndarray)]
            else:
                t.add("start", y0=Raw(c[1] or []), out=out)
        elif op in ("rate", "step"):
            x = vlib.given(c[-1]) if c[-1] is not None else last.get("x", np.array(rec["xinit"])).copy()
            keep = x.copy()
            if op == "rate":
                out, xd = attempt(o.differential_equation, x)
                un = bool(np.array_equal(x, keep, equal_nan=True))
                t.add("rate", x=Raw(vec(keep)), out=out, xd=Raw(vec(xd) if out == "ok" else []), unmodified=un, flat=flat(xd))
                if out == "ok":
                    garbage.append(xd)
            else:
                f = {"euler": o.integrate_step_euler, "rk": o.integrate_step_runge_kutta, "default": o.integrate_step}[c[1]]
                out, r = attempt(f, c[2], x)
                un = bool(np.array_equal(x, keep, equal_nan=True))
                e = dict(method=c[1], dt=c[2], x=Raw(vec(keep)), out=out, unmodified=un)
                if out == "ok":
                    e.update(x2=Raw(vec(r[0])), xd2=Raw(vec(r[1])), flat=flat(*r))
                    last["x"] = np.array(r[0], dtype=float).ravel()
                    garbage += [a for a in r if isinstance(a, np.ndarray)]
                t.add("step", **e)
            garbage.append(x)
        elif op == "integrate":
            ts = vlib.given(c[2])
            keep = ts.copy()
            kw = {} if c[1] == "default" else dict(integration_method={"euler": "Euler", "rk": "Runge-Kutta"}[c[1]])
            out, r = attempt(o.integrate, ts, **kw)
            un = bool(np.array_equal(ts, keep))
            t.add("integrate", method=c[1], ts=Raw(vec(keep)), out=out, unmodified=un, **(dict(xs=Raw(mat(r[0])), xds=Raw(mat(r[1]))) if out == "ok" else {}))
            if out == "ok":
                garbage += list(r)
        elif op == "solution":
            ts = vlib.given(c[1])
            keep = ts.copy()
            out, r = attempt(o.analytical_solution, ts)
            un = bool(np.array_equal(ts, keep))
            t.add("solution", ts=Raw(vec(keep)), out=out, unmodified=un, **(dict(xs=Raw(mat(r[0])), xds=Raw(mat(r[1]))) if out == "ok" else {}))
            garbage.append(ts)
            if out == "ok":
                garbage += list(r)
        elif op == "plot":
            ts = vlib.given(c[1])
            out, r = attempt(o.analytical_solution, ts)
            t.add("solution", ts=Raw(vec(ts)), out=out, unmodified=True, **(dict(xs=Raw(mat(r[0])), xds=Raw(mat(r[1]))) if out == "ok" else {}))
            if out != "ok":
                continue
            sol = Raw(mat(r[0])), Raw(mat(r[1]))
            args = (ts, *r) if c[2] else (ts, None, None)
            axs = vlib.axes(c[3]) if c[3] else None
            keep = vlib.kept(*args)
            out, r = attempt(o.plot, *args, **(dict(axs=axs) if axs else {}))
            t.add("plot", ts=Raw(vec(c[1])), xs=sol[0], xds=sol[1], axes=c[3], out=out, unmodified=vlib.kept(*args) == keep, lines=Raw(vlib.lines_of(r[0]) if out == "ok" else []))
            vlib.close()
        elif op == "agree":
            dur, steps = c[1], c[2]

            def f():
                x, _ = o.integrate_start()
                x = np.array(x, dtype=float)
                for _ in range(steps):
                    x, _ = o.integrate_step(dur / steps, np.ravel(x))
                return x, o.analytical_solution(np.array([0.0, dur]))[0][1]
            out, r = attempt(f)
            t.add("agree", t=dur, steps=steps, out=out, x=Raw(vec(r[0]) if out == "ok" else []), xa=Raw(vec(r[1]) if out == "ok" else []))
        elif op == "converged":
            def f():
                a = o.y_attr if not isinstance(o, TimeSystem) \
                    else np.array([0.0 if o.count_down else 1.0])
                a = np.atleast_1d(np.array(a, dtype=float)) * np.ones(o.dim_y)
                if spring:
                    a = np.concatenate((a, np.zeros(n)))
                return o.differential_equation(a), o.analytical_solution(np.array([0.0, c[1]]))[0][1]
            out, r = attempt(f)
            t.add("converged", out=out, rate=Raw(vec(r[0]) if out == "ok" else []), x=Raw(vec(r[1]) if out == "ok" else []))
        elif op == "phase":
            how, dt, steps = c[1], c[2], c[3]
            ts = np.arange(steps) * dt

            def f():
                if how == "solution":
                    return o.analytical_solution(ts)[0]
                if how == "integrate":
                    return o.integrate(ts)[0]
                st = {"euler": o.integrate_step_euler, "rk": o.integrate_step}[how]
                x = np.ravel(o.integrate_start()[0])
                xs = [x]
                for _ in range(1, steps):
                    x = np.ravel(st(dt, x)[0])
                    xs.append(x)
                return np.array(xs)
            out, r = attempt(f)
            t.add("phase", how=how, dt=dt, ts=Raw(vec(ts)), exact=how == "solution", out=out, xs=Raw(vec(r) if out == "ok" else []))
    return t.as_dict()


def break_it(o, n):
    """Change everything about a system that must not matter any more."""
    for a, v in (("tau", 0.37), ("y_attr", np.full(n, 4.5)), ("y_init", np.full(n, -3.5)), ("alpha", 2.3), ("damping_coefficient", 3.0),
                 ("mass", 1.7), ("v", 1.1), ("t_infl_ratio", 0.44), ("count_down", None)):
        if hasattr(o, a):
            v = not o.count_down if v is None else v
            attempt(setattr, o, a, v)
    attempt(o.decouple_parameters)
    attempt(o.analytical_solution, np.array([0.0, 0.1]))
    for a in (getattr(o, x, None) for x in ("x_init", "y_attr", "y_init")):
        vlib.spoil(a, 5.0)


if __name__ == "__main__":
    progs = json.loads(Path(sys.argv[1]).read_text())
    with contextlib.redirect_stdout(io.StringIO()):
        out = vlib.run_all(run, progs)
    Path(sys.argv[2]).write_text(json.dumps(out))
