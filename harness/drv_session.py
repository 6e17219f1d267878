"""Executes one segment of session programs on the real code.

Usage: drv_session.py IN OUT. IN is a list of programs [dir, task, ops]; a program's session is
created ("open") or opened from its directory ("reopen") by its ops. OUT gets one list of recorded
events per program.
"""
import contextlib
import io
import json
import sys
from pathlib import Path

import vlib
from vlib import np, attempt

import values
from dmpbbo.bbo.LearningSession import LearningSession
from dmpbbo.bbo_of_dmps.LearningSessionTask import LearningSessionTask


def num(u):
    """Program value of an update or sample number: int, ["np", int], label or None."""
    return np.int64(u[1]) if isinstance(u, list) else u


def plain(u):
    return u[1] if isinstance(u, list) else "None" if u is None else u


def item(name, u, s, i):
    return [name, plain(u), plain(s), {"kind": values.kind_of(i), "id": i}]


def run(program):
    cls = LearningSessionTask if program["task"] else LearningSession
    d = program["dir"]
    session, events, objects = None, [], []
    cands = program["values"] + ["int_%d" % program["n"]]
    nval = "int_%d" % program["n"]

    def told(i):
        o = values.make(i)
        objects.append(o)
        return o

    for o in program["ops"]:
        op, a = o[0], o[1:]
        ev = None
        if op == "open":
            kw = {name: told(i) for name, i in a[0]}
            out, session = attempt(cls, program["n"], d if program["hasdir"] else None, **kw)
            its = [item("n_samples_per_update", None, None, nval)] + [item(n, None, None, i) for n, i in a[0]]
            ev = dict(op="tell", items=its, out=out)
        elif op == "tell":
            name, u, s, i = a
            out, _ = attempt(session.tell, told(i), name, num(u), num(s))
            ev = dict(op="tell", items=[item(name, u, s, i)], out=out)
        elif op == "add_eval":
            u, smp, cost = a
            out, _ = attempt(session.add_eval, num(u), told(smp), told(cost))
            ev = dict(op="tell", out=out, items=[item("cost", u, "eval", cost), item("sample", u, "eval", smp)])
        elif op == "add_update":
            u, dist, smp, costs, w, new = a
            new_o = None if new is None else told(new)
            out, _ = attempt(session.add_update, num(u), told(dist), told(smp), told(costs), told(w), new_o)
            its = [item("distribution", u, None, dist), item("samples", u, None, smp),
                   item("costs", u, None, costs), item("weights", u, None, w)]
            if new is not None:
                its.append(item("distribution_new", u, None, new))
            ev = dict(op="tell", out=out, items=its)
        elif op == "add_rollout":
            u, s, smp, cv, cost = a
            out, _ = attempt(session.add_rollout, num(u), num(s), told(smp), told(cv), told(cost))
            ev = dict(op="tell", out=out, items=[item("sample", u, s, smp), item("cost_vars", u, s, cv),
                                                 item("cost", u, s, cost)])
        elif op == "add_eval_task":
            u, smp, cv, cost = a
            out, _ = attempt(session.add_eval_task, num(u), told(smp), told(cv), told(cost))
            ev = dict(op="tell", out=out, items=[item("sample", u, "eval", smp), item("cost", u, "eval", cost),
                                                 item("cost_vars", u, "eval", cv)])
        elif op == "ask":
            name, u, s = a
            out, x = attempt(session.ask, name, num(u), num(s))
            got = "error" if out == "raised" else values.ident(x, cands)
            if out == "ok":
                objects.append(x)
            ev = dict(op="ask", name=name, u=plain(u), s=plain(s), got=got)
        elif op == "exists":
            name, u, s = a
            out, x = attempt(session.exists, name, num(u), num(s))
            ev = dict(op="exists", name=name, u=plain(u), s=plain(s), got=x if out == "ok" else "raised")
        elif op == "mutate":
            for x in objects:
                values.mutate(x)
            objects.clear()
            ev = dict(op="mutate")
        elif op == "reopen":
            out, session = attempt(cls.from_dir, d)
            ev = dict(op="reopen", out=out)
        elif op == "save":
            out, _ = attempt(session.save_all, d)
            ev = dict(op="save", out=out)
        elif op == "save_all":
            out, _ = attempt(session.save_all, d)
            if out == "ok":
                out, session = attempt(cls.from_dir, d)
            ev = dict(op="save_all", out=out)
        elif op == "files":
            fs = sorted(str(p.relative_to(d)) for p in Path(d).rglob("*") if p.is_file())
            cpp = [f for f in fs if f.endswith("_for_cpp.json")]
            fs = [f for f in fs if f not in cpp and not f.endswith(".py")]
            ev = dict(op="files", files=fs, cpp=cpp,
                      dmps=[[n, plain(u), plain(s)] for n, u, s in (a[0] if program["task"] else [])])
        events.append(ev)
        if ev.get("out") == "raised" and op in ("open", "reopen", "save", "save_all"):
            break
    return events


def main():
    programs = json.loads(Path(sys.argv[1]).read_text())
    with contextlib.redirect_stdout(io.StringIO()):
        out = [run(p) for p in programs]
    Path(sys.argv[2]).write_text(json.dumps(out))


if __name__ == "__main__":
    main()
