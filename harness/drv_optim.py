"""Runs optimizations with instrumented objects. IN: list of programs; OUT: list of traces."""
import contextlib
import io
import json
import sys
from pathlib import Path

import vlib
from vlib import np, attempt, Trace, Raw, vec, mat

import instr
from drv_updater import make_updater
from dmpbbo.bbo.LearningSession import LearningSession
from dmpbbo.bbo.run_optimization import run_optimization
from dmpbbo.bbo_of_dmps.LearningSessionTask import LearningSessionTask
from dmpbbo.bbo_of_dmps.run_optimization_task import run_optimization_task


def read(session, n, m, task):
    """All that the session says about the n updates it should have."""
    rec = []
    for u in range(n):
        d = dict(dist=instr.rec_d(session.ask("distribution", u)), new=instr.rec_d(session.ask("distribution_new", u)),
                 samples=mat(session.ask("samples", u)), costs=[vec(c) for c in session.ask("costs", u)],
                 costs2=[vec(c) for c in session.get_sample_costs(u)], weights=vec(session.ask("weights", u)),
                 evalx=[], evalc=[], rolls=[])
        if session.exists("eval_cost", u):
            d["evalx"], d["evalc"] = vec(session.ask("eval_sample", u)), vec(session.ask("eval_cost", u))
            c2, _ = session.get_eval_costs(u)
            if vec(c2) != d["evalc"]:
                d["evalc"] = []
        if task:
            d["rolls"] = [[vec(session.ask("sample", u, i)), vec(session.ask("cost", u, i))] for i in range(m)]
            cv = [vec(session.ask("cost_vars", u, i)) for i in range(m)]
            if any(c[:-1] != x for c, (x, _) in zip(cv, d["rolls"])):
                d["rolls"] = [["cost variables of another sample"]]
        rec.append(d)
    return rec


def record(t, session, p):
    def f():
        n = session.get_n_updates()
        if not isinstance(n, (int, np.integer)):
            raise TypeError("number of updates is not an integer")
        curve, _ = session.get_learning_curve()
        before, after = session.get_eval_cost_before_after() if p["n"] > 0 else ([], [])
        return n, read(session, p["n"], p["m"], p["what"] == "task"), [vec(row) for row in curve], vec(before), vec(after)

    out, r = attempt(f)
    if out != "ok":
        t.add("record", out="raised", what=r)
    else:
        t.add("record", out="ok", n_updates=int(r[0]), rec=Raw(r[1]), curve=Raw(r[2]), before=Raw(r[3]), after=Raw(r[4]))


def ellipses(handles):
    """Center, half-axes and direction of each ellipse."""
    out = []
    for h in handles if isinstance(handles, (list, tuple)) else [handles]:
        if hasattr(h, "get_height") and hasattr(h, "angle"):
            a = np.radians(float(h.angle))
            out.append(dict(center=vec(h.center), half=[float(h.width) / 2, float(h.height) / 2], dir=[float(np.cos(a)), float(np.sin(a))]))
        elif isinstance(h, (list, tuple)):
            out += ellipses(h)
    return out


def plots(t, session, p):
    """Everything that can be plotted of a session."""
    def curve():
        lines, ax = session.plot_learning_curve(vlib.axes(1)[0]) if p["seed"] % 2 else session.plot_learning_curve()
        leg = ax.get_legend()
        return dict(lines=vlib.lines_of(list(lines)), all=vlib.lines_of(list(ax.lines)), labels=[x.get_text() for x in leg.get_texts()] if leg else [])

    def explo():
        return dict(lines=vlib.lines_of(list(session.plot_exploration_curve()[0])))

    def updates():
        h, ax = session.plot_distribution_updates()
        return dict(points=[q for q in vlib.lines_of(list(h))], ellipses=ellipses(list(h)))

    def update():
        u = p["seed"] % p["n"]
        h, ax = session.plot_distribution_update(u, plot_samples=bool(p["seed"] % 3), highlight=True)
        return dict(u=u + 1, points=vlib.lines_of(list(h)), ellipses=ellipses(list(h)), all=[[list(x) for x in zip(q["x"], q["y"])] for q in vlib.lines_of(list(ax.lines))] if h else [],
                    samples=bool(p["seed"] % 3))

    def rollouts():
        return dict(lines=vlib.lines_of(list(session.plot_rollouts()[0])))

    def everything():
        session.plot()
        return {}

    def ratio():
        return dict(ratio=float(session.get_cost_ratio()))
    todo = [curve, explo, updates, update, everything, ratio] + [rollouts] * (p["what"] == "task")
    order = np.random.RandomState(p["seed"]).permutation(len(todo))
    for i in order:
        out, r = attempt(todo[i])
        t.add("drawn", what=todo[i].__name__, out=out, err=str(r) if out != "ok" else "", **({k: Raw(v) for k, v in r.items()} if out == "ok" else {}))
        vlib.close()


def run(p):
    np.random.seed(p["seed"])
    d = instr.RecDistribution(np.array(p["dist"]["mean"]), np.array(p["dist"]["covar"]))
    t = Trace(p["name"], m=p["m"], n=p["n"], task=p["what"] == "task")
    t.cfg["labels"] = p.get("labels") if p["what"] != "manual" and p.get("labels") else []
    t.cfg["dist"] = instr.rec_d(d)
    directory = p.get("dir")
    if directory:
        Path(directory).mkdir(parents=True)
    inner = make_updater(p["updater"])
    instr.LOG.clear()
    if p["what"] == "manual":
        cls = LearningSessionTask if p["cls"] == "task" else LearningSession
        session = cls(p["m"], directory)
        for u in range(p["n"]):
            s = d.generate_samples(p["m"])
            costs = [instr.costs_of(x, p["comps"]) for x in s]
            new, w = inner.update_distribution(d, s, np.array(costs))
            ev = []
            if p["evals"]:
                c = instr.costs_of(d.mean, p["comps"])
                session.add_eval(u, d.mean, c)
                ev = [[vec(d.mean), vec(c)]]
            session.add_update(u, d, s, costs, w, new)
            t.add("manual", dist=Raw(instr.rec_d(d)), samples=Raw(mat(s)), costs=Raw([vec(c) for c in costs]),
                  weights=Raw(vec(w)), new=Raw(instr.rec_d(new)), evals=Raw(ev))
            d = new
        record(t, session, p)
    else:
        up = instr.RecUpdater(inner)
        if p["what"] == "cost":
            out, session = attempt(run_optimization, instr.RecCost(p["comps"], p["form"], p.get("labels")), d, up, p["n"], p["m"], directory)
        else:
            out, session = attempt(run_optimization_task, instr.RecTask(p["comps"], p["form"], p.get("labels")), instr.RecSolver(), d, up,
                                   p["n"], p["m"], directory)
        for op, kw in instr.LOG:
            t.add(op, **kw)
        t.add("finish", out=out, initial=Raw(instr.rec_d(d)))
        if out == "ok":
            record(t, session, p)
    if p.get("plots") and t.ev and t.ev[-1].get("out") == "ok":
        plots(t, session, p)
        record(t, session, p)
    if directory and t.ev and t.ev[-1].get("out") == "ok":
        cls = LearningSessionTask if p["what"] == "task" else LearningSession
        out, session = attempt(cls.from_dir, directory)
        if out == "ok":
            record(t, session, p)
            if p.get("plots"):
                plots(t, session, p)
                record(t, session, p)
        else:
            t.add("record", out="raised")
    return t.as_dict()


if __name__ == "__main__":
    progs = json.loads(Path(sys.argv[1]).read_text())
    with contextlib.redirect_stdout(io.StringIO()):
        out = vlib.run_all(run, progs)
    Path(sys.argv[2]).write_text(json.dumps(out))
