"""Runs step-by-step optimizations, each step in a process of its own, with kills.
IN: list of programs; OUT: list of traces."""
import contextlib
import io
import json
import os
import shutil
import sys
from pathlib import Path

import vlib
from vlib import np, attempt, Trace, Raw, vec, mat

import crash
from drv_updater import make_dist, make_updater, rec_dist, rec_updater
from dmpbbo.bbo_of_dmps import step_by_step_optimization as sbs
from dmpbbo.bbo_of_dmps.LearningSessionTask import LearningSessionTask
from dmpbbo.bbo_of_dmps.Task import Task
from dmpbbo.bbo_of_dmps.TaskSolverDmp import TaskSolverDmp
from dmpbbo.dmps.Dmp import Dmp
from dmpbbo.dmps.Trajectory import Trajectory
from dmpbbo.functionapproximators.FunctionApproximatorRBFN import FunctionApproximatorRBFN
import dmpbbo.json_for_cpp as jc


class StepTask(Task):
    def __init__(self, form):
        self.form = form

    def evaluate_rollout(self, cost_vars, sample):
        cv, p = np.ravel(cost_vars), np.ravel(sample)
        c = [float(np.sum(cv) + p @ p), float(np.sum(cv)), float(p @ p)]
        return np.array(c) if self.form == "array" else c


def make_dmp(p):
    nd, nb = p["dims"], p["basis"]
    ts = np.linspace(0, 1.0, 11)
    traj = Trajectory.from_min_jerk(ts, np.zeros(nd), np.ones(nd) * 1.5)
    fas = [FunctionApproximatorRBFN(nb, 0.7) for _ in range(nd)]
    d = Dmp.from_traj(traj, fas, dmp_type="KULVICIUS_2012_JOINING")
    d.set_selected_param_names(p["select"] if len(p["select"]) > 1 else p["select"][0])
    return d


def in_child(fn):
    """Run fn in a new process; gives (exit status, value)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            os.close(r)
            v = fn()
            with os.fdopen(w, "w") as f:
                json.dump(v, f)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r) as f:
        s = f.read()
    _, status = os.waitpid(pid, 0)
    code = os.waitstatus_to_exitcode(status)
    return code, (json.loads(s) if code == 0 else None)


def do_step(p, d, u, seed, watch=None):
    """Body of one step's process: u = -1 is the preparation."""
    np.random.seed(seed)
    if watch:
        watch.start()
    if u < 0:
        dmp = make_dmp(p)
        dist = make_dist(p["dist"])
        sbs.prepare_optimization(d, StepTask(p["form"]), TaskSolverDmp(dmp, 0.1, 1.0), dist, p["m"], make_updater(p["updater"]), dmp,
                                 p["traj"])
    else:
        sbs.update_step(LearningSessionTask.from_dir(d), u, p["traj"])
    if watch:
        watch.stop()
    return watch.count if watch else 0


def roll(p, d, u, k):
    """The robot: reads the DMPs from their files, writes cost variables."""
    for i in list(range(p["m"])) + ["eval"]:
        b = "eval" if i == "eval" else f"{i:03d}"
        dmp = jc.loadjson(Path(d, f"update{u:05d}", f"{b}_dmp.json"))
        q = np.ravel(dmp.get_param_vector())
        cv = np.concatenate([q * 0.5, [u + 0.01 * (p["m"] if i == "eval" else i), (k * 7919 + (hash_of(q) % 997)) / 500.0]])
        cv = {"1d": cv, "row": cv.reshape(1, -1), "col": cv.reshape(-1, 1)}[p["cv"]]
        np.savetxt(str(Path(d, f"update{u:05d}", f"{b}_cost_vars.txt")), cv)
    return 0


def hash_of(q):
    return int(abs(np.sum(q * np.arange(1, len(q) + 1))) * 1e6)


def look(p, d, n):
    s = LearningSessionTask.from_dir(d)
    ups = []
    labels = list(range(p["m"])) + ["eval"]
    nd = len(p["dist"]["mean"])
    for u in range(n):
        dmps = [s.ask("dmp", u, i) for i in labels]
        cpp = []
        for i, dmp in zip(labels, dmps):
            b = "eval" if i == "eval" else f"{i:03d}"
            j = json.loads(Path(d, f"update{u:05d}", f"{b}_dmp_for_cpp.json").read_text())
            q = []
            for fa in j["_function_approximators"]:
                for name in p["select"]:
                    if name in fa["_model_params"]:
                        q += np.ravel(fa["_model_params"][name]).tolist()
            if "goal" in p["select"]:
                q += np.ravel(j["_y_attr"]).tolist()
            cpp.append(vlib.nest(q))
        params = [vec(x.get_param_vector()) for x in dmps]
        # the order of the values in the C++ file is not that of the vector
        same = [sorted(map(str, q)) == sorted(map(str, w)) for q, w in zip(cpp, params)]
        x = dict(dist=rec_dist(s.ask("distribution", u), nd), samples=mat(s.ask("samples", u)), params=params,
                 cpp=[w if ok else q for ok, q, w in zip(same, cpp, params)],
                 trajs=[], expected_trajs=[], costs=[], cvs=[], weights=[], new=[])
        if p["traj"]:
            for dmp, i in zip(dmps, labels):
                tr = np.asarray(s.ask("traj", u, i))
                ts = dmp.ts_train
                xs, xds, _, _ = dmp.analytical_solution(ts)
                m = dmp.states_as_trajectory(ts, xs, xds).as_matrix()
                ok = tr.shape == m.shape and np.allclose(tr, m, rtol=1e-12, atol=1e-12)
                x["trajs"].append("of its DMP" if ok else "of another DMP")
                x["expected_trajs"].append("of its DMP")
        if s.exists("cost_vars", u, "eval"):
            x["cvs"] = [vec(s.ask("cost_vars", u, i)) for i in labels]
        if u < n - 1:
            x["costs"] = [vec(s.ask("costs", u, i)) for i in labels]
            x["weights"] = vec(s.ask("weights", u))
            x["new"] = rec_dist(s.ask("distribution_new", u), nd)
        ups.append(x)
    curve = [vec(r) for r in s.get_learning_curve()[0]]
    return dict(updates=ups, n_updates=int(s.get_n_updates()), curve=curve)


def run_program(p):
    d = Path(p["dir"])
    d.parent.mkdir(parents=True, exist_ok=True)
    t = Trace(p["name"], m=p["m"])
    nd = len(p["dist"]["mean"])
    t.cfg["dist"] = rec_dist(make_dist(p["dist"]), nd)
    t.cfg["updater"] = rec_updater(p["updater"], nd)
    done, k = 0, 0
    for killed in p["steps"]:
        u = done - 1
        for at, mode in killed:
            k += 1
            w = crash.Watch(d, at, mode)
            code, _ = in_child(lambda: do_step(p, str(d), u, p["seed"] + k, w))
            if code == 0:      # the step has fewer operations than that
                w = crash.Watch(d, 1 + at % 5, mode)
                code, _ = in_child(lambda: do_step(p, str(d), u, p["seed"] + k, w))
            t.add("step", u=u, killed=True, at=at, mode=mode, out="killed" if code == 9 else "raised" if code == 3 else "not killed")
            if code == 0:
                raise RuntimeError("the step could not be killed")
        k += 1
        code, _ = in_child(lambda: do_step(p, str(d), u, p["seed"] + k))
        t.add("step", u=u, killed=False, at=0, mode="none", out="ok" if code == 0 else "raised")
        if code:
            break
        done += 1
        code, v = in_child(lambda: look(p, str(d), done))
        t.add("look", out="ok" if code == 0 else "raised", **({k2: Raw(x) for k2, x in v.items()} if v else {}))
        if code:
            break
        code, _ = in_child(lambda: roll(p, str(d), done - 1, k))
        t.add("roll", u=done - 1)
        if code:
            raise RuntimeError("rollouts failed")
    shutil.rmtree(d, ignore_errors=True)
    return t.as_dict()


def count(p):
    """Number of operations on files of the preparation and of an update."""
    d = Path(p["dir"] + "-count")
    d.parent.mkdir(parents=True, exist_ok=True)
    n = []
    for u in (-1, 0):
        w = crash.Watch(d)
        code, c = in_child(lambda: do_step(p, str(d), u, p["seed"], w))
        n.append(c or 1)
        if code:
            break
        in_child(lambda: roll(p, str(d), u + 1, 1))
    shutil.rmtree(d, ignore_errors=True)
    return n


if __name__ == "__main__":
    progs = json.loads(Path(sys.argv[1]).read_text())
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    out = vlib.run_all(lambda p: count(p) if p.get("what") == "count" else run_program(p), progs)
    Path(sys.argv[2]).write_text(json.dumps(out))
