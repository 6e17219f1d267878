"""Runs optimizations of movements that the programs of demos/robot execute. IN: list of programs; OUT: list of traces."""
import contextlib
import copy
import json
import os
import shutil
import subprocess
import sys
from pathlib import Path

import vlib
from vlib import np, attempt, Trace, Raw, vec, mat
import drv_dmp
from drv_updater import make_dist, make_updater, rec_dist, rec_updater

ROBOT = Path(vlib.REPO) / "demos" / "robot"
sys.path.append(str(ROBOT))
from TaskThrowBall import TaskThrowBall, run_python_simulation
from dmpbbo.bbo_of_dmps import step_by_step_optimization as sbs
from dmpbbo.bbo_of_dmps.LearningSessionTask import LearningSessionTask
from dmpbbo.dmps.Dmp import Dmp
from dmpbbo.dmps.Trajectory import Trajectory
from dmpbbo.functionapproximators.FunctionApproximatorRBFN import FunctionApproximatorRBFN
import dmpbbo.json_for_cpp as jc

DT = 0.01     # of the robot


def robot(program, cwd, *args):
    """Run a program of the robot: the rows that it has written."""
    r = subprocess.run([str(Path(os.environ["VERIF_ROBOT"]) / program), *args], cwd=cwd, capture_output=True, text=True, timeout=60)
    out = "ok" if r.returncode == 0 else f"exit {r.returncode}"
    rows = []
    if out == "ok":
        out, m = attempt(lambda: np.atleast_2d(np.loadtxt(Path(cwd, args[-1]))))
        rows = mat(m) if out == "ok" else []
    return dict(out=out, rows=Raw(rows))


def task_of(q):
    return TaskThrowBall(q["goal"], q["margin"], q["floor"], q["weight"])


def rec_task(q):
    return dict(goal=q["goal"], margin=q["margin"], floor=q["floor"], weight=q["weight"])


def models(dmp, p):
    return drv_dmp.models(drv_dmp.held(dmp, "_function_approximators", 1), p["fas"], 2)


def read(t, dmp, p):
    t.add("read", out="ok", tau=float(dmp.tau), y_init=Raw(vec(dmp.y_init)), y_attr=Raw(vec(dmp.y_attr)), dim_y=int(dmp.dim_dmp()), dim_x=int(dmp.dim_x),
          fas=models(dmp, p), sfas=[], ts_train=Raw([]))


def walk(t, dmp, rows):
    """The movement of a DMP, in the time steps of the robot."""
    ts = DT * np.arange(max(2, rows))
    out, r = attempt(copy.deepcopy(dmp).integrate, ts)
    t.add("integrate", method="default", ts=Raw(vec(ts)), out=out, unmodified=True, **(dict(xs=Raw(mat(r[0])), xds=Raw(mat(r[1]))) if out == "ok" else {}))


def check_dmp(t, dmp, p, v, how, d, name, rows):
    """A DMP in a file, and what the robot does with it."""
    t.add("set", v=Raw(vec(v)), out="ok", unmodified=True)
    read(t, dmp, p)
    if how == "dmp":
        walk(t, dmp, int(np.ceil(1.5 * float(dmp.tau) / DT)) + 1)
        t.add("perform", dt=DT, **rows)


def labels(m):
    return list(range(m)) + ["eval"]


def base(i):
    return "eval" if i == "eval" else f"{i:03d}"


def batch(t, d, u, m, nd):
    s = LearningSessionTask.from_dir(d)
    dmps = [s.ask("dmp", u, i) for i in labels(m)]
    samples = s.ask("samples", u)
    dist = s.ask("distribution", u)
    t.add("batch", u=u, out="ok", dist=Raw(rec_dist(dist, nd)), samples=Raw(mat(samples)), params=Raw([vec(x.get_param_vector()) for x in dmps]))
    return dmps, [*np.asarray(samples), np.asarray(dist.mean)]


def roll(t, p, d, u, m, dmps, params):
    """The robot performs the movements of update u."""
    du = Path(d, f"update{u:05d}")
    for i, dmp, v in zip(labels(m), dmps, params):
        name = base(i)
        if p["how"] == "dmp":
            rows = robot("robotExecuteDmp", du, f"{name}_dmp_for_cpp.json", f"{name}_cost_vars.txt")
            check_dmp(t, dmp, p, v, "dmp", du, name, rows)
        else:
            ts = np.array(dmp.ts_train)
            check_dmp(t, dmp, p, v, "traj", du, name, None)
            tr = np.loadtxt(du / f"{name}_traj.txt")
            solution(t, dmp, ts, tr)
            rows = robot("robotExecuteTrajectory", du, f"{name}_traj.txt", f"{name}_cost_vars.txt")
            t.add("perform trajectory", ts=Raw(vec(tr[:, 0])), ys=Raw(mat(tr[:, 1:3])), yds=Raw(mat(tr[:, 3:5])), ydds=Raw(mat(tr[:, 5:7])), **rows)


def solution(t, dmp, ts, tr):
    """The trajectory in a file is the analytical solution."""
    xs, xds, forcing, fa = copy.deepcopy(dmp).analytical_solution(ts)
    t.add("solution", given=True, suppress=False, out="ok", unmodified=True, ts=Raw(vec(ts)), xs=Raw(mat(xs)), xds=Raw(mat(xds)), forcing=Raw(mat(forcing)), fa=Raw(mat(fa)))
    t.add("traj", out="ok", ts=Raw(vec(ts)), tts=Raw(vec(tr[:, 0])), xs=Raw(mat(xs)), xds=Raw(mat(xds)),
          ys=Raw(mat(tr[:, 1:3])), yds=Raw(mat(tr[:, 3:5])), ydds=Raw(mat(tr[:, 5:7])))


def costs(t, p, d, u, m, nd):
    """What the directory says about update u after it has been done."""
    s = LearningSessionTask.from_dir(d)
    du = Path(d, f"update{u:05d}")
    all_costs = []
    for i in labels(m):
        cv, c = s.ask("cost_vars", u, i), s.ask("costs", u, i)
        f = np.loadtxt(du / f"{base(i)}_cost_vars.txt")
        all_costs.append(vec(c))
        t.add("cost", out="ok", task=rec_task(p["task"]), rows=Raw(mat(cv)), cost=Raw(vec(c)), asread=bool(np.shape(cv) == f.shape and np.array_equal(cv, f)))
    curve = np.asarray(s.get_learning_curve()[0])
    t.add("update", out="ok", costs=Raw(all_costs[:m]), eval=Raw(all_costs[m]), weights=Raw(vec(s.ask("weights", u))), new=Raw(rec_dist(s.ask("distribution_new", u), nd)),
          next=Raw(rec_dist(s.ask("distribution", u + 1), nd)), curve=Raw(vec(curve[u])))


def run_library(p):
    d = Path(p["dir"])
    dmp, cfg = drv_dmp.make(p, [])
    cfg.pop("_kw"), cfg.pop("_fas")
    t = Trace(p["name"])
    t.cfg.update(cfg)
    names = p["select"] + (["goal"] if p["goal"] else [])
    dmp.set_selected_param_names(names)
    if p.get("demo"):      # (its times are those of the trajectories for the robot)
        ts = np.array(p["demo"]["ts"])
        ys, yds, ydds = drv_dmp.demo(p["demo"], ts)
        dmp.train(Trajectory(ts, ys, yds, ydds))
        t.cfg.update(tau=float(ts[-1]), yinit=vec(ys[0]), yattr=vec(ys[-1]), fas=models(dmp, p))
        if p["scaling"] == "amp":
            t.cfg["amps"] = vec(np.ptp(ys, axis=0))
    mean = dmp.get_param_vector()
    nd = len(mean)
    q = dict(p["dist"], mean=vec(mean))
    s = np.abs(mean) * p["sigma"] + p["least"]
    q["covar"] = np.diag(s * s).tolist()
    dist = make_dist(q)
    t.cfg.update(count=p["m"], dist=rec_dist(dist, nd), updater=rec_updater(p["updater"], nd))
    t.add("select", fa=Raw(p["select"]), goal=p["goal"], sched=Raw([]), out="ok")
    np.random.seed(p["seed"])
    task = task_of(p["task"])
    sbs.prepare_optimization(str(d), task, None, dist, p["m"], make_updater(p["updater"]), dmp, p["how"] == "traj")
    for u in range(p["updates"]):
        dmps, params = batch(t, str(d), u, p["m"], nd)
        roll(t, p, str(d), u, p["m"], dmps, params)
        sbs.update_step(LearningSessionTask.from_dir(str(d)), u, p["how"] == "traj")
        costs(t, p, str(d), u, p["m"], nd)
    shutil.rmtree(d, ignore_errors=True)
    return t.as_dict()


def script(t, name, cwd, *args):
    env = dict(os.environ, PYTHONPATH=f"{vlib.REPO}:{ROBOT}", MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1")
    r = subprocess.run([sys.executable, "-W", "ignore", str(ROBOT / name), *map(str, args)], cwd=cwd, env=env, capture_output=True, text=True, timeout=200)
    t.add("script", name=name, out="ok" if r.returncode == 0 else "exit " + r.stderr[-300:])
    return r.returncode == 0


def run_scripts(p):
    """The steps of demos/robot/README.md, each a process of its own."""
    d = Path(p["dir"])
    d.mkdir(parents=True)
    ts = np.array(p["demo"]["ts"])
    Trajectory(ts, *drv_dmp.demo(p["demo"], ts)).savetxt(str(d / "demo.txt"))
    demo = Trajectory.loadtxt(str(d / "demo.txt"))
    nb, m = p["fas"]["nbf"], 5
    fas = [FunctionApproximatorRBFN(nb, 0.7) for _ in range(2)]
    Dmp.from_traj(demo, fas, dmp_type="KULVICIUS_2012_JOINING")
    t = Trace(p["name"])
    t.cfg.update(tau=float(demo.ts[-1]), yinit=vec(demo.ys[0]), yattr=vec(demo.ys[-1]), d=[20.0, 20.0], k=[100.0, 100.0], m=[1.0, 1.0], scaling="none",
                 amps=[], override={}, type=drv_dmp.type_of("KULVICIUS_2012_JOINING"), fas=drv_dmp.models(fas, p["fas"], 2), sfas=[], smin=[], smax=[],
                 count=m)
    r = d / "results"
    if not script(t, "step1_train_dmp_from_trajectory_file.py", d, "demo.txt", "results/training", "--n", nb):
        return t.as_dict()
    t.add("select", fa=Raw(["weights"]), goal=False, sched=Raw([]), out="ok")
    shutil.copy(r / "training" / f"dmp_trained_{nb}.json", r / "dmp_initial.json")
    dmp = jc.loadjson(r / "dmp_initial.json")
    read(t, dmp, p)
    walk(t, dmp, int(np.ceil(1.5 * float(dmp.tau) / DT)) + 1)
    t.add("perform", dt=DT, **robot("robotExecuteDmp", d, f"results/training/dmp_trained_{nb}_for_cpp.json", "tmp_cost_vars.txt"))
    script(t, "step2_define_task.py", d, "results", "task.json")
    task = jc.loadjson(r / "task.json")
    p["task"] = dict(goal=float(task.x_goal), margin=float(task.x_margin), floor=float(task.y_floor), weight=float(task.acceleration_weight))
    sigma = p["sigma"]
    script(t, "step3_tune_exploration.py", d, "results/dmp_initial.json", "results/tune", "--n", 2, "--sigma", sigma)
    tune = r / "tune" / ("sigma_%1.3f" % sigma)
    dist = jc.loadjson(tune / "distribution.json")
    nd = len(dist.mean)
    files = sorted(tune.glob("*_dmp.json"))
    vs = [jc.loadjson(f).get_param_vector() for f in files]
    t.add("explore", out="ok", dist=Raw(rec_dist(dist, nd)), sigma=float(sigma), count=len(files), asked=2, different=len({json.dumps(vec(v)) for v in vs}) == 2)
    for f, v in zip(files, vs):
        cpp = f.name.replace(".json", "_for_cpp.json")
        rows = robot("robotExecuteDmp", tune, cpp, f.name + "_cost_vars.txt")
        check_dmp(t, jc.loadjson(f), p, v, "dmp", tune, f.name, rows)
    shutil.copy(tune / "distribution.json", r / "distribution_initial.json")
    t.cfg.update(dist=rec_dist(dist, nd), updater=rec_updater(dict(kind="decay", decay=0.8, elite=10), nd))
    if not script(t, "step4_prepare_optimization.py", d, "results", *(["--traj"] if p["how"] == "traj" else [])):
        return t.as_dict()
    for u in range(p["updates"]):
        dmps, params = batch(t, str(r), u, m, nd)
        roll(t, p, str(r), u, m, dmps, params)
        if not script(t, "step5_one_optimization_update.py", d, "results", u, *(["--traj"] if p["how"] == "traj" else [])):
            return t.as_dict()
        costs(t, p, str(r), u, m, nd)
    shutil.rmtree(d, ignore_errors=True)
    return t.as_dict()


def run_simulate(p):
    dmp, cfg = drv_dmp.make(p, [])
    cfg.pop("_kw"), cfg.pop("_fas")
    t = Trace(p["name"])
    t.cfg.update(cfg)
    task = task_of(p["task"])
    for floor in p["floors"]:
        out, m = attempt(run_python_simulation, dmp, floor)
        walk(t, dmp, int(np.ceil(1.5 * float(dmp.tau) / DT)) + 1)
        t.add("simulate", dt=DT, floor=floor, out=out, rows=Raw(mat(m) if out == "ok" else []))
        if out == "ok":
            keep = np.array(m)
            out, c = attempt(task.evaluate_rollout, m, np.zeros(3))
            t.add("cost", out=out, task=rec_task(p["task"]), rows=Raw(mat(keep)), cost=Raw(vec(c) if out == "ok" else []), asread=bool(np.array_equal(keep, m)))
    return t.as_dict()


def run_traj(p):
    d = Path(p["dir"])
    d.mkdir(parents=True)
    t = Trace(p["name"])
    z = [0.0, 0.0]
    t.cfg.update(tau=1.0, yinit=z, yattr=z, d=z, k=z, m=z, scaling="none", amps=[], override={},
                 type=dict(name="ijspeert", goalscaled=False, damping=False), fas=[], sfas=[], smin=[], smax=[])
    for k, q in enumerate(p["demos"]):
        ts = np.array(q["ts"])
        ys, yds, ydds = drv_dmp.demo(q, ts)
        Trajectory(ts, ys, yds, ydds).savetxt(str(d / "traj.txt"))
        t.add("perform trajectory", ts=Raw(vec(ts)), ys=Raw(mat(ys)), yds=Raw(mat(yds)), ydds=Raw(mat(ydds)), **robot("robotExecuteTrajectory", d, "traj.txt", "cost_vars.txt"))
    shutil.rmtree(d, ignore_errors=True)
    return t.as_dict()


if __name__ == "__main__":
    progs = json.loads(Path(sys.argv[1]).read_text())
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    kinds = dict(library=run_library, scripts=run_scripts, simulate=run_simulate, traj=run_traj)
    out = vlib.run_all(lambda p: kinds[p["what"]](p), progs)
    Path(sys.argv[2]).write_text(json.dumps(out))
