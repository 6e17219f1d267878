"""Runs programs on DMPs, with or without schedules. IN: list of programs; OUT: list of traces."""
import contextlib
import copy
import io
import json
import sys
from pathlib import Path

import vlib
from vlib import np, attempt, Trace, Raw, vec, mat
import drv_dynsys
from drv_fa import read_model

from dmpbbo.dmps.Dmp import Dmp
from dmpbbo.dmps.DmpContextualTwoStep import DmpContextualTwoStep
from dmpbbo.dmps.DmpWithSchedules import DmpWithSchedules
from dmpbbo.dmps.Trajectory import Trajectory
from dmpbbo.bbo_of_dmps.TaskSolverDmp import TaskSolverDmp
from dmpbbo.functionapproximators.FunctionApproximatorGPR import FunctionApproximatorGPR
from dmpbbo.functionapproximators.FunctionApproximatorLWR import FunctionApproximatorLWR
from dmpbbo.functionapproximators.FunctionApproximatorRBFN import FunctionApproximatorRBFN
from dmpbbo.functionapproximators.FunctionApproximatorWLS import FunctionApproximatorWLS

LOG = []


class Recorder:
    """A function approximator that records what it is trained on."""

    def train(self, inputs, targets, **kwargs):
        x, y = np.array(inputs, dtype=float), np.array(targets, dtype=float)
        r = super().train(inputs, targets, **kwargs)
        new = make_fa(self.program, self.number, False)
        new.train(x.copy(), y.copy())
        kind = self.program["kind"]
        LOG.append(dict(dim=self.number, inputs=vec(x), targets=vec(y),
                        model=read_model(self, kind, 1, 1.0), fresh=read_model(new, kind, 1, 1.0)))
        return r


class Rbfn(Recorder, FunctionApproximatorRBFN):
    pass


class Lwr(Recorder, FunctionApproximatorLWR):
    pass


class Wls(Recorder, FunctionApproximatorWLS):
    pass


class Gpr(Recorder, FunctionApproximatorGPR):
    pass


for c in (Rbfn, Lwr, Wls, Gpr):
    c.__name__ = c.__bases__[1].__name__      # which is what the C++ code knows


def make_fa(q, number, record=True):
    k = q["kind"]
    if k == "wls":
        fa = (Wls if record else FunctionApproximatorWLS)(q.get("offset", True), q.get("reg", 0.0))
    elif k == "gpr":
        fa = (Gpr if record else FunctionApproximatorGPR)(1.0, q["length"])
    else:
        c = {"rbfn": (Rbfn, FunctionApproximatorRBFN), "lwr": (Lwr, FunctionApproximatorLWR)}[k][0 if record else 1]
        fa = c(q["nbf"], q.get("height", 0.7), q.get("reg", 0.0))
    if record:
        fa.program, fa.number = q, number
    return fa


def pretrain(fa, q):
    """Some function over the phase, without leaving a record."""
    x = np.linspace(0, 1, 30 if q["kind"] != "gpr" else 5)
    a, b, c = q["f"]
    fa.train(x, a * np.sin(b * x + c + fa.number))
    LOG.clear()


def make_fas(q, n, first):
    if q is None:
        return None
    fas = [make_fa(q, first + i) for i in range(n)]
    for i, fa in enumerate(fas):
        if "f" in q and (q.get("only") is None or i in q["only"]):
            pretrain(fa, q)
    return fas


def models(fas, q, n):
    if fas is None:
        return []
    return [read_model(fa, q["kind"], 1, 1.0) if fa.is_trained() else dict(kind="none") for fa in fas]


def held(o, name, first):
    """The approximators in a DMP, for which there is no other access: under the name they have there, or from the first number on."""
    if hasattr(o, name):
        return getattr(o, name)
    for v in vars(o).values():
        if isinstance(v, (list, tuple)) and len(v) and getattr(v[0], "number", None) == first:
            return v
    return None


def opt(x):
    """Bounds: None, a number or a list."""
    return vlib.given(x) if isinstance(x, list) else x


def make(p, garbage, cls=Dmp):
    n = p["n"]
    tau, y0, g = vlib.scalar(p["tau"]), vlib.given(p["y0"]), vlib.given(p["g"])
    garbage += [y0, g]
    kw = dict(dmp_type=p["type"])
    if "alpha" in p:
        kw["alpha_spring_damper"] = p["alpha"]
    if p["scaling"] != "none":
        kw["forcing_term_scaling"] = {"g": "G_MINUS_Y0_SCALING", "amp": "AMPLITUDE_SCALING"}[p["scaling"]]
        if p["scaling"] == "amp":
            kw["scaling_amplitudes"] = vlib.given(p["amps"])
    override = {}
    for which, q in p.get("override", {}).items():
        o, r = drv_dynsys.make(dict(q, tau=tau), [])
        override[which] = r
        kw[which + "_system" if which != "spring" else "transformation_system"] = o
    d = np.zeros(n) + p.get("alpha", 20.0)
    k, m = d * d / 4, np.ones(n)
    if "spring" in override:
        r = override.pop("spring")
        d, k, m = np.array(r["d"]), np.array(r["k"]), np.array(r["m"])
    if "damping" in override:
        override["damp"] = override.pop("damping")
    fas = make_fas(p["fas"], n, 1)
    cfg = dict(tau=float(tau), yinit=p["y0"], yattr=p["g"], d=d, k=k, m=m, scaling=p["scaling"], amps=p.get("amps", []),
               override=override, type=type_of(p["type"]), fas=models(fas, p["fas"], n), sfas=[], smin=[], smax=[])
    cfg.update({x: vec(cfg[x]) for x in ("d", "k", "m")})
    if p.get("sched"):
        s = p["sched"]
        sfas = make_fas(s["fas"], s["n"], n + 1)
        for b in ("min", "max"):
            if s.get(b) is not None:
                kw[b + "_schedules"] = opt(s[b])
                cfg["s" + b] = vec(np.full((s["n"],), s[b]))
        cfg["sfas"] = models(sfas, s["fas"], s["n"])
        dmp = DmpWithSchedules(tau, y0, g, fas, sfas, **kw)
    else:
        sfas = []
        dmp = cls(tau, y0, g, fas, **kw)
    cfg["_kw"] = kw
    cfg["_fas"] = fas, sfas
    return dmp, cfg


def type_of(name):
    if name in ("IJSPEERT_2002_MOVEMENT", "Ijs02"):
        t = "ijspeert"
    elif name in ("KULVICIUS_2012_JOINING", "Kul12"):
        t = "kulvicius"
    elif name == "COUNTDOWN_2013":
        t = "countdown"
    else:
        t = "richards"
    return dict(name=t, goalscaled=t == "richards" and "NO_SCALING" not in name, damping=t == "richards" and "DAMPING" in name)


def demo(q, ts):
    """Positions, velocities and accelerations of a smooth movement: a minimum-jerk movement, sines, and a polynomial."""
    ts = np.asarray(ts)
    t1 = q["T"]
    s = np.clip(ts / t1, 0, None)
    y, yd, ydd = [], [], []
    for a, b, sines, rest in zip(q["from"], q["to"], q["sines"], q["rest"]):
        if rest:
            y.append(np.full(ts.shape, a)), yd.append(np.zeros(ts.shape)), ydd.append(np.zeros(ts.shape))
            continue
        u = s * t1
        p = a + (b - a) * (10 * s**3 - 15 * s**4 + 6 * s**5)
        v = (b - a) * (30 * s**2 - 60 * s**3 + 30 * s**4) / t1
        w = (b - a) * (60 * s - 180 * s**2 + 120 * s**3) / t1**2
        for amp, om in sines:
            if q["still"]:  # amp * sin^2(om u): starts at rest
                p = p + amp * np.sin(om * u) ** 2
                v = v + amp * om * np.sin(2 * om * u)
                w = w + 2 * amp * om**2 * np.cos(2 * om * u)
            else:
                p = p + amp * np.sin(om * u)
                v = v + amp * om * np.cos(om * u)
                w = w - amp * om**2 * np.sin(om * u)
        y.append(p), yd.append(v), ydd.append(w)
    return np.array(y).T, np.array(yd).T, np.array(ydd).T


class Contextual:
    """A contextual DMP, seen as a DMP. A task that was told before a call is asked for by the call."""

    def __init__(self, t, p, dmp, kwargs, garbage, fas_of):
        self.__dict__.update(t=t, p=p, base=dmp, kwargs=kwargs, garbage=garbage, fas_of=fas_of, ctx=None, task=None, keep=None)

    def __deepcopy__(self, memo):
        new = Contextual(self.t, self.p, self.base, self.kwargs, self.garbage, self.fas_of)
        new.__dict__.update(ctx=copy.deepcopy(self.ctx, memo), keep=self.keep)
        return new

    @property
    def plain(self):
        return self.base if self.ctx is None else self.ctx.dmp

    def __getattr__(self, name):
        return getattr(self.plain, name)

    def __setattr__(self, name, v):
        if name == "task":
            self.__dict__[name] = v
        elif name in ("tau", "y_init") and self.ctx is not None:
            setattr(self.ctx, name, v)
        else:
            setattr(self.plain, name, v)

    def snapshot(self):
        """What a contextual DMP made from a DMP must leave as it is."""
        b = self.base
        return json.dumps([float(b.tau), vec(b.y_init), vec(b.y_attr), self.fas_of(b), b.get_param_vector_size() if self.p["fas"] else 0])

    def ctrain(self, q):
        t, p, n = self.t, self.p, self.p["n"]
        form, ppf = q["form"], q["ppf"]
        ppf = dict(ppf, dim=len(q["demos"][0]["task"]))
        pairs, keep, demos = [], [], []
        names = list(q["names"]) + (["goal"] if q["goal"] else [])
        names = names[0] if len(names) == 1 and q["str"] else names
        for d in q["demos"]:
            ts = np.array(d["demo"]["ts"])
            ys, yds, ydds = demo(d["demo"], ts)
            tr = Trajectory(ts.copy(), ys.copy(), yds.copy(), ydds.copy())
            task = d["task"][0] if len(d["task"]) == 1 and q["scalar"] else vlib.given(d["task"])
            pairs.append((task, tr))
            keep.append((d["task"], ts, ys, yds, ydds))
            self.garbage += [tr.ts, tr.ys, tr.yds, tr.ydds, task]
        base = self.snapshot() if form == "from_dmp" else None
        # the same demonstrations, given to a DMP
        for d, (task, ts, ys, yds, ydds) in zip(q["demos"], keep):
            ref = copy.deepcopy(self.plain)
            ref.train(Trajectory(ts.copy(), ys.copy(), yds.copy(), ydds.copy()))
            phases = np.array(ref.analytical_solution(ts)[0])[:, 3 * n]
            demos.append(dict(task=Raw(task).v, tau=float(ts[-1]), first=vec(ys[0]), final=vec(ys[-1]), fas=self.fas_of(ref), phases=[[x] for x in vec(phases)]))
        LOG.clear()

        def f():
            import drv_fa
            count = 0
            if q["list"]:
                ref.set_selected_param_names(names)
                count = ref.get_param_vector_size()
            app = [drv_fa.make(ppf) for _ in range(count)] if q["list"] else drv_fa.make(ppf)
            C = DmpContextualTwoStep
            if form == "from_dmp":
                new = C.from_dmp(pairs, self.base, names, app)
            elif form == "from_trajs":
                new = C.from_trajs(pairs, make_fas(p["fas"], n, 1), names, app, **self.kwargs, **({"save_training_data": True} if q["str"] else {}))
            elif form == "train":
                new, _ = make(p, [], C)
                new.train(pairs, names, app)
            else:
                new = self.ctx
                new.train(pairs, names, app, save_training_data=q["str"])
            self.__dict__["ctx"] = new
        out, err = attempt(f)
        self.__dict__["keep"] = base
        un = all(np.array_equal(a, b) for (_, tr), (_, *k) in zip(pairs, keep) for a, b in zip((tr.ts, tr.ys, tr.yds, tr.ydds), k)) \
            and all(np.array_equal(np.ravel(x), k[0]) for (x, _), k in zip(pairs, keep)) and self.same_base()
        import drv_fa
        e = dict(out=out, err=str(err), unmodified=bool(un), demos=Raw(demos), fa=Raw(list(q["names"])), goal=q["goal"], kind=ppf["kind"],
                 meta=Raw(drv_fa.meta(ppf)), tol=1e-6)
        if out == "ok":
            d = self.plain
            e.update(ppf=Raw([read_model(fa, ppf["kind"], ppf["dim"], ppf["par"].get("maxcov")) for fa in self.ctx.ppf]), fas=Raw(self.fas_of(d)),
                     tau=float(self.ctx.tau), y_init=Raw(vec(self.ctx.y_init)), y_attr=Raw(vec(d.y_attr)),
                     ts_train=Raw(vec(d.ts_train) if d.ts_train is not None else []))
        t.add("ctrain", **e)
        LOG.clear()

    def same_base(self):
        return self.keep is None or self.keep == self.snapshot()

    def ask(self, call):
        """A call with task parameters."""
        task = self.task
        self.task = None
        x = vlib.given(task["v"])
        x = {"float": lambda: float(x[0]), "vec": lambda: x.copy(), "row": lambda: x.reshape(1, -1).copy(), "list": lambda: list(task["v"])}[task["form"]]()
        out, r = attempt(call, x)
        d = self.plain
        self.t.add("request", task=Raw(task["v"]), out=out, fas=Raw(self.fas_of(d)), y_attr=Raw(vec(d.y_attr)),
                   unmodified=bool(np.array_equal(np.ravel(x), task["v"])) and self.same_base())
        self.garbage.append(x)
        if out != "ok":
            raise RuntimeError(r)
        return r

    def integrate_start(self, *args):
        if self.task is None:
            return self.plain.integrate_start(*args)
        return self.ask(lambda x: self.ctx.integrate_start(x, *args))

    def analytical_solution(self, *args, **kw):
        if self.task is None:
            return self.plain.analytical_solution(*args, **kw)
        return self.ask(lambda x: self.ctx.analytical_solution(x, *args, **kw))

    def via(name):  # noqa
        return lambda self, *a: getattr(self.ctx, name)(*a)

    differential_equation, integrate_step = via("differential_equation"), via("integrate_step")
    integrate_step_euler, integrate_step_runge_kutta = via("integrate_step_euler"), via("integrate_step_runge_kutta")
    states_as_trajectory, states_as_pos_vel_acc = via("states_as_trajectory"), via("states_as_pos_vel_acc")
    decouple_parameters = via("decouple_parameters")


def flat(*xs):
    return all(np.ndim(x) == 1 for x in xs)


def run(p):
    n = p["n"]
    garbage = []
    LOG.clear()
    out, r = attempt(make, p, garbage)
    if out != "ok":
        t = Trace(p["name"])
        zero = [0.0] * n
        t.cfg.update(tau=1.0, yinit=zero, yattr=zero, d=zero, k=zero, m=zero, scaling="none", amps=[], override={},
                     type=dict(name="ijspeert", goalscaled=False, damping=False), fas=[], sfas=[], smin=[], smax=[])
        t.add("decouple", out="not constructed: " + str(r))
        return t.as_dict()
    dmp, cfg = r
    kwargs, _ = cfg.pop("_kw", None), cfg.pop("_fas")
    context = None
    t = Trace(p["name"])
    t.cfg.update(cfg)
    sched = p.get("sched")
    seen = []     # states that were reached
    demoq = None

    def fas_of(o):
        return models(held(o, "_function_approximators", 1), p["fas"], n)

    def sfas_of(o):
        return models(held(o, "_func_apps_schedules", n + 1), sched["fas"], sched["n"]) if sched else []

    def first():
        out, r = attempt(dmp.integrate_start)
        return np.array(r[0]) if out == "ok" else np.zeros(4 * n + 2)

    def state(c):
        """The state to evaluate: a seen one, with changes of y and z."""
        if c is None or not seen:
            x = seen[-1].copy() if seen else first()
        else:
            x = seen[c["which"] % len(seen)].copy()
            x[: 2 * n] += np.array(c["add"])[: 2 * n]
            if c.get("goal") is not None and "richards" != type_of(p["type"])["name"]:
                x[2 * n: 3 * n] += np.array(c["goal"])
        return x

    rich = "richards" in (cfg["type"]["name"], *(o["kind"] for o in cfg["override"].values()))
    for c in p["ops"]:
        op = c[0]
        if op in ("ctrain", "request"):
            seen.clear() if rich else None
        if op == "ctrain":
            context = context or Contextual(t, p, dmp, kwargs, garbage, fas_of)
            dmp = context if dmp is context or isinstance(dmp, Dmp) else dmp
            tasks = [d["task"] for d in c[1]["demos"]] if c[1]["str"] and c[1]["form"] in ("from_trajs", "again") else None
            dmp.ctrain(c[1])
            continue
        if context is not None and op in ("start", "solution", "request"):
            dmp.task = c[-1]
            if op == "request":
                dmp.ask(lambda x: dmp.ctx.set_task_params(x))
                continue
        if rich and (op in ("tau", "y_init", "y_attr", "train", "set") or op == "start" and c[1] is not None):
            seen.clear()      # (a Richards system has no rates on the other side of its asymptotes)
        if op == "tau":
            out, _ = attempt(setattr, dmp, "tau", vlib.scalar(c[1]))
            t.add("tau", v=float(c[1]), out=out)
        elif op in ("y_init", "y_attr"):
            v = vlib.given(c[1])
            out, _ = attempt(setattr, dmp, op, v)
            t.add(op, v=Raw(c[1]), valid=len(c[1]) == n, out=out)
            garbage.append(v)
        elif op == "sub":
            system, what, v = c[1:]
            names = {"d": "damping_coefficient", "k": "spring_constant", "m": "mass", "alpha": "alpha"}
            out, _ = attempt(dmp.set_params_dyn_sys, {system: {names[what]: opt(v)}})
            t.add("sub", system=system, what=what, v=Raw(vec(np.full((n,), v))), out=out)
        elif op == "decouple":
            out, _ = attempt(dmp.decouple_parameters)
            t.add("decouple", out=out)
        elif op == "mutate":
            for a in garbage:
                vlib.spoil(a, 7.25)
            garbage.clear()
            t.add("mutate")
        elif op == "json":
            mode = c[1] if isinstance(c[1], str) else "loaded" if c[1] else "quiet"
            if context is not None:
                out, r = attempt(vlib.save_load, dmp.ctx, mode, lambda o: break_it(o.dmp, n))
                if out == "ok":
                    dmp.__dict__["ctx"] = r
            else:
                out, r = attempt(vlib.save_load, dmp, mode, lambda o: break_it(o, n))
                if out == "ok":
                    dmp = r
            t.add("json", out=out)
        elif op in ("export", "back"):      # on to C++, and back
            import drv_cpp
            out, r = attempt(drv_cpp.CppDmp, dmp, n, *c[1:]) if op == "export" else ("ok", getattr(dmp, "python", dmp))
            if out == "ok":
                dmp = r
            t.add(op, out=out)
        elif op == "copy":
            out, r = attempt(copy.deepcopy, dmp)
            if out == "ok":
                if c[1]:
                    dmp, r = r, dmp
                break_it(r, n)
            t.add("copy", out=out)
        elif op == "read":
            def f():
                return dict(tau=float(dmp.tau), y_init=Raw(vec(dmp.y_init)), y_attr=Raw(vec(dmp.y_attr)), dim_y=int(dmp.dim_dmp()),
                            dim_x=int(dmp.dim_x), fas=fas_of(dmp), sfas=sfas_of(dmp),
                            ts_train=Raw(vec(dmp.ts_train) if dmp.ts_train is not None else []))
            out, r = attempt(f)
            t.add("read", out=out, **(r if out == "ok" else {}))
        elif op == "start":
            y0 = vlib.given(c[1]) if c[1] is not None else None
            args = [] if y0 is None else [y0]
            s = {}
            if sched and c[2]:
                out, r = attempt(dmp.integrate_start_sched, *args)
                if out == "ok":
                    s = dict(sched=Raw(vec(r[2])))
            else:
                out, r = attempt(dmp.integrate_start, *args)
            t.add("start", y0=Raw(c[1] or []), out=out, x=Raw(vec(r[0]) if out == "ok" else []))
            if out == "ok":
                t.add("rate", x=Raw(vec(r[0])), xd=Raw(vec(r[1])), out=out, unmodified=flat(*r), **s)
                seen.append(np.array(r[0], dtype=float).ravel())
                garbage += list(r)
            garbage.append(y0)
        elif op == "rate":
            x = state(c[1])
            keep = x.copy()
            out, xd = attempt(dmp.differential_equation, x)
            un = bool(np.array_equal(x, keep, equal_nan=True)) and flat(xd)
            t.add("rate", x=Raw(vec(keep)), out=out, xd=Raw(vec(xd) if out == "ok" else []), unmodified=un)
            garbage += [x, xd]
        elif op == "step":
            method, dt, x = c[1], c[2], state(c[3])
            keep = x.copy()
            s = {}
            if method == "sched":
                out, r = attempt(dmp.integrate_step_sched, dt, x)
                if out == "ok":
                    s = dict(sched=Raw(vec(r[2])))
            else:
                f = {"euler": dmp.integrate_step_euler, "rk": dmp.integrate_step_runge_kutta, "default": dmp.integrate_step}[method]
                out, r = attempt(f, dt, x)
            un = bool(np.array_equal(x, keep, equal_nan=True))
            e = dict(method=method, dt=dt, x=Raw(vec(keep)), out=out, unmodified=un, **s)
            if out == "ok":
                e.update(x2=Raw(vec(r[0])), xd2=Raw(vec(r[1])))
                seen.append(np.array(r[0], dtype=float).ravel())
                garbage += list(r)
            t.add("step", **e)
            garbage.append(x)
        elif op == "integrate":
            ts = vlib.given(c[2])
            keep = ts.copy()
            kw = {} if c[1] == "default" else dict(integration_method={"euler": "Euler", "rk": "Runge-Kutta"}[c[1]])
            out, r = attempt(dmp.integrate, ts, **kw)
            un = bool(np.array_equal(ts, keep))
            t.add("integrate", method=c[1], ts=Raw(vec(keep)), out=out, unmodified=un, **(dict(xs=Raw(mat(r[0])), xds=Raw(mat(r[1]))) if out == "ok" else {}))
            if out == "ok":
                seen.extend(np.array(r[0]))
                garbage += list(r) + [ts]
        elif op == "solution":
            ts = vlib.given(c[1]) if c[1] is not None else None
            keep = None if ts is None else ts.copy()
            args = [] if ts is None else [ts]
            e = dict(given=ts is not None, suppress=c[2])
            if sched and c[3]:
                out, r = attempt(dmp.analytical_solution_sched, *args)
                e["suppress"] = False
                if out == "ok":
                    xs, xds, sc, forcing, fa = r
                    e["scheds"] = Raw(mat(sc))
            else:
                out, r = attempt(dmp.analytical_solution, *args, **(dict(suppress_forcing_term=True) if c[2] else {}))
                if out == "ok":
                    xs, xds, forcing, fa = r
            un = ts is None or bool(np.array_equal(ts, keep))
            e.update(out=out, unmodified=un, ts=Raw([]))
            if out == "ok":
                ts2 = keep if keep is not None else np.array(dmp.ts_train)
                e.update(ts=Raw(vec(ts2)), xs=Raw(mat(xs)), xds=Raw(mat(xds)), forcing=Raw(mat(forcing)), fa=Raw(mat(fa)))
                seen.extend(np.array(xs))
                t.add("solution", **e)
                # as a trajectory
                e = dict(xs=Raw(mat(xs)), xds=Raw(mat(xds)), ts=Raw(vec(ts2)))
                if "scheds" in locals_of(c, sched):
                    out, tr = attempt(dmp.states_as_trajectory_sched, ts2, xs, xds, sc)
                    if out == "ok":
                        e.update(misc=Raw(mat(tr.misc)), scheds=Raw(mat(sc)))
                else:
                    out, tr = attempt(dmp.states_as_trajectory, ts2, xs, xds)
                if out == "ok":
                    e.update(ys=Raw(mat(tr.ys)), yds=Raw(mat(tr.yds)), ydds=Raw(mat(tr.ydds)), tts=Raw(vec(tr.ts)))
                t.add("traj", out=out, **e)
                i = len(ts2) // 2
                out, r = attempt(dmp.states_as_pos_vel_acc, xs[i], xds[i])
                e = dict(xs=Raw(mat(xs[i])), xds=Raw(mat(xds[i])), ts=Raw([float(ts2[i])]))
                if out == "ok":
                    e.update(ys=Raw(mat(r[0])), yds=Raw(mat(r[1])), ydds=Raw(mat(r[2])))
                t.add("traj", out=out, **e)
                garbage += [xs, xds, forcing, fa]
            else:
                t.add("solution", **e)
            garbage.append(ts)
        elif op == "train":
            q = c[1]
            demoq = q
            ts = np.array(q["ts"])
            ys, yds, ydds = demo(q, ts)
            sc = np.array(q["scheds"])[: len(ts), : sched["n"]] if sched else None
            misc = sc if sched and not c[2] else None
            tr = Trajectory(ts.copy(), ys.copy(), yds.copy(), ydds.copy(), misc.copy() if misc is not None else None)
            LOG.clear()
            kw = {}
            if c[3] and not sched and p["fas"] is not None:
                kw["function_approximators"] = make_fas({k: v for k, v in p["fas"].items() if k != "f"}, n, 1)
                names = sel_names if (sel_names := p.get("_sel")) else None
                if names is not None:
                    for fa in kw["function_approximators"]:
                        fa.set_selected_param_names(names)
            if p.get("from_traj") and c is p["ops"][0] and p["fas"] is not None and not c[3]:
                given = sc.copy() if sched and c[2] else None
                kw2, (fas, sfas) = (lambda q: (q["_kw"], q["_fas"]))(make(p, garbage)[1])
                scale = float(ts[-1]) / p["tau"]
                for x in kw2.values():      # systems that are given are for the duration of the trajectory
                    if hasattr(x, "integrate_start"):
                        x.tau *= scale
                        if hasattr(x, "max_rate"):
                            x.max_rate = x.max_rate / scale
                LOG.clear()
                out, err = attempt(DmpWithSchedules.from_traj_sched, tr, fas, sfas, **kw2, **({} if given is None else dict(schedules=given))) if sched else \
                    attempt(Dmp.from_traj, tr, fas, **kw2)
                dmp, given = err if out == "ok" else dmp, garbage.append(given)
            elif sched:
                given = sc.copy() if c[2] else None
                out, err = attempt(dmp.train_sched, tr, *([given] if c[2] else []))
                garbage.append(given)
            else:
                out, err = attempt(dmp.train, tr, **kw)
            un = bool(np.array_equal(tr.ts, ts) and np.array_equal(tr.ys, ys) and np.array_equal(tr.yds, yds) and np.array_equal(tr.ydds, ydds))
            e = dict(out=out, err=str(err), unmodified=un, nofas=p["fas"] is None and not sched)
            if out == "ok":
                e.update(ts=Raw(vec(ts)), ys=Raw(mat(ys)), yds=Raw(mat(yds)), ydds=Raw(mat(ydds)), log=Raw(list(LOG)), fas=fas_of(dmp), sfas=sfas_of(dmp),
                         scheds=Raw(mat(sc) if sched else []))
            LOG.clear()
            t.add("train", **e)
            garbage += [tr.ts, tr.ys, tr.yds, tr.ydds, tr.misc]
        elif op == "select":
            fa, goal, sn, how = c[1:]
            names = list(fa) + (["goal"] if goal else []) + ["sched_" + x for x in sn]
            if how == "str" and len(names) == 1:
                names = names[0]
            elif how == "goalfirst":
                names = names[::-1]
                fa, sn = fa[::-1], sn[::-1]
            p["_sel"] = list(fa)
            out, _ = attempt(dmp.set_selected_param_names, names)
            t.add("select", fa=Raw(list(fa)), goal=goal, sched=Raw(list(sn)), out=out)
        elif op == "get":
            out, v = attempt(dmp.get_param_vector)
            so, k = attempt(dmp.get_param_vector_size)
            t.add("get", out=out if so == "ok" else so, v=Raw(vec(v) if out == "ok" else []), size=int(k) if so == "ok" else -1, flat=out == "ok" and np.ndim(v) == 1)
            garbage.append(v)
        elif op == "set":
            so, k = attempt(dmp.get_param_vector_size)
            k = (int(k) if so == "ok" else 0) + c[2]
            k = 1 if k < 0 else k
            src = c[1]
            v = np.array([src[i % len(src)] + 0.01 * (i // len(src)) for i in range(k)])
            if c[2] == 0:
                o, cur = attempt(dmp.get_param_vector)
                if o == "ok" and np.size(cur) == k:
                    v = np.ravel(cur) * (1 + 3e-9 * v) if c[3] == "close" else np.ravel(cur) * (1 + 0.05 * v) + (v * 1e-3 if c[3] else 0)
            keep = vec(v)
            v = vlib.given(v)
            out, _ = attempt(dmp.set_param_vector, v)
            t.add("set", v=Raw(keep), out=out, unmodified=vec(v) == keep)
            garbage.append(v)
        elif op == "cplot":      # a contextual DMP, for demonstrations; then the solutions for these
            pairs, keep = [], []
            for d in c[1]:
                ts = np.array(d["demo"]["ts"])
                tr = Trajectory(ts, *demo(d["demo"], ts))
                pairs.append((d["task"][0] if len(d["task"]) == 1 and c[2] else np.array(d["task"]), tr))
                keep.append(vec(tr.ys))
            own = vlib.axes(8) if c[3] else None
            out, r = attempt(dmp.ctx.plot, pairs, **({"axs": own} if own else {}))
            demos = [dict(ts=vec(tr.ts), ys=mat(tr.ys), yds=mat(tr.yds), ydds=mat(tr.ydds)) for _, tr in pairs]
            handles = vlib.lines_of(r[0]) if out == "ok" else []
            axs = [vlib.lines_of(list(a.lines)) for a in r[1][1:4]] if out == "ok" else []
            per = len(handles) // len(pairs)
            t.add("cplot", out=out, err=str(r) if out != "ok" else "", demos=Raw(demos), axs=Raw(axs), each=per * len(pairs) == len(handles),
                  ts=Raw(handles[0]["x"] if handles else []), unmodified=[vec(tr.ys) for _, tr in pairs] == keep)
            vlib.close()
            p["ops"] += [["solution", handles[0]["x"], False, False, None], ["read"]] if handles else []
            for i, (d, (_, tr)) in enumerate(zip(c[1], pairs) if handles else []):
                p["ops"] += [["tau", float(tr.ts[-1] - tr.ts[0])], ["y_init", vec(tr.ys[0])], ["y_attr", vec(tr.ys[-1])], ["request", dict(v=d["task"], form="vec")],
                             ["plot", "also", handles[0]["x"], 0, handles[i * per: (i + 1) * per]]]
        elif op == "pplot":      # what predicts its parameters
            own = vlib.axes(len(dmp.ctx.ppf), p["dim"] + 1) if c[1] else None
            out, r = attempt(dmp.ctx.plot_policy_parameter_function, **({"axs": own} if own else {}))
            t.add("pplot", out=out, err=str(r) if out != "ok" else "", saved=tasks is not None, tasks=Raw(tasks or []),
                  axs=Raw([[[list(v) for v in zip(*q.values())] for q in vlib.lines_of(list(a.lines))] for a in r[1]] if out == "ok" else []))
            vlib.close()
        elif op == "plot":
            what, times, k, drawn = [*c[1:], None][:4]
            tr = None
            if what == "comparison":
                if demoq is None:
                    continue
                tr = Trajectory(np.array(demoq["ts"]), *demo(demoq, np.array(demoq["ts"])))
            ts = np.array(times) if times is not None else tr.ts if tr is not None else None

            def record(suppress):
                args = ([] if ts is None else [ts.copy()])
                out, r = attempt(dmp.analytical_solution, *args, **(dict(suppress_forcing_term=True) if suppress else {}))
                if out != "ok":
                    return None
                ts2 = ts if ts is not None else np.array(dmp.ts_train)
                xs, xds, forcing, fa = r
                t.add("solution", given=ts is not None, suppress=suppress, out=out, unmodified=True, ts=Raw(vec(ts2)), xs=Raw(mat(xs)), xds=Raw(mat(xds)),
                      forcing=Raw(mat(forcing)), fa=Raw(mat(fa)))
                return ts2, xs, xds, forcing, fa
            s = record(False)
            if s is None:
                continue
            no = record(True) if what == "also" else None
            sc = None
            if what == "sched":
                out, sc = attempt(lambda: dmp.analytical_solution_sched(s[0].copy())[2])

            def f():
                if drawn:
                    return drawn, None
                if what == "times":
                    return dmp.plot(ts)
                if what == "also":
                    return dmp.plot(ts, plot_no_forcing_term_also=True, plot_tau=False)
                if what == "states":
                    return dmp.plot(s[0], s[1], s[2])
                if what == "all":
                    return dmp.plot(s[0], s[1], s[2], forcing_terms=s[3], fa_outputs=s[4])
                if what == "compact":
                    return dmp.plot(ts, plot_compact=True)
                if what == "sched":
                    return dmp.plot_sched(s[0], s[1], s[2], sc, forcing_terms=s[3], fa_outputs=s[4])
                return dmp.plot_comparison(tr, **(dict(ts=ts) if times is not None else {}), **(dict(axs=vlib.axes(k)) if k else {}))
            given = [ts, *s, sc, *([tr.ts, tr.ys, tr.yds, tr.ydds] if tr is not None else [])]
            keep = vlib.kept(*given)
            sol = Raw(mat(s[1])), Raw(mat(s[2])), Raw(mat(s[3])), Raw(mat(s[4]))
            out, r = attempt(f)
            e = dict(what=what, out=out, unmodified=vlib.kept(*given) == keep, err=str(r) if out != "ok" else "", ts=Raw(vec(s[0])), xs=sol[0], xds=sol[1], forcing=sol[2], fa=sol[3],
                     axes=k, lines=Raw(drawn or (vlib.lines_of(r[0]) if out == "ok" else [])), no=Raw([]), sched=Raw([]))
            if no:
                e.update(no=Raw(dict(xs=mat(no[1]), xds=mat(no[2]))))
            if sc is not None:
                e.update(sched=Raw(mat(sc)))
            if tr is not None:
                e.update(demo=Raw(dict(ts=vec(tr.ts), ys=mat(tr.ys), yds=mat(tr.yds), ydds=mat(tr.ydds))))
            t.add("plot", **e)
            vlib.close()
            garbage += [ts, *s[1:]]
        elif op == "solver":
            out, solver = attempt(TaskSolverDmp, dmp, c[1], c[2], *([True] if c[3] else [False] if c[4] else []))
            t.add("solver", out=out, dt=c[1], factor=c[2], table=c[3])
            if out != "ok":
                break
            rolls = {}
            so, size = attempt(dmp.get_param_vector_size)
            size = int(size) if so == "ok" else 0
            o, base = attempt(dmp.get_param_vector)
            base = np.array(base, dtype=float).ravel() if o == "ok" and np.size(base) == size else np.ones((size,))
        elif op in ("rollout", "rollout of"):
            e = dict(unmodified=True)
            if op == "rollout":
                src, k = c[1], max(1, size + c[2])
                if (c[3], k) not in rolls:
                    v = np.array([src[i % len(src)] + 0.01 * (i // len(src)) for i in range(k)])
                    rolls[c[3], k] = base * (1 + 0.05 * v) if size == k else v
                v = np.array(rolls[c[3], k])
                keep = vec(v)
                out, r = attempt(solver.perform_rollout, v)
                e = dict(v=Raw(keep), unmodified=vec(v) == keep)
                garbage.append(v)
            else:
                out, r = attempt(solver.perform_rollout_dmp, dmp)
            if out == "ok":
                table = not isinstance(r, np.ndarray)
                e.update(rows=Raw(mat(r)), table=table, columns=Raw(list(r.columns) if table else []))
                garbage.append(r if not table else None)
            t.add(op, out=out, **e)
        elif op == "agree":
            def f():
                steps, dur = c[1], c[2] * dmp.tau
                ts = np.linspace(0, dur, steps + 1)
                xi, xdi = dmp.integrate(ts)
                xa = dmp.analytical_solution(ts)[0]
                rows = np.linspace(0, steps, 11).astype(int)
                v0 = np.concatenate((xi[0, n:2 * n], xa[0, n:2 * n]))
                return ts[rows], xi[rows, :n], xa[rows, :n], v0, dur / steps
            out, r = attempt(f)
            e = dict(zip(("ts", "xi", "xa", "v0"), (Raw(vec(r[0])), Raw(mat(r[1])), Raw(mat(r[2])), Raw(vec(r[3]))))) if out == "ok" else {}
            t.add("agree", out=out, **e, dt=r[4] if out == "ok" else 0.0)
        elif op == "converged":
            def f():
                steps, dur = c[1], c[2] * dmp.tau
                if c[3] == "solution":
                    xs, xds = dmp.analytical_solution(np.linspace(0, dur, 10 * steps))[:2]
                    x = xs[-1]
                else:
                    x = dmp.integrate_start()[0]
                    for _ in range(steps):
                        x, _ = dmp.integrate_step(dur / steps, x)
                fa = np.abs(dmp.analytical_solution(np.linspace(0, 1.5 * dmp.tau, 40))[2])
                k = np.array(fa.max(axis=0))
                return x, k
            out, r = attempt(f)
            t.add("converged", out=out, **(dict(x=Raw(vec(r[0])), size=Raw(vec(r[1]))) if out == "ok" else {}))
        elif op == "tauscale":
            def f():
                steps, dt = c[2], c[3] * dmp.tau
                other = copy.deepcopy(dmp)
                other.tau = c[1] * dmp.tau
                a, b = [dmp.integrate_start()[0]], [other.integrate_start()[0]]
                for _ in range(steps):
                    a.append(dmp.integrate_step(dt, a[-1])[0])
                    b.append(other.integrate_step(dt * c[1], b[-1])[0])
                ts = np.arange(steps) * dt
                a += list(dmp.analytical_solution(ts)[0][-2:])
                b += list(other.analytical_solution(ts * c[1])[0][-2:])
                size = float(np.abs(dmp.analytical_solution(np.linspace(0, 1.5 * dmp.tau, 40))[2]).max())
                return a, b, size
            out, r = attempt(f)
            t.add("tauscale", out=out, **(dict(a=Raw(mat(r[0])), b=Raw(mat(r[1])), size=r[2]) if out == "ok" else {}))
        elif op == "reproduce":
            def f():
                q = demoq
                ts = np.linspace(0, q["T"], c[1] + 1)
                xs = dmp.integrate(ts)[0]
                rows = np.linspace(0, c[1], 12).astype(int)
                return xs[rows, :n], demo(q, ts[rows])[0]
            out, r = attempt(f)
            t.add("reproduce", out=out, slack=c[2], **(dict(ys=Raw(mat(r[0])), demo=Raw(mat(r[1]))) if out == "ok" else {}))
        elif op == "phases":
            def f():
                how, dt, steps = c[1], c[2] * dmp.tau, c[3]
                ts = np.arange(steps) * dt
                if how == "solution":
                    xs = dmp.analytical_solution(ts)[0]
                elif how == "rk":
                    xs = dmp.integrate(ts)[0]
                else:
                    x = dmp.integrate_start()[0]
                    xs = [x]
                    for _ in range(1, steps):
                        x = dmp.integrate_step_euler(dt, x)[0]
                        xs.append(x)
                    xs = np.array(xs)
                return xs[:, [3 * n, 3 * n + 1]], ts, dt
            out, r = attempt(f)
            t.add("phases", out=out, **(dict(rows=Raw(mat(r[0])), ts=Raw(vec(r[1])), dt=float(r[2])) if out == "ok" else {}))
        else:
            raise ValueError(op)
    return t.as_dict()


def locals_of(c, sched):
    return {"scheds"} if sched and c[3] else set()


def break_it(o, n):
    """Change everything about an object that must not matter any more."""
    def f():
        o.tau = 0.37
        o.y_init = np.full((n,), -9.0)
        o.y_attr = np.full((n,), 11.0)
        for fa in held(o, "_function_approximators", 1) or []:
            if fa.is_trained():
                fa.set_selected_param_names({"wls": "slope", "rbfn": "weights", "lwr": "slopes", "gpr": "gram_inv_targets"}[fa.program["kind"]])
                fa.set_param_vector(np.full((fa.get_param_vector_size(),), 5.0))
        x = o.integrate_start()[0]
        o.integrate_step(0.01, x)
    attempt(f)


if __name__ == "__main__":
    progs = json.loads(Path(sys.argv[1]).read_text())
    with contextlib.redirect_stdout(io.StringIO()):
        out = vlib.run_all(run, progs)
    Path(sys.argv[2]).write_text(json.dumps(out))
