"""The C++ implementation behind the interface of the Python one, for the drivers; runs their programs. IN: list of programs; OUT: list of
traces, and the calls of control loops with what they allocated."""
import contextlib
import io
import json
import os
import resource
import select
import subprocess
import sys
from pathlib import Path

import vlib
from vlib import np

EXE = os.environ.get("VERIF_CPP")
CALLS = []


class Gone(Exception):
    """The process that holds the object ended."""


class Refused(Exception):
    """The C++ code threw an exception."""


def limit():
    resource.setrlimit(resource.RLIMIT_AS, (2 << 30, 2 << 30))


class Server:
    waits = [60, 60, 20]

    def __init__(self):
        self.p = subprocess.Popen([EXE], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, preexec_fn=limit)
        self.buffer = b""

    def ask(self, c):
        try:
            self.p.stdin.write(json.dumps(c).encode() + b"\n")
            self.p.stdin.flush()
        except OSError:
            return None
        while b"\n" not in self.buffer:
            if not select.select([self.p.stdout], [], [], self.waits[0])[0]:
                self.p.kill()
                self.waits[:] = self.waits[1:] or [3]
                return None
            b = os.read(self.p.stdout.fileno(), 1 << 20)
            if not b:
                return None
            self.buffer += b
        line, self.buffer = self.buffer.split(b"\n", 1)
        return json.loads(line)

    def end(self):
        self.p.stdin.close()
        self.p.wait()


SERVER = None
COUNT = 0


def tell(server, **c):
    """One command; None in the answer stands for something that is not a number."""
    global SERVER
    if server is not SERVER:
        raise Gone()
    r = server.ask(c)
    if r is None:
        server.end()
        SERVER = None
        raise Gone()
    if not r["ok"]:
        raise Refused(r["what"])
    return r


def arr(j):
    return np.array(j, dtype=float)


def lst(x):
    return np.asarray(x, dtype=float).ravel().tolist()


class Cpp:
    def __init__(self, python, what, form):
        """Through a file, as the documentation says."""
        global SERVER, COUNT
        from dmpbbo.json_for_cpp import savejson_for_cpp

        SERVER = SERVER or Server()
        COUNT += 1
        d = self.__dict__
        name = f"exported-{os.getpid()}.json"
        savejson_for_cpp(name, python)
        d.update(python=python, what=what, server=SERVER, id=COUNT, number=0)
        r = tell(SERVER, op="load", id=self.id, file=str(Path(name).resolve()), what=what, form=form)
        os.unlink(name)
        d.update(dim_x=r.get("dim_x"), dim_y=r.get("dim_y"))

    def tell(self, op, **c):
        try:
            return tell(self.server, op=op, id=self.id, **c)
        except (Gone, Refused):
            if op in ("rate", "step", "loop", "predict"):
                CALLS.append(dict(op=f"{op} of {self.kind()}", returned=False, allocs=0))
            raise

    def turn(self, *ways):
        """One of the ways of asking for the same."""
        self.__dict__["number"] += 1
        return ways[self.number % len(ways)]

    def count(self, op, r):
        CALLS.append(dict(op=f"{op} of {self.kind()}", returned=True, allocs=r["allocs"]))

    def kind(self):
        return type(self.python).__name__


class CppSystem(Cpp):
    def __init__(self, python, form="read", what="system"):
        super().__init__(python, what, form)
        if what == "system":
            self.__dict__["cols"] = self.dim_x

    # the state, as the Python code has it
    def to(self, x):
        return lst(x)

    def of(self, j, rate=False):
        return arr(j)

    def __setattr__(self, name, v):
        whats = {"tau": "tau", "x_init": "x_init", "y_init": "y_init", "x_attr": "x_attr", "y_attr": "y_attr", "max_rate": "rmax",
                 "damping_coefficient": "d", "spring_constant": "k", "mass": "m"}
        what = whats[name]
        if what == "y_init":
            what = self.turn("y_init", "y_init_ref")
        self.tell("set", what=what, v=lst(v) if "init" in what or "attr" in what else float(v))

    def read(self):
        return self.tell("read")

    tau = property(lambda self: self.read()["tau"])
    x_init = property(lambda self: arr(self.read()["x_init"]))
    y_init = property(lambda self: arr(self.read()["y_init"]))

    @property
    def y_attr(self):
        if self.kind() == "TimeSystem":
            raise AttributeError("y_attr")
        return arr(self.read()["attr"])

    def integrate_start(self, y0=None):
        r = self.tell("start", **({} if y0 is None else dict(y0=lst(y0))))
        return self.of(r["x"]), self.of(r["xd"], True)

    def differential_equation(self, x):
        r = self.tell("rate", x=self.to(x))
        self.count("rate", r)
        if not r["unmodified"]:
            x += 1.0
        return self.of(r["xd"], True)

    def after(self, x, x2):
        return x2

    def stepping(self, method, dt, x):
        inplace = self.turn(False, True, False)
        r = self.tell("step", method=method, dt=float(dt), x=self.to(x), inplace=inplace)
        self.count("step " + method, r)
        if not r["unmodified"]:
            x += 1.0
        return self.after(x, self.of(r["x2"])), self.of(r["xd2"], True)

    def integrate_step_euler(self, dt, x):
        return self.stepping("euler", dt, x)

    def integrate_step_runge_kutta(self, dt, x):
        return self.stepping("rk", dt, x)

    def integrate_step(self, dt, x):
        return self.stepping("default", dt, x)

    def integrate(self, ts, integration_method="default"):
        method = {"Euler": "euler", "Runge-Kutta": "rk", "default": "default"}[integration_method]
        dts = np.diff(ts)
        if len(dts) > 1 and np.all(dts == dts[0]):      # a control loop
            r = self.tell("loop", method=method, dt=float(dts[0]), steps=len(ts))
            self.count("loop " + method, r)
            return np.array([self.of(x) for x in r["xs"]]), np.array([self.of(x, True) for x in r["xds"]])
        rows = [self.integrate_start()]
        for dt in dts:
            rows.append(self.stepping(method, dt, rows[-1][0]))
        return np.array([x for x, _ in rows]), np.array([xd for _, xd in rows])

    def analytical_solution(self, ts):
        r = self.tell("solution", ts=lst(ts), form=self.turn("fresh", "again", "sized", "transposed", "short"))
        if not r["unmodified"]:
            ts += 1.0
        return arr(r["xs"]), arr(r["xds"])


class CppDmp(CppSystem):
    """In Python the state of a DMP ends with the damping coefficients, which C++ does not have."""

    def __init__(self, python, n, form):
        d = self.__dict__
        d.update(n=n, damp=np.array(python.integrate_start()[0])[3 * n + 2:])
        super().__init__(python, form, what="dmp")
        d.update(_function_approximators=python._function_approximators, ts_train=python.ts_train, goal=np.array(python.y_attr))  # noqa

    def to(self, x):
        return lst(x)[: 3 * self.n + 2]

    def of(self, j, rate=False):
        return np.concatenate((arr(j), 0 * self.damp if rate else self.damp))

    def after(self, x, x2):
        return np.concatenate((x2[: 3 * self.n + 2], x[3 * self.n + 2:]))

    dim_x = property(lambda self: self.read()["dim_x"] + self.n, lambda self, v: None)
    y_attr = property(lambda self: self.goal)

    def __setattr__(self, name, v):
        super().__setattr__(name, v)
        if name == "y_attr":
            self.__dict__["goal"] = np.array(v)

    def dim_dmp(self):
        return self.read()["dim_dmp"]

    def set_params_dyn_sys(self, q):
        (system, q), = q.items()
        (what, v), = q.items()
        assert system == "spring_system" and np.ndim(v) == 0
        super().__setattr__(what, v)
        if what == "damping_coefficient":
            self.__dict__["damp"] = np.full((self.n,), float(v))

    def analytical_solution(self, ts=None):
        ts = self.ts_train if ts is None else ts
        r = self.tell("solution", ts=lst(ts), form=self.turn("fresh", "again", "sized", "transposed", "short"))
        if not r["unmodified"]:
            ts += 1.0
        return np.array([self.of(x) for x in r["xs"]]), np.array([self.of(x, True) for x in r["xds"]]), arr(r["forcing"]), arr(r["fas"])

    def states_as_trajectory(self, ts, xs, xds):
        from dmpbbo.dmps.Trajectory import Trajectory

        r = self.tell("traj", ts=lst(ts), xs=[self.to(x) for x in xs], xds=[self.to(x) for x in xds])
        return Trajectory(arr(r["ts"]), arr(r["ys"]), arr(r["yds"]), arr(r["ydds"]))

    def states_as_pos_vel_acc(self, x, xd):
        r = self.tell("traj", xs=self.to(x), xds=self.to(xd))
        self.count("position, velocity and acceleration", r)
        return arr(r["ys"]), arr(r["yds"]), arr(r["ydds"])


class CppFA(Cpp):
    def predict(self, x):
        x = np.asarray(x, dtype=float)
        r = self.tell("predict", xs=x.reshape(len(x), -1).tolist(), again=self.turn(False, True))
        self.count("predict", r)
        self.__dict__["rt"] = arr(r["rt"])
        if not r["unmodified"]:
            x += 1.0
        return arr(r["ys"])

    def is_trained(self):
        return False


def main():
    import drv_dmp
    import drv_dynsys
    import drv_fa
    import drv_traj

    drivers = dict(system=drv_dynsys, dmp=drv_dmp, fa=drv_fa, traj=drv_traj)
    progs = json.loads(Path(sys.argv[1]).read_text())
    res = []
    for p in progs:
        CALLS.clear()
        with contextlib.redirect_stdout(io.StringIO()):
            try:
                t = drivers[p["what"]].run(p)
            except Exception as e:      # in a call that cannot fail, or a result that is none
                res.append(dict(what=p["what"], name=p["name"], broken=f"{type(e).__name__} {e}", calls=list(CALLS)))
                continue
        res.append(dict(what=p["what"], trace=t, calls=list(CALLS)))
    if SERVER:
        SERVER.end()
    Path(sys.argv[2]).write_text(json.dumps(res))


if __name__ == "__main__":
    sys.modules["drv_cpp"] = sys.modules["__main__"]
    main()
