"""Recording of traces from the real code, shared by all drivers."""
import json
import math
import os
import sys
import traceback
import zlib

os.environ.setdefault("MPLBACKEND", "Agg")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
sys.dont_write_bytecode = True
REPO = os.environ.get("VERIF_REPO", "/repo")
if REPO not in sys.path:
    sys.path.insert(0, REPO)

import numpy as np  # noqa: E402


def enc(x):
    """Encode a value for a trace. Arrays become {"sh": shape, "v": nested lists of reals}."""
    if x is None:
        return "None"
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, (int, np.integer)):
        return int(x) if abs(int(x)) < 10**9 else float(x)
    if isinstance(x, (float, np.floating)):
        return num(x)
    if isinstance(x, str):
        return x
    if isinstance(x, np.ndarray):
        return arr(x)
    if isinstance(x, dict):
        return {str(k): enc(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [enc(v) for v in x]
    return f"<{type(x).__name__}>"


def num(x):
    """A real number, whatever type the implementation returned for it."""
    try:
        x = float(np.asarray(x).reshape(()))
    except Exception:
        return f"<{type(x).__name__}>"
    return x if math.isfinite(x) else "NaN"


def nest(a):
    if isinstance(a, list):
        return [nest(v) for v in a]
    return num(a)


def arr(a):
    """An array with its shape; anything that is not numeric is kept as a marker."""
    try:
        a = np.asarray(a)
        if a.dtype == object:
            return {"sh": [-1], "v": [], "what": "object array"}
        return {"sh": list(a.shape), "v": nest(a.astype(float).tolist())}
    except Exception as e:
        return {"sh": [-1], "v": [], "what": f"{type(a).__name__} {type(e).__name__}"}


def vec(a):
    """A flat vector of reals."""
    try:
        return nest(np.asarray(a, dtype=float).ravel().tolist())
    except Exception:
        return ["bad"]


def scalar(x):
    """A number to pass to the code under test: an integer, if it is a whole number."""
    return int(x) if isinstance(x, float) and x.is_integer() else x


def given(x):
    """An array to pass to the code under test: the same numbers come as integers (if they are), as a part of a
    larger array, in another order in memory, or read-only, depending on the numbers. What is no list remains as it is."""
    if x is None or np.ndim(x) == 0:
        return x
    a = np.array(x)
    if a.dtype.kind != "f" or not a.size:
        return a
    k = zlib.crc32(a.tobytes())
    if np.all(a == np.round(a)) and np.all(np.abs(a) < 1e6) and k % 3:
        a = a.astype(int)
    how = (k >> 4) % 8
    if how == 0:
        a.flags.writeable = False
    elif how == 1:
        b = np.full((2 * a.shape[0] + 1,) + a.shape[1:], 77).astype(a.dtype)
        b[1::2] = a
        a = b[1::2]
    elif how == 2:
        a = np.array(a, order="F") if a.ndim > 1 else a[::-1].copy()[::-1]
    return a


def spoil(a, by):
    """Change an array that was passed or returned."""
    if isinstance(a, np.ndarray) and a.ndim and a.flags.writeable:
        np.add(a, by, out=a, casting="unsafe")


def mat(a):
    """A matrix as a list of rows (a vector is one row)."""
    try:
        a = np.asarray(a, dtype=float)
        a = a.reshape(1, -1) if a.ndim < 2 else a
        return nest(a.tolist())
    except Exception:
        return [["bad"]]


class Trace:
    last = None

    def __init__(self, name, **cfg):
        Trace.last = self
        self.name, self.cfg, self.ev = name, {k: enc(v) for k, v in cfg.items()}, []

    def add(self, op, **fields):
        e = {"op": op}
        e.update({k: (v if isinstance(v, Raw) else enc(v)) for k, v in fields.items()})
        e = {k: (v.v if isinstance(v, Raw) else v) for k, v in e.items()}
        self.ev.append(e)
        return e

    def as_dict(self):
        return {"name": self.name, "cfg": self.cfg, "ev": self.ev}


class Raw:
    """A value that is encoded already."""

    def __init__(self, v):
        self.v = v


def attempt(fn, *args, **kwargs):
    """Call the real code: ("ok", value), or ("raised", name of the exception)."""
    try:
        return "ok", fn(*args, **kwargs)
    except Exception as e:  # noqa: every exception of the code under test is an observation
        return "raised", type(e).__name__


def run_all(run, progs):
    """Run programs; one that breaks off gives what was recorded until then, and why it broke off."""
    out = []
    for p in progs:
        Trace.last = None
        try:
            out.append(run(p))
        except Exception:  # noqa: what was recorded is judged nevertheless
            t = Trace.last.as_dict() if Trace.last else dict(name="none", cfg={}, ev=[])
            out.append(dict(t, cut=traceback.format_exc()[-1500:]))
    return out


def write_traces(path, traces):
    with open(path, "w") as f:
        json.dump([t.as_dict() for t in traces], f)


class Separated(Exception):
    """What was one object, used twice, is two objects after loading."""


def save_load(o, mode, disturb):
    """An object through JSON and back: the one to continue with. disturb changes an object in every way."""
    from dmpbbo.json_for_cpp import loadjson, savejson, savejson_for_cpp

    name = f"saved-{os.getpid()}.json"
    if mode == "for_cpp":
        savejson_for_cpp(name, o)
        with open(name) as f:
            json.load(f)
        return o
    if mode in ("list", "dict"):      # together with other objects
        savejson(name, [o, 1.5, o] if mode == "list" else {"a": [1], "b": o})
        new = loadjson(name)
        if mode == "list" and new[0] is not new[2]:
            raise Separated("one object has become two")
        new = new[0] if mode == "list" else new["b"]
    else:
        savejson(name, o)
        new = loadjson(name)
        if mode == "twice":
            savejson(name, new)
            new = loadjson(name)
    if mode == "original":
        disturb(new)
        new = o
    elif mode == "both":
        other = loadjson(name)
        disturb(new)
        disturb(o)
        new = other
    elif mode != "quiet":
        disturb(o)
    os.unlink(name)
    return new


# ---------------------------------------------------------------- plots
def axes(k, dim=2):
    """k new axes in a figure."""
    from matplotlib import pyplot as plt

    kw = {"projection": "3d"} if dim == 3 else {}
    fig = plt.figure()
    return [fig.add_subplot(1, k, i + 1, **kw) for i in range(k)]


def kept(*arrays):
    """The values of arrays (or None), to see whether they are the same afterwards."""
    return [None if a is None else vec(a) for a in arrays]


def close():
    from matplotlib import pyplot as plt

    plt.close("all")


def lines_of(handles):
    """What is drawn: coordinates of each line, in the order of the handles."""
    if isinstance(handles, (list, tuple)):
        return [x for h in handles for x in lines_of(h)]
    if hasattr(handles, "get_data_3d"):
        return [dict(zip("xyz", map(vec, handles.get_data_3d())))]
    if hasattr(handles, "get_xdata"):
        return [dict(x=vec(handles.get_xdata()), y=vec(handles.get_ydata()))]
    return []
