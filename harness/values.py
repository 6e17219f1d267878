"""A fixed pool of values, each with an id, and recognition of which value something is."""
import copy

from vlib import np

import pandas as pd

from dmpbbo.bbo.CostFunction import CostFunction
from dmpbbo.bbo.DistributionGaussian import DistributionGaussian
from dmpbbo.bbo.DistributionGaussianBounded import DistributionGaussianBounded
from dmpbbo.bbo.updaters import UpdaterCovarAdaptation, UpdaterCovarDecay, UpdaterMean
from dmpbbo.bbo_of_dmps.Task import Task


class PoolTask(Task):
    def __init__(self, goal):
        self.goal = goal

    def evaluate_rollout(self, cost_vars, sample):
        return [float(np.sum((np.asarray(sample) - self.goal) ** 2))]


class PoolCost(CostFunction):
    def __init__(self, goal):
        self.goal = goal

    def evaluate(self, sample):
        return [float(np.sum((np.asarray(sample) - self.goal) ** 2))]


def _dmp(n, seed):
    from dmpbbo.dmps.Dmp import Dmp
    from dmpbbo.functionapproximators.FunctionApproximatorRBFN import FunctionApproximatorRBFN

    r = np.random.RandomState(seed)
    fas = [FunctionApproximatorRBFN(3, 0.7) for _ in range(n)]
    for fa in fas:
        fa.train(np.linspace(0, 1, 7), r.randn(7))
    d = Dmp(0.5 + r.rand(), r.randn(n), r.randn(n), fas)
    d.set_selected_param_names("weights")
    return d


def make(i):
    """The value with id i (a new object every time)."""
    kind, k = i.split("_", 1)
    r = np.random.RandomState(sum(ord(c) for c in i) * 7919 % 100003)
    if kind == "arr":  # arr_<rows>x<cols>_<n> or arr_<n>_<n>
        shape = tuple(int(x) for x in k.split("_")[0].split("x"))
        a = r.randn(*shape)
        f = a.ravel()
        extreme = [1 / 3, 1e22, -1e-300, 0.1, -0.0, 123456789.123456789, 2.0**53 + 2]
        for j in range(0, f.size, 3):
            f[j] = extreme[r.randint(len(extreme))]
        f[-1] = r.randn()
        return a
    if kind == "near":  # another value that is almost the same
        a = make(k)
        if isinstance(a, np.ndarray):
            j = a.size // 2
            a.flat[j] = np.nextafter(a.flat[j], 2)
        elif isinstance(a, pd.DataFrame):
            a.iloc[len(a) // 2, 0] = np.nextafter(a.iloc[len(a) // 2, 0], 2)
        else:
            a.mean[-1] += 1e-10
        return a
    if kind == "ints":
        return r.randint(0, 100, size=int(k.split("_")[0]))
    if kind == "list":
        return [float(x) for x in r.randn(int(k.split("_")[0]))]
    if kind == "lol":
        return [[float(x) for x in r.randn(3)] for _ in range(int(k.split("_")[0]))]
    if kind == "int":
        return int(k)
    if kind == "tab":
        return pd.DataFrame({"x": r.randn(int(k)), "y_1": r.randn(int(k)), "n": r.randint(0, 9, int(k))})
    if kind == "obj":
        n = int(k[-1])
        return {
            "gauss": lambda: DistributionGaussian(r.randn(n), np.diag(r.rand(n) + 0.1)),
            "bound": lambda: DistributionGaussianBounded(r.randn(n), np.eye(n), -1.0, r.rand(n) + 1),
            "umean": lambda: UpdaterMean(eliteness=n, weighting_method="CEM"),
            "udecay": lambda: UpdaterCovarDecay(eliteness=n, covar_decay_factor=r.rand()),
            "uadapt": lambda: UpdaterCovarAdaptation(eliteness=n, diagonal_min=r.rand(n), learning_rate=r.rand()),
            "task": lambda: PoolTask(r.randn(n)),
            "str": lambda: "text %d\nof two lines" % n,
            "float": lambda: float(r.randn()),
            "dict": lambda: {"a": [1, 2.5, "x"], "b": r.randn(n)},
            "cost": lambda: PoolCost(r.randn(n)),
            "npfloat": lambda: np.float64(r.randn()),
        }[k[:-1]]()
    if kind == "dmp":
        return _dmp(int(k.split("_")[0]), int(k.split("_")[1]))
    raise ValueError(i)


def kind_of(i):
    k = i.split("_")[0]
    if k == "near":
        return kind_of(i[5:])
    return "array" if k in ("arr", "ints", "list", "lol", "int") else "table" if k == "tab" else "object"


def same(a, b, depth=0):
    """Same value: for numbers and arrays shape and content, for objects class and attributes."""
    if depth > 12:
        return True
    if isinstance(a, pd.DataFrame) or isinstance(b, pd.DataFrame):
        if type(a) is not type(b) or list(a.columns) != list(b.columns) or a.shape != b.shape:
            return False
        return bool(np.array_equal(a.values.astype(float), b.values.astype(float), equal_nan=True))
    if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
        return type(a) is type(b) and a == b
    num = (np.ndarray, list, tuple, int, float, np.number, bool)
    if isinstance(a, num) and isinstance(b, num):
        try:
            x, y = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
            return x.shape == y.shape and bool(np.array_equal(x, y, equal_nan=True))
        except (ValueError, TypeError):
            return len(a) == len(b) and all(same(p, q, depth + 1) for p, q in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k], depth + 1) for k in a)
    if type(a) is not type(b):
        return False
    if isinstance(a, set):
        return a == b
    if hasattr(a, "__dict__"):
        return same(vars(a), vars(b), depth + 1)
    return a == b


_POOL = {}


def ident(x, candidates):
    """The id of the candidate that x equals, or "other"."""
    for i in candidates:
        if i not in _POOL:
            _POOL[i] = make(i)
        if same(_POOL[i], x):
            return i
    return "other"


def mutate(x):
    """Change an object in place, in whatever way it can be changed."""
    if isinstance(x, np.ndarray):
        if x.size and x.flags.writeable:
            x.flat[:] = x.ravel() * 0 + 77
    elif isinstance(x, list):
        if x and isinstance(x[0], list):
            x[0][0] = 77.0
        x.append(77.0)
    elif isinstance(x, dict):
        for v in list(x.values()):
            mutate(v)
        x["mutated"] = 1
    elif isinstance(x, pd.DataFrame):
        if x.size:
            x.iloc[0, 0] = 77.0
        x["mutated"] = 1
    elif hasattr(x, "set_param_vector"):
        x.set_param_vector(x.get_param_vector() * 0 + 77)
    elif hasattr(x, "__dict__"):
        for k, v in list(vars(x).items()):
            if isinstance(v, (np.ndarray, list, dict)):
                mutate(v)
            elif isinstance(v, (int, float, np.number)):
                setattr(x, k, 77)
