"""Instrumented user-side objects (cost functions, tasks, distributions, updaters) that record what
an optimization does with them. They only use the documented interfaces."""
import copy

from vlib import np, vec, mat, Raw

from dmpbbo.bbo.CostFunction import CostFunction
from dmpbbo.bbo.DistributionGaussian import DistributionGaussian
from dmpbbo.bbo.updaters import Updater
from dmpbbo.bbo_of_dmps.Task import Task
from dmpbbo.bbo_of_dmps.TaskSolver import TaskSolver

LOG = []  # (op, fields) of the current run
COUNT = [0]


def log(op, **kw):
    LOG.append((op, {k: Raw(v) for k, v in kw.items()}))


def rec_d(d):
    return dict(mean=vec(d.mean), covar=mat(d.covar))


def costs_of(x, comps):
    """Costs that are unique to each call, so that mixing them up shows."""
    COUNT[0] += 1
    base = float(np.sum(np.asarray(x) ** 2)) + 1e-3 * COUNT[0]
    return [base] + [base * (k + 2) + COUNT[0] for k in range(comps - 1)]


class RecCost(CostFunction):
    def __init__(self, comps, form, labels=None):
        self.comps, self.form, self.labels = comps, form, labels

    def get_cost_labels(self):
        return self.labels

    def evaluate(self, sample):
        c = costs_of(sample, self.comps)
        log("evaluate", x=vec(sample), c=vec(c))
        return np.array(c) if self.form == "array" else c


class RecTask(Task):
    def __init__(self, comps, form, labels=None):
        self.comps, self.form, self.labels = comps, form, labels

    def get_cost_labels(self):
        return self.labels

    def evaluate_rollout(self, cost_vars, sample):
        c = costs_of(sample, self.comps)
        log("evaluate", x=vec(sample), c=vec(c), cv=vec(cost_vars))
        return np.array(c) if self.form == "array" else c


class RecSolver(TaskSolver):
    def perform_rollout(self, sample, **kwargs):
        COUNT[0] += 1
        cv = np.concatenate([np.ravel(sample), [COUNT[0]]])
        log("rollout", x=vec(sample), cv=vec(cv))
        return cv.reshape(-1, 1) if len(cv) % 2 else cv


class RecDistribution(DistributionGaussian):
    def generate_samples(self, n_samples=1):
        s = super().generate_samples(n_samples)
        log("draw", dist=rec_d(self), s=mat(s), m=int(n_samples))
        return s


class RecUpdater(Updater):
    def __init__(self, inner):
        self.inner = inner

    def update_distribution(self, distribution, samples, costs):
        before = rec_d(distribution)
        cs = [vec(c) for c in costs]
        s = mat(samples)
        new, w = self.inner.update_distribution(distribution, samples, costs)
        log("update", dist=before, samples=s, costs=cs, weights=vec(w), new=rec_d(new))
        return new, w
