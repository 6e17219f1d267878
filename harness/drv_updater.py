"""Runs costs_to_weights and updaters. IN: list of programs; OUT: list of traces."""
import contextlib
import copy
import io
import json
import sys
from pathlib import Path

import vlib
from vlib import np, attempt, Trace, Raw, vec, mat, num

from dmpbbo.bbo import updaters as U
from dmpbbo.bbo.DistributionGaussian import DistributionGaussian
from dmpbbo.bbo.DistributionGaussianBounded import DistributionGaussianBounded

CLS = {"mean": "UpdaterMean", "decay": "UpdaterCovarDecay", "adaptation": "UpdaterCovarAdaptation"}


def bound(b):
    return None if b is None else vlib.given(b)


def finite(x):
    """Infinite bounds as numbers that are as good as infinite."""
    return x if x is None else np.clip(np.asarray(x, dtype=float), -1e308, 1e308)


def bvec(b, n):
    return [] if b is None else vec(np.zeros(n) + b)


def make_dist(d):
    m, c = vlib.given(d["mean"]), vlib.given(d["covar"])
    if d["kind"] == "bounded":
        return DistributionGaussianBounded(m, c, bound(d["lower"]), bound(d["upper"]))
    return DistributionGaussian(m, c)


def rec_dist(d, n):
    b = type(d).__name__ == "DistributionGaussianBounded"
    return dict(kind=type(d).__name__, mean=vec(d.mean), covar=mat(d.covar),
                lower=bvec(finite(d.lower_bound), n) if b else [], upper=bvec(finite(d.upper_bound), n) if b else [])


def rec_updater(u, n):
    """The updater's settings as they were asked for."""
    lim = lambda x: [] if x is None else vec(np.zeros(n) + np.array(x))
    return dict(kind=u["kind"], method=u.get("method", "PI-BB"), elite=u.get("elite", 10), decay=float(u.get("decay", 0.8)),
                diag_only=u.get("diag_only", False), lr=float(u.get("lr", 1.0)), max=lim(u.get("max")), min=lim(u.get("min")))


def make_updater(u):
    kw = {}
    for k, a in (("method", "weighting_method"), ("elite", "eliteness"), ("decay", "covar_decay_factor"), ("diag_only", "diag_only"),
                 ("lr", "learning_rate"), ("max", "diagonal_max"), ("min", "diagonal_min")):
        if k in u:
            kw[a] = vlib.given(u[k])
    return getattr(U, CLS[u["kind"]])(**kw)


def as_form(costs, form):
    """Costs (list of component lists) in the form in which callers give them."""
    if form == "scalars":
        return [c[0] for c in costs]
    if form == "1d":
        return vlib.given([c[0] for c in costs])
    if form == "2d":
        return vlib.given(costs)
    if form == "arrays":
        return [vlib.given(c) for c in costs]
    return costs


def rec_costs(costs):
    return [vec(c) for c in costs]


def run(p):
    if p["what"] == "weights":
        t = Trace(p["name"], dist=0)
        for method, elite, costs, form in p["calls"]:
            c = as_form(copy.deepcopy(costs), form)
            before = copy.deepcopy(c)
            out, w = attempt(U.costs_to_weights, c, method, elite)
            same = vlib.enc(before) == vlib.enc(c)
            t.add("weights", method=method, elite=elite, costs=Raw(rec_costs(costs)), out=out,
                  w=Raw(vec(w) if out == "ok" else []), ndim=int(np.ndim(w)) if out == "ok" else 0, unmodified=same)
        return t.as_dict()
    if p["what"] == "construct":
        t = Trace(p["name"], dist=0)
        for lr in p["lrs"]:
            out, _ = attempt(U.UpdaterCovarAdaptation, learning_rate=lr)
            t.add("construct", lr=float(lr), out=out)
        return t.as_dict()
    # a chain of updates
    d = make_dist(p["dist"])
    n = len(p["dist"]["mean"])
    t = Trace(p["name"])
    t.cfg["dist"] = rec_dist(d, n)
    up = make_updater(p["updater"])
    for samples, costs, form, *save in p["steps"]:
        if save:
            out, r = attempt(lambda: (vlib.save_load(d, save[0], break_dist), vlib.save_load(up, save[1], break_updater)))
            if out != "ok":
                t.add("update", out="raised")
                break
            d, up = r
        s = vlib.given(samples)
        c = as_form(copy.deepcopy(costs), form)
        before = vlib.enc([s, c])
        old = rec_dist(d, n)
        out, r = attempt(up.update_distribution, d, s, c)
        unmod = vlib.enc([s, c]) == before and rec_dist(d, n) == old
        if out != "ok" or not isinstance(r, tuple) or len(r) != 2:
            t.add("update", out="raised")
            break
        new, w = r
        rec = rec_dist(new, n)
        shapes = np.shape(new.mean) == (n,) and np.shape(new.covar) == (n, n)
        # changing the new distribution must not change the old one or the samples
        keep = copy.deepcopy(new)
        for x in (new.mean, new.covar):
            vlib.spoil(x, 1.0)
        indep = vlib.enc([s, c]) == before and rec_dist(d, n) == old
        t.add("update", out="ok", updater=Raw(rec_updater(p["updater"], n)), old=Raw(old), samples=Raw(mat(s)),
              costs=Raw(rec_costs(costs)), w=Raw(vec(w)), new=Raw(rec), unmodified=unmod, shapes=shapes, independent=indep)
        d = keep
    return t.as_dict()


def break_dist(d):
    """Change everything about a distribution."""
    for a in (d.mean, d.covar, getattr(d, "lower_bound", None), getattr(d, "upper_bound", None)):
        vlib.spoil(a, 5.0)
    attempt(setattr, d, "mean", d.mean * 0 + 3.0)
    attempt(setattr, d, "covar", np.eye(len(d.mean)))


def break_updater(u):
    """Change everything about an updater."""
    for k, v in list(vars(u).items()):
        if isinstance(v, np.ndarray):
            vlib.spoil(v, 0.3)
        elif isinstance(v, bool):
            setattr(u, k, not v)
        elif isinstance(v, (int, float)):
            setattr(u, k, v * 0.5)


def main():
    progs = json.loads(Path(sys.argv[1]).read_text())
    with contextlib.redirect_stdout(io.StringIO()):
        out = vlib.run_all(run, progs)
    Path(sys.argv[2]).write_text(json.dumps(out))


if __name__ == "__main__":
    main()
