"""Samples from distributions. IN: list of programs; OUT: list of traces."""
import json
import sys
from pathlib import Path

import vlib
from vlib import np, attempt, Trace, Raw, mat, vec

from drv_updater import break_dist, make_dist, rec_dist
from dmpbbo.bbo.DistributionGaussian import DistributionGaussian
from dmpbbo.bbo.DistributionGaussianBounded import DistributionGaussianBounded


def run(p):
    t = Trace(p["name"])
    if p["what"] == "construct":
        for cls in (DistributionGaussian, DistributionGaussianBounded):
            for n in range(1, 4):
                for m in range(1, 4):
                    out, _ = attempt(cls, np.zeros(n), np.eye(m))
                    t.add("construct", nmean=n, ncovar=m, out=out)
        return t.as_dict()
    n = len(p["dist"]["mean"])
    if p["what"] == "moments":
        o, (seed, m) = make_dist(p["dist"]), p["draw"]
        np.random.seed(seed)
        out, s = attempt(o.generate_samples, m)
        e = dict(out=out, n=m, dist=Raw(rec_dist(o, n)))
        if out == "ok":
            q = s - np.array(p["dist"]["mean"])
            e.update(sh=list(np.shape(s)), m=Raw(vec(s.mean(axis=0))), c=Raw(mat(q.T @ q / m)))
        t.add("moments", **e)
        return t.as_dict()
    plain = dict(p["dist"], kind="gaussian")
    if "rare" in p:
        p.update(rare(plain, *p["rare"]))
    for seed, counts in p["draws"]:
        # the unbounded distribution twice, then the bounded ones, each from the same generator state
        for i, d in enumerate([plain, plain] + [dict(plain, kind="bounded", **b) for b in p["bounds"]]):
            o = make_dist(d)
            before = rec_dist(o, n)
            if "save" in p and i:
                out, o = attempt(vlib.save_load, o, p["save"], break_dist)
                if out != "ok":
                    t.add("sample", out="raised")
                    break
            np.random.seed(seed)
            for k, m in enumerate(counts):
                args = [] if m == "default" else [m]
                out, s = attempt(o.generate_samples, *args)
                if out != "ok":
                    t.add("sample", out="raised")
                    break
                t.add("sample", out="ok", seed=seed, count=k, n=1 if m == "default" else m, dist=Raw(before), s=Raw(mat(s)),
                      sh=list(np.shape(s)), unmodified=rec_dist(o, n) == before)
    return t.as_dict()


def rare(plain, m, n_seeds):
    """A state of the generator with a sample as far out as can be found, and bounds that only the outermost samples violate."""
    o = make_dist(plain)
    scale = np.sqrt(np.maximum(np.diag(np.atleast_2d(o.covar)), 1e-300))
    best = (0.0, 0, None)
    for seed in range(n_seeds):
        np.random.seed(seed)
        s = o.generate_samples(m)
        best = max(best, (float(np.max(np.abs(s - o.mean) / scale)), seed), key=lambda b: b[0])
    np.random.seed(best[1])
    s = np.sort(np.reshape(o.generate_samples(m), (m, -1)), axis=0)
    lower, upper = (0.5 * (s[0] + s[1])).tolist(), (0.5 * (s[-1] + s[-2])).tolist()
    bounds = [dict(lower=lower, upper=None), dict(lower=None, upper=upper), dict(lower=lower, upper=upper)]
    if len(upper) == 1:
        bounds.append(dict(lower=lower[0], upper=upper[0]))
    return dict(draws=[[best[1], [m]]], bounds=bounds)


if __name__ == "__main__":
    out = vlib.run_all(run, json.loads(Path(sys.argv[1]).read_text()))
    Path(sys.argv[2]).write_text(json.dumps(out))
