"""What every check shares: seeds, running drivers and TLC, verdict, evidence."""
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
import time
import traceback
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

import tlc
import vlib

VERIF = Path(__file__).resolve().parent.parent
PY = sys.executable
EVIDENCE = Path(os.environ.get("VERIF_EVIDENCE", VERIF / "evidence"))


class Ctx:
    def __init__(self, prop):
        (EVIDENCE / "replay" / f"{prop}.json").unlink(missing_ok=True)
        self.prop = prop
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.rng = random.Random(f"{prop}/{self.seed}")
        self.t0 = time.time()
        self.scratch = Path(tempfile.mkdtemp(prefix=f"verif-{prop}-"))
        self.states = self.transitions = self.traces = self.events = 0
        self.ops = {}
        self.mcs = []
        self.samples = []
        self.failures = []  # (trace name, event number, op, clauses, trace or None)
        self.notes = []
        self.cut = []
        self.assumptions = []

    @property
    def thorough(self):
        return self.tier == "thorough"

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    # ---------------------------------------------------------------- model checking
    def mc(self, module, cfg, args=(), expect_error=None, what="", timeout=600):
        """Exhaustive check of a model; expect_error names an invariant that must fail."""
        r = tlc.run(module, cfg, args=args, timeout=timeout)
        if expect_error:
            if expect_error not in (r.error or ""):
                raise tlc.MachineryError(f"{module}: {expect_error} should be violated: {r.error}")
        elif not r.finished:
            raise tlc.MachineryError(f"{module}: {r.error}")
        self.states += r.distinct
        self.transitions += r.generated
        self.mcs.append({"module": module, "what": what, "states": r.distinct, "generated": r.generated,
                         "depth": r.depth, "expected_violation": expect_error})
        return r

    def generate(self, module, cfg, timeout=600):
        """Behaviours printed by a model, as JSON."""
        r = tlc.run(module, cfg, timeout=timeout)
        if not r.finished:
            raise tlc.MachineryError(f"{module}: {r.error}")
        self.mcs.append({"module": module, "what": "generation of behaviours", "states": r.distinct,
                         "generated": r.generated, "depth": r.depth, "expected_violation": None})
        self.states += r.distinct
        self.transitions += r.generated
        out = []
        for x in sorted(set(r.reports)):
            x = x.strip()
            if x.startswith('"'):
                x = x[1:-1].replace('\\"', '"').replace("\\\\", "\\")
            out.append(json.loads(x))
        return out

    # ---------------------------------------------------------------- traces
    def validate(self, module, traces, cfg_extra="", timeout=800, chunk=None, invariants=()):
        """Check recorded traces; remembers what fails."""
        traces = [t.as_dict() if hasattr(t, "as_dict") else t for t in traces]
        for t in traces:
            for e in t["ev"]:
                self.ops[e["op"]] = self.ops.get(e["op"], 0) + 1
        names = {t["name"]: t for t in traces}
        if len(names) != len(traces):
            raise tlc.MachineryError("trace names are not unique")
        for inv in invariants:
            cfg_extra += f"INVARIANT {inv}\n"
        parts = [traces] if not chunk else [traces[i : i + chunk] for i in range(0, len(traces), chunk)]
        for part in parts:
            fails, r = tlc.check_traces(module, part, cfg_extra, timeout=timeout)
            self.states += r.distinct
            self.transitions += r.generated
            self.traces += len(part)
            self.events += sum(len(t["ev"]) for t in part)
            for name, pos, op, clauses in fails:
                self.failures.append((name, pos, op, clauses, names.get(name)))
        if traces and len(self.samples) < 4:
            t = traces[self.rng.randrange(len(traces))]
            self.samples.append(shorten({"name": t["name"], "cfg": t["cfg"], "ev": t["ev"][:3]}))

    def binding_demo(self, module, traces, corrupt, cfg_extra=""):
        """A trace with one corrupted field must be rejected: shows that the check is not vacuous."""
        if self.failures or self.cut:
            return
        for t in traces:
            t = json.loads(json.dumps(t.as_dict() if hasattr(t, "as_dict") else t))
            try:
                corrupt(t)
            except (KeyError, IndexError, StopIteration, TypeError):
                continue
            fails, _ = tlc.check_traces(module, [t], cfg_extra, workers=1)
            if not fails:
                raise tlc.MachineryError(f"{module}: a corrupted trace was accepted")
            self.notes.append(f"a trace with one corrupted field is rejected by {module}: {fails[0][3]}")
            return
        raise tlc.MachineryError(f"{module}: no trace to corrupt")

    # ---------------------------------------------------------------- drivers
    def driver(self, script, data, timeout=600, env=None):
        """Run a driver in a new process on JSON data; gives (output, None) or (None, what went wrong)."""
        d = Path(tempfile.mkdtemp(dir=self.scratch))
        (d / "in.json").write_text(json.dumps(data))
        e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", OPENBLAS_NUM_THREADS="1",
                 OMP_NUM_THREADS="1", PYTHONPATH=str(VERIF / "harness"), MPLCONFIGDIR=str(self.scratch / "mpl"))
        e.update(env or {})
        try:
            p = subprocess.run([PY, "-W", "ignore", str(VERIF / "harness" / script), str(d / "in.json"), str(d / "out.json")],
                               capture_output=True, text=True, timeout=timeout, env=e, cwd=d)
        except subprocess.TimeoutExpired:
            return None, f"{script}: no result within {timeout} s"
        if p.returncode or not (d / "out.json").exists():
            return None, f"{script}: exit {p.returncode}: " + p.stderr[-1500:]
        out = json.loads((d / "out.json").read_text())
        shutil.rmtree(d)
        return out, None

    def drive(self, script, items, timeout=600, parts=8, env=None):
        """Run a driver over a list of items, split over processes; fails the property if it breaks."""
        parts = max(1, min(parts, len(items)))
        chunks = [items[i::parts] for i in range(parts)]
        with ThreadPoolExecutor(parts) as ex:
            res = list(ex.map(lambda c: self.driver(script, c, timeout, env), chunks))
        out = [None] * len(items)
        for i, (c, (o, err)) in enumerate(zip(chunks, res)):
            if err:
                self.broken(script, err)
                continue
            for j, x in enumerate(o):
                if isinstance(x, dict) and "cut" in x:
                    self.cut.append((script, x.pop("cut")))
                    x = x if x["ev"] else None
                out[i + j * parts] = x
        return out

    def broken_off(self):
        """Programs that broke off count only if what was recorded until then was as it should be."""
        if not self.failures:
            for script, err in self.cut:
                self.broken(script, err)

    def broken(self, where, err):
        """A driver ended abnormally: the fault of the code under test if its frames are involved, or if
        what it returned is not of the documented form, so that the driver cannot read it."""
        last = err.strip().splitlines()[-1] if err.strip() else ""
        form = last.startswith(("TypeError", "ValueError", "IndexError", "KeyError", "AttributeError")) and " '_" not in last
        if form or "/repo/" in err or "no result within" in err or vlib.REPO in err or "exit -" in err:
            self.failures.append((where, 0, "driver", "unexpected failure of the code: " + err, None))
        else:
            raise tlc.MachineryError(err)

    # ---------------------------------------------------------------- verdict
    def finish(self, level="model_checking", extra=None):
        known = json.loads((VERIF / "known_findings.json").read_text()).get("findings", [])
        known = [k for k in known if k["property"] == self.prop]
        new, found = [], set()
        for f in self.failures:
            k = next((k for k in known if k["trace"] == f[0] and k["op"] == f[2] and k["clauses"] == f[3]), None)
            if k:
                found.add(k["what"])
            else:
                new.append(f)
        cov = {
            "states": self.states, "transitions": self.transitions,
            "traces_validated_against_impl": self.traces,
            "events_validated": self.events, "events_per_operation": self.ops,
            "models": self.mcs, "notes": self.notes, "samples": self.samples,
        }
        cov.update(extra or {})
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(new)}
        EVIDENCE.mkdir(exist_ok=True)
        (EVIDENCE / f"{self.prop}.json").write_text(json.dumps(ev, indent=1))
        for w in sorted(found):
            print(f"KNOWN-FINDING: property={self.prop} {w}")
        if new:
            rd = EVIDENCE / "replay"
            rd.mkdir(exist_ok=True)
            path = rd / f"{self.prop}.json"
            path.write_text(json.dumps([{"trace": f[0], "event": f[1], "op": f[2], "clauses": f[3], "recorded": f[4]}
                                        for f in new[:int(os.environ.get("VERIF_FAILURES", 20))]], indent=1))
            seen = set()
            for f in new:
                if (f[2], f[3]) not in seen and len(seen) < 12:
                    seen.add((f[2], f[3]))
                    print(f"  {f[0]} event {f[1]} ({f[2]}): {f[3][:400]}")
            print(f"VIOLATION property={self.prop} replay={path}")
            return 1
        print(f"{self.prop} held: {self.traces} traces, {self.events} events, {self.states} states, "
              f"{ev['wall_s']} s")
        return 0


def shorten(x, depth=0):
    if isinstance(x, list):
        return [shorten(v, depth + 1) for v in x[:6]] + (["..."] if len(x) > 6 else [])
    if isinstance(x, dict):
        return {k: shorten(v, depth + 1) for k, v in list(x.items())[:12]}
    return x


def main(prop, check):
    ctx = Ctx(prop)
    try:
        check(ctx)
        ctx.broken_off()
        code = ctx.finish()
    except tlc.MachineryError as e:
        print(f"ERROR of the check: {e}")
        code = ctx.finish() if ctx.failures else 2      # what was found before stands
    except Exception as e:
        tb = traceback.format_exc()
        frames = traceback.extract_tb(e.__traceback__)
        if frames and frames[-1].filename.startswith(vlib.REPO):
            ctx.failures.append(("harness", 0, "call", "unexpected exception in the code: " + tb[-800:], None))
            code = ctx.finish()
        else:
            print(tb)
            code = ctx.finish() if ctx.failures else 2
    finally:
        shutil.rmtree(ctx.scratch, ignore_errors=True)
    return code
