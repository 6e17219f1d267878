"""Running TLC: with the overrides of Num.tla, on specifications and on recorded traces."""
import hashlib
import json
import os
import re
import shutil
import subprocess
import tempfile
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
SPEC = VERIF / "spec"
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class MachineryError(Exception):
    pass


def build_java():
    """Compile the overrides (about a second), once per content."""
    src = sorted((VERIF / "java" / "verif").glob("*.java"))
    h = hashlib.sha256(b"".join(p.read_bytes() for p in src)).hexdigest()[:16]
    out = VERIF / ".build" / f"java-{h}"
    if not out.exists():
        out.parent.mkdir(exist_ok=True)
        tmp = Path(tempfile.mkdtemp(dir=out.parent))
        r = subprocess.run(
            ["javac", "-nowarn", "-d", str(tmp), "-cp", JARS] + [str(p) for p in src],
            capture_output=True, text=True,
        )
        if r.returncode:
            raise MachineryError("javac: " + r.stderr)
        try:
            os.rename(tmp, out)
        except OSError:  # another process was faster
            shutil.rmtree(tmp, ignore_errors=True)
    return out


class Result:
    pass


def run(module, cfg, env=None, args=(), workers=8, timeout=800, heap="6g"):
    """Run TLC on spec/<module>.tla with the given configuration text."""
    classes = build_java()
    work = Path(tempfile.mkdtemp(prefix="tlc-"))
    try:
        for p in SPEC.glob("*.tla"):
            shutil.copy(p, work)
        (work / "M.cfg").write_text(cfg)
        cmd = [
            "java", "-XX:+UseParallelGC", f"-Xmx{heap}", "-Xss64m",
            "-Dtlc2.tool.queue.IStateQueue=StateDeque",
            "-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:verif.Overrides",
            f"-Djava.io.tmpdir={work}",
            "-cp", f"{classes}:{JARS}", "tlc2.TLC",
            "-config", "M.cfg", "-metadir", str(work / "states"), "-noGenerateSpecTE",
            "-workers", str(workers), "-deadlock",
        ] + list(args) + [module + ".tla"]
        e = dict(os.environ)
        e.update(env or {})
        try:
            p = subprocess.run(cmd, cwd=work, env=e, capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired as ex:
            raise MachineryError(f"TLC on {module}: no result within {timeout} s") from ex
        r = Result()
        r.code, r.out = p.returncode, p.stdout + p.stderr
        r.reports = re.findall(r"^@@REPORT (.*)$", r.out, re.M)
        m = re.findall(r"([\d,]+) states generated[^,]*, ([\d,]+) distinct states found", r.out)
        r.generated, r.distinct = (
            (int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))) if m else (0, 0)
        )
        m = re.findall(r"The depth of the complete state graph search is (\d+)", r.out)
        r.depth = int(m[-1]) if m else 0
        r.finished = "Model checking completed. No error has been found." in r.out
        r.error = None
        if not r.finished:
            lines = [x for x in r.out.splitlines() if x and not x.startswith("@@REPORT")]
            k = next((i for i, x in enumerate(lines) if x.startswith("Error:")), max(0, len(lines) - 15))
            r.error = "\n".join(lines[k : k + 40])
            if "Parsing or semantic analysis failed" in r.out:
                r.error += "\n" + "\n".join(x for x in r.out[r.out.find("***") :].splitlines() if x)[:2000]
        return r
    finally:
        shutil.rmtree(work, ignore_errors=True)


SPECS = {"ContextTrace": "TraceSpec2", "DynSysCppTrace": "CppSpec", "DmpCppTrace": "CppSpec", "RolloutTrace": "RollSpec", "RobotTrace": "RobotSpec"}
TRACE_CFG = "SPECIFICATION %s\nCHECK_DEADLOCK FALSE\n"


def check_traces(module, traces, cfg_extra="", timeout=800, workers=8):
    """Check traces (list of dicts with name, cfg, ev). Gives (failures, Result)."""
    d = Path(tempfile.mkdtemp(prefix="traces-"))
    try:
        f = d / "traces.json"
        f.write_text(json.dumps(traces))
        r = run(module, TRACE_CFG % SPECS.get(module, "TraceSpec") + cfg_extra, env={"TRACE_FILE": str(f)}, workers=workers, timeout=timeout)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    fails = []
    for x in r.reports:
        m = re.match(r'<<"(.*?)", (\d+), "(.*?)", (\{.*\})>>$', x)
        if m:
            fails.append((m.group(1), int(m.group(2)), m.group(3), m.group(4)))
        else:
            fails.append(("?", 0, "?", x))
    want = sum(len(t["ev"]) + 1 for t in traces)
    if r.error:
        if "java.lang.OutOfMemoryError" in r.out or "Parsing or semantic analysis failed" in r.out \
                or "@!@" in r.out or "java.lang.NoClassDefFoundError" in r.out:
            raise MachineryError(f"TLC on {module}: {r.error}")
        if os.environ.get("VERIF_DEBUG"):
            print(r.out[-6000:])
        fails.append(("?", 0, "evaluation", "the specification cannot be evaluated on the recorded values: "
                      + " ".join(r.error.split())[:600]))
    elif r.distinct != want:
        fails.append(("?", 0, "consumption", f"{r.distinct} of {want} states: a trace was not consumed"))
    return sorted(set(fails)), r
