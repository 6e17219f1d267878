"""Builds the C++ implementation, from the sources that VERIF_REPO has now, together with cpp/server.cpp."""
import os
import subprocess
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
LIBRARIES = ("dmp", "dynamicalsystems", "functionapproximators", "eigenutils")
FLAGS = {"release": ["-O3", "-DNDEBUG"], "debug": ["-O0", "-g0", "-DREALTIME_CHECKS"]}


def compiled(files, out, flags):
    """Object files of sources."""
    def one(f):
        o = out / (f.name + ".o")
        std = "-std=c++11" if f.name != "server.cpp" else "-std=c++17"
        r = subprocess.run(["g++", std, *flags, *(["-fno-builtin-malloc"] if f.name == "server.cpp" else []), "-c", str(f), "-o", str(o)],
                           capture_output=True, text=True)
        if r.returncode:
            raise RuntimeError(f"{f.name} does not compile:\n{r.stderr[:2000]}")
        return str(o)

    with ThreadPoolExecutor(8) as pool:
        return list(pool.map(one, sorted(files, key=lambda f: f.name not in ("server.cpp", "Dmp.cpp"))))


def link(objects, exe):
    r = subprocess.run(["g++", *objects, "-o", str(exe), "-lboost_filesystem", "-lboost_system"], capture_output=True, text=True)
    if r.returncode:
        raise RuntimeError(f"the C++ code does not link:\n{r.stderr[:2000]}")
    return exe


def build(scratch, kind="release"):
    src = Path(os.environ.get("VERIF_REPO", "/repo")) / "src"
    out = Path(scratch) / f"cpp-{kind}"
    out.mkdir()
    files = [f for d in LIBRARIES for f in (src / d).glob("*.cpp")] + [VERIF / "cpp" / "server.cpp"]
    return link(compiled(files, out, ["-fPIC", "-w", f"-I{src}", "-I/usr/include/eigen3", *FLAGS[kind]]), out / "server")


def robot(scratch):
    """The programs of demos/robot: the directory in which they are."""
    repo = Path(os.environ.get("VERIF_REPO", "/repo"))
    src, demo = repo / "src", repo / "demos" / "robot"
    out = Path(scratch) / "robot-bin"
    out.mkdir()
    programs = ["robotExecuteDmp", "robotExecuteTrajectory"]
    files = [f for d in LIBRARIES for f in (src / d).glob("*.cpp")] + list(demo.glob("*.cpp"))
    objects = compiled(files, out, ["-fPIC", "-w", f"-I{src}", f"-I{demo}", "-I/usr/include/eigen3", *FLAGS["release"]])
    for p in programs:
        link([o for o in objects if Path(o).name[:-6] not in programs or Path(o).name[:-6] == p], out / p)
    return out
