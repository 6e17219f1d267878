"""Builds what the checks share (they build it themselves if it is missing)."""
import sys
from pathlib import Path

sys.dont_write_bytecode = True
sys.path.insert(0, str(Path(__file__).resolve().parent.parent / "harness"))
import tlc  # noqa: E402

print(tlc.build_java())
