"""Decides one property: run.py C01 [quick|thorough] (or VERIF_TIER; VERIF_SEED)."""
import importlib
import os
import sys
from pathlib import Path

sys.dont_write_bytecode = True
sys.path.insert(0, str(Path(__file__).resolve().parent.parent / "harness"))
sys.path.insert(0, str(Path(__file__).resolve().parent))

import ctx  # noqa: E402

if __name__ == "__main__":
    prop = sys.argv[1]
    if len(sys.argv) > 2:
        os.environ["VERIF_TIER"] = sys.argv[2]
    sys.exit(ctx.main(prop, importlib.import_module(prop.lower()).check))
