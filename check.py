#!/usr/bin/env python3
"""check.py <property id>: run one check. Tier from VERIF_TIER (quick by default), seed from VERIF_SEED."""
import importlib
import os
import shutil
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from lib import core  # noqa: E402


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    ctx = core.Ctx(prop, tier, seed)
    try:
        mod = importlib.import_module("props." + prop.lower())
        mod.run(ctx)
        rc = core.finish(ctx)
    except Exception:
        traceback.print_exc()
        rc = 2
    finally:
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(ctx.work, ignore_errors=True)
    sys.exit(rc)


main()
