#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--seed N]

exit 0: the property held on everything explored; 1: violated; 2: the check itself failed."""
import argparse
import os
import subprocess
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import build, core, properties, tlc


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    a = ap.parse_args()
    p = properties.REGISTRY[a.property]
    ctx = core.Ctx(a.property, a.tier, a.seed)
    try:
        p.run(ctx)
        return ctx.finish("model_checking", p.note)
    except (core.Broken, tlc.ModelError, build.BuildError, subprocess.TimeoutExpired) as e:
        print(f"ERROR: {e}")
    except Exception:
        traceback.print_exc()
    if ctx.viol:
        return ctx.finish("model_checking", p.note)
    return 2


sys.exit(main())
