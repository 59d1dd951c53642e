#!/usr/bin/env python3
"""run.py <property> [quick|thorough]: decides one property on /repo's current tree."""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from core import Ctx, ToolError

def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    ctx = Ctx(prop, tier)
    try:
        level, samples = importlib.import_module(prop.lower()).run(ctx)
        sys.exit(ctx.finish(level, samples))
    except ToolError as e:
        print(f"CHECK ERROR property={prop}: {e}")
        sys.exit(2)
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        print(f"CHECK ERROR property={prop}")
        sys.exit(2)

main()
