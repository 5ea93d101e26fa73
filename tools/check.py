#!/usr/bin/env python3
"""check.py <property>: decides one property on /repo's current working tree."""
import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import engine


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    ctx = engine.Context(prop, tier, seed)
    try:
        mod = importlib.import_module(f"props.{prop.lower()}")
        rc = mod.check(ctx)
    except engine.ToolError as e:
        print("TOOL-ERROR", e, flush=True)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    finally:
        ctx.cleanup()
    sys.exit(rc)


if __name__ == "__main__":
    main()
