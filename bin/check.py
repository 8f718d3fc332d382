#!/usr/bin/env python3
"""check.py <property id>: decides one property. VERIF_TIER, VERIF_SEED from the environment."""
import importlib, os, sys, traceback
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib, checks


def main():
    pid = sys.argv[1]
    try:
        sys.exit(checks.CHECKS[pid](pid))
    except vlib.ToolError as e:
        print('TOOL ERROR: %s' % e)
        sys.exit(2)
    except SystemExit:
        raise
    except Exception:
        traceback.print_exc()
        sys.exit(2)


main()
