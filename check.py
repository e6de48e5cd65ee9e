#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough]: decides one property.

exit 0: held on everything explored; 1 + VIOLATION line: broken; 2: no answer."""
import os
import sys
import traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "tools"))
import plans  # noqa: E402
import vlib  # noqa: E402


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    try:
        if pid == "setup":
            return plans.setup()
        c = vlib.Check(pid, tier, seed)
        try:
            getattr(plans, pid)(c)
            if not c.violations:
                plans.models(c)
        except vlib.ToolError as e:
            print("TOOL-ERROR", e)
            if not c.violations:
                return 2
        return c.finish()
    except vlib.ToolError as e:
        print("TOOL-ERROR", e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == "__main__":
    sys.exit(main())
