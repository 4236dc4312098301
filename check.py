#!/opt/venv/bin/python
"""check.py <property id> : decides one property of /repo's current tree. See DESIGN.md."""
import importlib, os, sys, traceback
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vf import core


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    ctx = core.Ctx(pid, tier, seed)
    mod = importlib.import_module("props." + pid)
    try:
        mod.run(ctx)
    except core.MachineryError as ex:
        print("MACHINERY-ERROR", ex, file=sys.stderr)
        if ctx.bad:      # what was found before the failure stands
            sys.exit(core.finish(ctx))
        sys.exit(3)
    sys.exit(core.finish(ctx))


if __name__ == "__main__":
    main()
