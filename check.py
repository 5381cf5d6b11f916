#!/opt/venv/bin/python
"""check.py PROPERTY            decides one property on the current tree of /repo (VERIF_TIER, VERIF_SEED)
   check.py --replay FILE      runs a reported violation again"""
import os, sys, json, traceback
sys.dont_write_bytecode = True
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)


def main():
    from harness import checks
    if len(sys.argv) == 3 and sys.argv[1] == "--replay":
        return checks.replay(sys.argv[2])
    if len(sys.argv) != 2 or sys.argv[1] not in checks.CHECKS:
        print(__doc__, "\nproperties:", " ".join(checks.CHECKS))
        return 2
    from harness.ctx import Ctx
    ctx = Ctx(sys.argv[1])
    try:
        checks.CHECKS[sys.argv[1]](ctx)
    except Exception:
        traceback.print_exc()
        if not ctx.violations:
            print("ERROR property=%s: the check itself failed" % ctx.prop)
            return 2
    return ctx.finish()


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
