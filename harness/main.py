import importlib
import sys
import traceback

from common import Check, CheckError


def main():
    pid, tier = sys.argv[1], sys.argv[2]
    mod = importlib.import_module("checks." + pid.lower())
    c = Check(pid, tier)
    try:
        mod.run(c)
    except CheckError as e:
        print("CHECK ERROR:", e)
        return c.finish() if c.violations else 3
    except Exception:
        traceback.print_exc()
        return c.finish() if c.violations else 3
    return c.finish()


sys.exit(main())
