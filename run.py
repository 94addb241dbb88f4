#!/usr/bin/env python3
"""python3 run.py C01 [quick|thorough] - decide one property of /repo's current source."""
import importlib
import os
import sys
import threading
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True


def main(pid):
    from checks import common
    from checks.registry import CHECKS
    run = common.Run(pid)
    error = None
    try:
        mod, fn = CHECKS[pid]
        getattr(importlib.import_module("checks." + mod), fn)(run)
    except common.Undecidable as e:
        error = str(e)
    except common.Undecided as e:
        error = "undecided term: %s" % e
    except common.Incomplete as e:
        error = "no model: %s" % e
    except (SyntaxError, RecursionError, OSError) as e:
        error = "%s: %s" % (type(e).__name__, e)
    except Exception as e:
        error = "%s: %s" % (type(e).__name__, e)
        traceback.print_exc(file=sys.stdout)
    return run.finish(error)


if __name__ == "__main__":
    if len(sys.argv) > 2:
        os.environ["VERIF_TIER"] = sys.argv[2]
    threading.stack_size(512 * 1024 * 1024)
    res = []
    t = threading.Thread(target=lambda: res.append(main(sys.argv[1])))
    t.start()
    t.join()
    sys.exit(res[0] if res else 2)
