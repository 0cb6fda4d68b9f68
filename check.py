#!/usr/bin/env python3
"""python3 check.py Cnn: run one check (VERIF_SEED, VERIF_TIER). Exit 0 held, 1 violated, 2 check error."""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vlib import core

def main():
    pid = sys.argv[1]
    if len(sys.argv) > 2:
        os.environ["VERIF_TIER"] = sys.argv[2]
    mod = importlib.import_module("checks." + pid.lower())
    c = core.Check(pid, getattr(mod, "LEVEL", "exploration"))
    try:
        mod.main(c)
        rc = c.finish()
    except core.CheckError as e:
        if c.viols:
            sys.stderr.write("CHECK ERROR after a violation: %s\n" % e)
            rc = c.finish()
        else:
            print("CHECK-ERROR property=%s %s" % (pid, e))
            rc = 2
    except Exception:
        traceback.print_exc()
        rc = c.finish() if c.viols else 2
        if rc == 2:
            print("CHECK-ERROR property=%s internal error" % pid)
    c.cleanup()
    sys.stdout.flush()
    os._exit(rc)

main()
