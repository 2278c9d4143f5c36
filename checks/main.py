import sys, os, importlib, traceback, signal
from . import common

def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    mod = importlib.import_module('checks.' + pid.lower())
    c = common.Check(pid, tier)
    try:
        mod.run(c)
    except common.Undecidable as e:
        c.undec(str(e))
    except Exception as e:
        traceback.print_exc()
        c.undec('check failed: %s %s' % (type(e).__name__, e))
    rc = c.finish(mod.LEVEL, mod.TECHNIQUE, mod.EXPLANATION)
    sys.stdout.flush()
    os._exit(rc)
main()
