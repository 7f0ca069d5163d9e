import sys
import mc.env                                                 # noqa: F401
from mc import core
import importlib

if __name__ == '__main__':
    pid = sys.argv.pop(1)
    mod = importlib.import_module('checks.' + pid.lower())
    rc = core.main(mod)
    sys.stdout.flush()
    sys.exit(rc)
