import importlib
import os
import sys
import time
import traceback
os.environ.setdefault('VC_T0', str(time.time()))
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
sys.path.insert(0, os.path.join(here, 'props'))
sys.dont_write_bytecode = True
import fw  # noqa: E402


def run():
    pid = sys.argv[1]
    try:
        mod = importlib.import_module(pid)
        rc = mod.main()
    except Exception:
        # the machinery itself could not run: nothing is claimed, nothing is alarmed
        traceback.print_exc()
        rc = fw.infrastructure_failure(pid, traceback.format_exc())
    sys.stdout.flush()
    return rc


if __name__ == '__main__':
    rc = run()
    sys.exit(rc)
