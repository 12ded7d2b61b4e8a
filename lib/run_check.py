import importlib, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vf
try:
    mod = importlib.import_module("props." + sys.argv[1].lower())
    rc = vf.main(mod, sys.argv[2:])
except SystemExit:
    raise
except BaseException as e:
    import traceback
    traceback.print_exc()
    rc = 2
sys.stdout.flush()
sys.exit(rc)
