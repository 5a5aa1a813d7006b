"""runner.py <directory of the compiled package> <check> [explorer arguments]"""
import importlib, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
pkg, check = sys.argv[1:3]
sys.argv = [check] + sys.argv[3:]
sys.dont_write_bytecode = True
sys.path[:0] = [pkg, HERE]
import mcpy   # noqa: E402
importlib.import_module(check)
rc = mcpy.main()
sys.stdout.flush()
sys.stderr.flush()
os._exit(rc)
