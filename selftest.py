"""Setup: nothing to build; verifies that interpreter, solver and both copies of copt load."""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VENV = "/opt/venv/bin/python"
if os.path.realpath(sys.prefix) != "/opt/venv" and os.path.exists(VENV) and not os.environ.get("VP_REEXEC"):
    os.environ["VP_REEXEC"] = "1"
    os.execv(VENV, [VENV, "-B"] + sys.argv)
os.environ.setdefault("COPT_DATA_DIR", "/nonexistent/copt_data")
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import z3
from vp import engine as E, loader
E.ENG = E.Engine()
loader.SymPackage().load("copt")
loader.real_copt()
print("ok: z3", z3.get_version_string(), "python", sys.version.split()[0])
