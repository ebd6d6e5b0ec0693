"""pytest plugin: run the repository's own tests with pykickstart instrumented and the hooks active."""
import sys
sys.path.insert(0, "/verif")
from pysx import instrument, core
instrument.install(["/repo/pykickstart", "/repo/tools"])
core.ENG.active = True
