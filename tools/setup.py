"""Nothing to build: checks that the interpreter, torch, z3 and the repository are importable."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, "/repo")
import symx.engine, symx.solve, dattri
print("z3", symx.solve.z3.get_version_string())
