"""setup_cmd: nothing has to be built; check that the interpreter and solvers are there"""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import z3, numpy
from dv import run
print('z3', z3.get_version_string(), 'numpy', numpy.__version__)
