"""Nothing to build: verify that the tools the checks need are present."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import z3, sympy, numpy, mpmath
from lib import vf
assert os.path.isdir(vf.REPO)
s = z3.Solver(); x = z3.Real('x'); s.add(x * x == 2); assert s.check() == z3.sat
print('ok: z3', z3.get_version_string(), 'sympy', sympy.__version__, 'numpy', numpy.__version__)
