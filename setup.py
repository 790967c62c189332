#!/opt/veriftools/pyvenv/bin/python
"""Nothing to build: checks that everything needed can be imported."""
import os
import sys

sys.dont_write_bytecode = True
sys.path[:0] = [os.environ.get('VERIF_REPO', '/repo'),
                os.path.dirname(os.path.abspath(__file__))]
sys.path.append('/opt/venv/lib/python3.12/site-packages')
import sympy  # noqa
import z3  # noqa
import orient.planar  # noqa
from geomsym import specs  # noqa

os.makedirs(os.path.join(os.path.dirname(os.path.abspath(__file__)),
                         'evidence'), exist_ok=True)
print('z3', z3.get_version_string(), 'sympy', sympy.__version__,
      len(specs.CHECKS), 'checks')
