"""What is trusted; copied into every evidence file."""
from . import models

TRUSTED = ['engine/: symbolic executor and obligation generator written for this project (core, interp, loops, models, spec)',
           'z3 4.x (python3-vt z3-solver) for first-order obligations',
           'engine/prove.py with sympy: ring/trigonometric normal forms for equations over sin, cos, sqrt, atan2, Fresnel integrals'] + list(models.TRUSTED)
ASSUMPTIONS = ['floating point arithmetic is treated as real arithmetic; str(number) is treated as a faithful rendering of the number',
               'library functions (numpy, scipy.special.fresnel, scipy.integrate.quad, xml.etree, minidom, copy, enum) have the meaning modelled in engine/models.py',
               'termination of while loops is not proved',
               'user-level monkey patching, reflection and concurrent access from several threads are outside the contracts']
