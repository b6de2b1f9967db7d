PROPERTY = 'P02'
NEEDS = 'log-y spline coefficients all well below zero, so that the unnormalised density integrates to less than 1e-8'
BREAKS = 'the normalisation integral is bounded away from zero, so such splines no longer integrate to one'
EDITS = [
    ('interpolation.py', '        n = 1.0 / trapezoid(self._project(self.grid_bases, coefs), self.grid) if self.normalize else 1.0', '        n = 1.0 / jnp.maximum(trapezoid(self._project(self.grid_bases, coefs), self.grid), 1e-8) if self.normalize else 1.0'),
]
DEMO = '''
import sys
import numpy as np
from gwinferno.interpolation import LogYBSpline
b = LogYBSpline(8, xrange=(0, 1))
x = np.linspace(0, 1, 4001)
t = [float(np.trapz(np.asarray(b(x, np.full(8, c))), x)) for c in (0.0, -10.0, -25.0)]
print("integrals", t)
sys.exit(0 if all(abs(v - 1) < 1e-2 for v in t) else 1)
'''
