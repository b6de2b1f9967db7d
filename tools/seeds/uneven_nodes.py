PROPERTY = 'P03'
NEEDS = 'nodes that are not evenly spaced'
BREAKS = 'the upper diagonal of the spline system takes the spacing of the neighbouring interval, so curvature is not continuous across nodes'
EDITS = [
    ('interpolation.py', '            upper_diag1 = jnp.diag(jnp.concatenate((A01, h[1:])), k=1)', '            upper_diag1 = jnp.diag(jnp.concatenate((A01, h[:-1])), k=1)'),
]
DEMO = '''
import sys
import numpy as np
from scipy.interpolate import CubicSpline
from gwinferno.interpolation import NaturalCubicUnivariateSpline as N
x = np.array([0.0, 0.1, 0.5, 0.7, 1.6, 2.0]); y = np.sin(3 * x)
q = np.linspace(0, 2, 101)
d = np.abs(np.asarray(N(x, y)(q)) - CubicSpline(x, y, bc_type="natural")(q)).max()
print("largest difference from the natural cubic spline", d)
sys.exit(0 if d < 1e-3 else 1)
'''
