PROPERTY = 'P29'
NEEDS = 'two sets of samples of equal shape with the same smallest and largest value given to one spline'
BREAKS = 'design matrices are kept per shape and range of the samples, so the second set gets the matrix of the first'
EDITS = [
    ('interpolation.py', '        design_matrix = jnp.concatenate(self._bases(xs)).reshape(self.N, *xs.shape)\n        return jnp.where(jnp.less(xs, self.xrange[0])', '        made = self.__dict__.setdefault("_made", {})\n        key = (np.shape(xs), float(np.min(xs)), float(np.max(xs)))\n        if key not in made:\n            made[key] = jnp.concatenate(self._bases(xs)).reshape(self.N, *xs.shape)\n        design_matrix = made[key]\n        return jnp.where(jnp.less(xs, self.xrange[0])'),
]
DEMO = '''
import sys
import numpy as np
from gwinferno.interpolation import BSpline
x = np.array([0.05, 0.2, 0.45, 0.9])
y = np.array([0.05, 0.6, 0.7, 0.9])
c = np.arange(8.0)
b = BSpline(8)
first = np.asarray(b(x, c)), np.asarray(b(y, c))
fresh = np.asarray(BSpline(8)(y, c))
d = np.abs(first[1] - fresh).max()
print("difference between a used and a fresh spline", d)
sys.exit(0 if d < 1e-5 else 1)
'''
