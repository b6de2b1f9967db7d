PROPERTY = "P01"
NEEDS = "a spline whose basis functions (at some order of the recursion) are narrower than 1e-3: a narrow domain or many basis functions"
BREAKS = "those basis functions are returned as zero, so the design matrix no longer holds the spline basis and no longer sums to one"
EDITS = [("interpolation.py", "if self.knots[i + k] - self.knots[i] < 1e-6:", "if self.knots[i + k] - self.knots[i] < 1e-3:")]
DEMO = '''
import sys
import numpy as np
from gwinferno.interpolation import BSpline
s = BSpline(14, xrange=(0.0, 0.01), k=4)
x = np.linspace(0.0005, 0.0095, 31)
tot = np.asarray(s.bases(x)).sum(0)
print("sum of the basis functions", tot.min(), tot.max())
sys.exit(0 if np.allclose(tot, 1, atol=1e-3) else 1)
'''
