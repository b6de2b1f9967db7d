PROPERTY = "P07"
NEEDS = "a joint mass and mass-ratio spline model with different minimum primary and secondary masses"
BREAKS = "the mass-ratio spline starts at minimum primary over maximum mass instead of minimum secondary over maximum mass"
EDITS = [("models/bsplines/separable.py", "qmin=m2min / mmax,", "qmin=m1min / mmax,")]
DEMO = '''
import sys
import numpy as np
from gwinferno.models.bsplines.separable import BSplinePrimaryBSplineRatio
from gwinferno.models.bsplines.single import BSplineMass, BSplineRatio
m, q = np.array([[20.0, 40.0, 80.0]]), np.array([[0.03, 0.06, 0.5]])
cm, cq = np.linspace(0, 1, 8), np.linspace(1, 0, 7)
j = BSplinePrimaryBSplineRatio(8, 7, m, m[0], q, q[0], m1min=10.0, m2min=2.0, mmax=100.0)
ref = BSplineMass(8, m, m[0], mmin=10.0, mmax=100.0)(cm) * BSplineRatio(7, q, q[0], qmin=0.02)(cq)
got = j(cm, cq)
print("joint", got, "factors", ref)
sys.exit(0 if np.allclose(got, ref, rtol=1e-4) else 1)
'''
