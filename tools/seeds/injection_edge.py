PROPERTY = "P06"
NEEDS = "an injection exactly on the lower edge of the model's range (e.g. zero spin magnitude)"
BREAKS = "the same parameter value has the spline's density as a posterior sample and zero density as an injection"
EDITS = [("models/bsplines/single.py", "self._valid_xx_inj = (xx_inj >= self.xmin) & (xx_inj <= self.xmax)", "self._valid_xx_inj = (xx_inj > self.xmin) & (xx_inj <= self.xmax)")]
DEMO = '''
import sys
import numpy as np
from gwinferno.models.bsplines.single import BSplineSpinMagnitude
x = np.array([0.0, 0.25, 0.5])
m = BSplineSpinMagnitude(8, x.reshape(1, 3), x)
c = np.linspace(1.0, -1.0, 8)
a, b = np.asarray(m(c, pe_samples=True))[0], np.asarray(m(c, pe_samples=False))
print("samples", a, "injections", b)
sys.exit(0 if np.allclose(a, b) and (a > 0).all() else 1)
'''
