PROPERTY = 'P11'
NEEDS = 'a cosmology with a radiation density'
BREAKS = 'radiation is diluted like matter, so distances are wrong in every cosmology with radiation'
EDITS = [
    ('cosmology.py', 'self.OmegaRadiation * one_plus_z**4\n        ) ** 0.5', 'self.OmegaRadiation * one_plus_z**3\n        ) ** 0.5'),
]
DEMO = '''
import sys
import numpy as np
from gwinferno.cosmology import Cosmology
from scipy.integrate import quad
ok = True
for orad in (0.0, 0.0625):
    c = Cosmology(67740.0, 0.25, orad, 0.75 - orad, max_z=3.0)
    want = 299792458.0 / 67740.0 * quad(lambda z: (0.75 - orad + 0.25 * (1 + z) ** 3 + orad * (1 + z) ** 4) ** -0.5, 0, 2)[0]
    got = float(c.z2Dc(np.array([2.0]))[0])
    print(orad, got, want)
    ok &= abs(got / want - 1) < 2e-3
sys.exit(0 if ok else 1)
'''
