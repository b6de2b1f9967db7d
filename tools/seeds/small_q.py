PROPERTY = 'P24'
NEEDS = 'a mass ratio below 0.05'
BREAKS = "the mass-ratio weight of the secondary's in-plane spin has a floor, so very unequal binaries precess too much"
EDITS = [
    ('preprocess/conversions.py', '((3.0 + 4.0 * q) / (4.0 + 3.0 * q)) * q * a2 * sint2)', '((3.0 + 4.0 * q) / (4.0 + 3.0 * q)) * math.maximum(q, 0.05) * a2 * sint2)'),
]
DEMO = '''
import sys
import numpy as np
from gwinferno.preprocess.conversions import chip_from_q_component_spins as f
q = np.array([0.5, 0.1, 0.02, 0.001])
got = f(q, 0.0, 0.9, 0.3, 0.0)
want = (3 + 4 * q) / (4 + 3 * q) * q * 0.9
print(got, want)
sys.exit(0 if np.allclose(got, want, rtol=1e-6) else 1)
'''
