PROPERTY = "P12"
NEEDS = "a distance query beyond the table first (which rebuilds the shared table), then any low-redshift query on the same cosmology object"
BREAKS = "an extension triggered by z2DL rebuilds the whole table with a step proportional to the largest redshift asked for, so later answers lose accuracy with the history of queries"
EDITS = [("cosmology.py", "        if max_z > jnp.max(self.z):\n            self.extend(max_z=max_z, dz=dz)", "        if max_z > jnp.max(self.z):\n            self.extend(max_z=max_z, dz=jnp.maximum(dz, max_z / 500))")]
DEMO = '''
import sys
import numpy as np
from gwinferno.cosmology import Cosmology
kw = dict(Ho=67900.0, omega_matter=0.3065, omega_radiation=0.0, omega_lambda=0.6935, max_z=0.5)
a, b = Cosmology(**kw), Cosmology(**kw)
a.z2DL(np.array([25.0]))
z = np.array([0.0131, 0.0517])
x, y = np.asarray(a.z2DL(z)), np.asarray(b.z2DL(z))
print("after history", x, "fresh", y)
sys.exit(0 if np.allclose(x, y, rtol=1e-3) else 1)
'''
