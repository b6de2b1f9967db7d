PROPERTY = "P05"
NEEDS = "independent spin magnitude model with different maximum spins for the two components"
BREAKS = "the secondary spin density uses the primary's maximum spin, so it has support beyond its own bound and does not integrate to one"
EDITS = [("models/parametric/parametric.py", "betadist(a2, alpha_mag2, beta_mag2, scale=amax2)", "betadist(a2, alpha_mag2, beta_mag2, scale=amax1)")]
DEMO = '''
import sys
import numpy as np
from gwinferno.models.parametric.parametric import independent_spin_magnitude_beta_dist as f
a = np.array([0.2, 0.3, 0.5])
b = np.array([0.6, 0.75, 0.9])
v = np.asarray(f(a, b, 2.0, 3.0, 2.0, 2.0, amax1=1.0, amax2=0.5))
print("density above the secondary's maximum spin", v)
sys.exit(0 if np.all(v == 0) else 1)
'''
