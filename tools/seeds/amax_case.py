PROPERTY = 'P23'
NEEDS = 'a maximum spin other than one and an effective spin in the outermost piece of the density'
BREAKS = 'one coefficient that multiplies the logarithm of the maximum spin is wrong, so the density is neither continuous nor normalised unless the maximum spin is one'
EDITS = [
    ('preprocess/priors.py', '                + np.log(a_max) * (a_max - 2.0 * (1.0 + q) * chi_eff - (1.0 + q)', '                + np.log(a_max) * (a_max - (1.0 + q) * chi_eff - (1.0 + q)'),
]
DEMO = '''
import sys
import numpy as np
from gwinferno.preprocess.priors import chi_effective_prior_from_isotropic_spins as f
x = np.linspace(-0.6, 0.6, 60002)
t = [float(np.trapz(f(x * s, 0.8, a_max=0.6 * s), x * s)) for s in (1 / 0.6, 1.0)]
print("integrals for maximum spin 1 and 0.6:", t)
sys.exit(0 if all(abs(v - 1) < 3e-3 for v in t) else 1)
'''
