PROPERTY = 'P04'
NEEDS = 'a truncated (log-)normal whose bounds hold less than 0.1% of the untruncated normal'
BREAKS = 'the truncation normalisation is bounded from below, so densities truncated to the tail do not integrate to one'
EDITS = [
    ('distributions.py', '    norm = continuous_norm / denom\n', '    norm = continuous_norm / jnp.maximum(denom, 1e-3)\n'),
]
DEMO = '''
import sys
import numpy as np
from gwinferno.distributions import truncnorm_pdf
x = np.linspace(3.4, 5, 20001)
t = float(np.trapz(np.asarray(truncnorm_pdf(x, 0.0, 1.0, 3.4, 5.0)), x))
print("integral", t)
sys.exit(0 if abs(t - 1) < 1e-2 else 1)
'''
