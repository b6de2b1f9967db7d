PROPERTY = 'P14'
NEEDS = 'a Monte Carlo sum that is not a number (an undefined weight) with the effective-sample cut off'
BREAKS = 'an undefined log-likelihood is turned into zero instead of the lowest finite value'
EDITS = [
    ('pipeline/analysis.py', '            jnp.isnan(log_l),\n            jnp.nan_to_num(-jnp.inf),\n            jnp.nan_to_num(log_l),\n', '            jnp.isinf(log_l),\n            jnp.nan_to_num(-jnp.inf),\n            jnp.nan_to_num(log_l),\n'),
]
DEMO = '''
import sys
import numpy as np
import jax.numpy as jnp
from numpyro.handlers import seed, trace
from gwinferno.pipeline.analysis import hierarchical_likelihood as h
pe = np.random.default_rng(0).uniform(0.5, 1.5, (2, 60)); pe[1, 3] = np.nan
inj = np.random.default_rng(1).uniform(0.5, 1.5, 400)
def m():
    h(jnp.asarray(pe), jnp.asarray(inj), 1000.0, 2, 1.0, reconstruct_rate=False, min_neff_cut=False)
v = float(trace(seed(m, 0)).get_trace()["log_likelihood"]["fn"].log_factor)
print("log likelihood with an undefined weight", v)
sys.exit(0 if v < -1e30 else 1)
'''
