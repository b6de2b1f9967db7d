PROPERTY = "P15"
NEEDS = "the variance cut on, with the Monte Carlo variance of the last event deciding whether the total exceeds one"
BREAKS = "one event's variance is left out of the total, so an unconverged likelihood is accepted"
EDITS = [("pipeline/analysis.py", "Nobs**2 * variance + variances.sum(),", "Nobs**2 * variance + variances[: Nobs - 1].sum(),")]
DEMO = '''
import sys
import numpy as np, jax.numpy as jnp
from numpyro import handlers
from gwinferno.pipeline.analysis import hierarchical_likelihood
w = np.ones((3, 1000)); w[2] = 1e-6; w[2, 0] = 1.0
with handlers.seed(rng_seed=0), handlers.trace() as t:
    hierarchical_likelihood(jnp.array(w), jnp.ones(1000), 2000, 3, 1.0, surveyed_hypervolume=1e9, min_neff_cut=False, max_variance_cut=True)
v, l = float(t["variance_log_BFs"]["value"].sum()), float(t["log_likelihood"]["fn"].log_factor)
print("variance", v, "log likelihood", l)
# the last event's variance alone is 0.999; the detection efficiency adds 9 / 2000
sys.exit(0 if l < -1e30 else 1)
'''
