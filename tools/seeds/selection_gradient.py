PROPERTY = 'P28'
NEEDS = "marginalisation over the selection uncertainty and hyper-parameters that change the injections' effective number"
BREAKS = 'the correction for the selection uncertainty is left out of the gradient, so gradients are not the derivative of the likelihood'
EDITS = [
    ('pipeline/analysis.py', 'from jax import random\n', 'from jax import lax\nfrom jax import random\n'),
    ('pipeline/analysis.py', '        log_det_eff = log_det_eff - (3 + Nobs) / (2 * jnp.exp(logn_eff_inj))', '        log_det_eff = log_det_eff - (3 + Nobs) / (2 * jnp.exp(lax.stop_gradient(logn_eff_inj)))'),
]
DEMO = '''
import sys
import numpy as np
import jax
import jax.numpy as jnp
from numpyro.infer.util import log_density
import numpyro
import numpyro.distributions as dist
from gwinferno.pipeline.analysis import hierarchical_likelihood as h
jax.config.update("jax_enable_x64", True)
rng = np.random.default_rng(0)
x, y = jnp.asarray(rng.uniform(0, 1, (2, 50))), jnp.asarray(rng.uniform(0, 1, 60))
def m():
    a = numpyro.sample("a", dist.Normal(0, 3))
    h(jnp.exp(a * x), jnp.exp(a * y), 500.0, 2, 1.0, reconstruct_rate=False, marginalize_selection=True)
f = lambda a: log_density(m, (), {}, {"a": a})[0]
g, n = float(jax.grad(f)(3.0)), float((f(3.0 + 1e-5) - f(3.0 - 1e-5)) / 2e-5)
print("gradient", g, "difference quotient", n)
sys.exit(0 if abs(g - n) < 1e-4 * (1 + abs(n)) else 1)
'''
