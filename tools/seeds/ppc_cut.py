PROPERTY = "P16"
NEEDS = "posterior-predictive draws with a secondary mass cut different from the primary one and injections with a secondary mass between the two"
BREAKS = "the predicted draws exclude injections whose secondary mass is between the secondary and the primary cut, although they are inside the cuts"
EDITS = [("pipeline/analysis.py", 'injdata["mass_1"] * injdata["mass_ratio"], m2min)', 'injdata["mass_1"] * injdata["mass_ratio"], m1min)')]
DEMO = '''
import sys
import numpy as np, jax.numpy as jnp
from numpyro import handlers
from gwinferno.pipeline.analysis import hierarchical_likelihood
m = np.array([10.0, 12.0, 11.0, 20.0]); q = np.array([0.35, 0.35, 0.38, 0.9])
pe = {"mass_1": jnp.full((3, 4), 30.0), "mass_ratio": jnp.full((3, 4), 0.9)}
inj = {"mass_1": jnp.array(m), "mass_ratio": jnp.array(q)}
w = jnp.array([1.0, 1.0, 1.0, 1e-6])
with handlers.seed(rng_seed=0), handlers.trace() as t:
    hierarchical_likelihood(jnp.ones((3, 4)), w, 100, 3, 1.0, surveyed_hypervolume=1e9, min_neff_cut=False, posterior_predictive_check=True, param_names=["mass_1"], pedata=pe, injdata=inj, m1min=5.0, m2min=3.0)
p = [float(t[f"mass_1_pred_event_{i}"]["value"]) for i in range(3)]
print("predicted", p)
sys.exit(0 if all(v < 15 for v in p) else 1)
'''
