PROPERTY = "P17"
NEEDS = "the same model object run a second time with other hyper-parameter values and a parameter declared identically distributed"
BREAKS = "the shared parameter keeps the distribution of the first run, so later likelihood evaluations mix old and new hyper-parameters"
EDITS = [("pipeline/analysis.py", "pop_models[shared_param] = pop_models[param]", "pop_models[shared_param] = pop_models[shared_param] or pop_models[param]")]
DEMO = '''
import sys
import numpy as np, jax.numpy as jnp
import numpyro.distributions as dist
from numpyro import handlers
from gwinferno.numpyro_distributions import PowerlawRedshift
from gwinferno.pipeline.analysis import construct_hierarchical_model
from gwinferno.pipeline.parser import PopModel, PopPrior
rng = np.random.default_rng(0)
md = {"a_1": PopModel(dist.Normal, ["loc", "scale"]), "a_2": "a_1", "redshift": PopModel(PowerlawRedshift, ["lamb", "maximum"])}
pd = {"a_1_loc": PopPrior(dist.Normal, {"loc": 0.0, "scale": 1.0}), "a_1_scale": 1.0, "redshift_lamb": 1.0, "redshift_maximum": 1.0}
def data(s):
    d = {k: jnp.array(rng.uniform(0.1, 0.9, s)) for k in ("a_1", "a_2", "redshift")}
    d["prior"] = jnp.ones(s); d["mass_1"] = jnp.full(s, 30.0); d["mass_ratio"] = jnp.full(s, 0.8)
    return d
pe, inj = data((2, 50)), data((300,))
def run(m, v):
    with handlers.seed(rng_seed=0), handlers.substitute(data={"a_1_loc": jnp.array(v), "unscaled_rate": jnp.array(1.0)}), handlers.trace() as t:
        m(pe, inj, 1000.0, 2, 1.0)
    return np.asarray(t["logBFs"]["value"])
new = lambda: construct_hierarchical_model(md, pd, posterior_predictive_check=False)
m = new()
run(m, 0.0)
a, b = run(m, 2.0), run(new(), 2.0)
print("second run", a, "fresh model", b)
sys.exit(0 if np.allclose(a, b, rtol=1e-5) else 1)
'''
