PROPERTY = "P08"
NEEDS = "injections that start at a higher redshift than the posterior samples (or the reverse)"
BREAKS = "the normalisation integral starts below the range shared by samples and injections, so the density does not integrate to one over the shared range"
EDITS = [("models/bsplines/single.py", "self.zmin = jnp.max(jnp.array([jnp.min(z), jnp.min(z_inj)]))", "self.zmin = jnp.min(jnp.array([jnp.min(z), jnp.min(z_inj)]))")]
DEMO = '''
import sys
import numpy as np, jax.numpy as jnp
from gwinferno.models.bsplines.single import BSplineRedshift
from gwinferno.cosmology import PLANCK_2015_LVK_Cosmology as C
z = jnp.linspace(0.02, 1.5, 400).reshape(2, 200); zi = jnp.linspace(0.6, 1.4, 2001)
m = BSplineRedshift(8, z, zi, C.dVcdz(z), C.dVcdz(zi), normalize=False)
p = np.asarray(m(jnp.linspace(-0.5, 0.5, 8), pe_samples=False))
i = float(np.trapz(p, np.asarray(zi)))
print("integral over the shared range", i)
sys.exit(0 if abs(i - 1) < 0.01 else 1)
'''
