PROPERTY = "P25"
NEEDS = "the redshift coefficient prior with a smoothing order for which the fixed leading coefficient enters a difference"
BREAKS = "the smoothing penalty leaves out the differences that involve the fixed leading zero, so the declared prior is not the one applied"
EDITS = [("pipeline/utils.py", "apply_difference_prior(z_cs, z_tau, degree=z_deg)", "apply_difference_prior(z_cs[1:], z_tau, degree=z_deg)")]
DEMO = '''
import sys
import numpy as np, jax
from numpyro import handlers
from gwinferno.pipeline.utils import bspline_redshift_prior
from gwinferno.models.bsplines.smoothing import apply_difference_prior
v = np.array([4.0, 1.0, -2.0, 0.5, 3.0])
with handlers.seed(rng_seed=0), handlers.substitute(data={"z_cs": v}), handlers.trace() as t:
    bspline_redshift_prior(z_nsplines=6, z_tau=2.0, z_deg=2)
site = t["z_smoothing_prior"]
got = float(site["fn"].log_prob(site["value"]).sum())
want = float(-0.5 * 2.0 * np.sum(np.diff(np.concatenate([[0], v]), n=2) ** 2))
print("penalty", got, "declared", want)
sys.exit(0 if abs(got - want) < 1e-3 * abs(want) else 1)
'''
