PROPERTY = "P26"
NEEDS = "independent spin curves with different tilt coefficients for the two components"
BREAKS = "the secondary tilt curve is computed from the primary's coefficients"
EDITS = [("postprocess/calculations.py", "p_ct2 = tilt_model.secondary_model(ct_cs_2)", "p_ct2 = tilt_model.secondary_model(ct_cs_1 if ct_cs_1.shape == ct_cs_2.shape else ct_cs_2)")]
DEMO = '''
import sys
import numpy as np, jax.numpy as jnp
from gwinferno.postprocess.calculations import calculate_bspline_spin_ppds as f
rng = np.random.default_rng(1)
a1, t1, a2, t2 = [jnp.array(rng.normal(0, 1, (2, 7))) for _ in range(4)]
n = {"a1": 7, "a2": 7, "tilt1": 7, "tilt2": 7}
_, _, _, _, ct2, _ = f(a1, t1, n, a2_cs=a2, tilt2_cs=t2)
_, _, _, other, _, _ = f(a2, t2, n, a2_cs=a1, tilt2_cs=t1)
d = float(np.abs(ct2 - other).max())
print("largest difference", d)
sys.exit(0 if d < 1e-4 else 1)
'''
