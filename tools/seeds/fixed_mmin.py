PROPERTY = 'P09'
NEEDS = 'a minimum mass passed to the call that differs from the one the model was built with'
BREAKS = "the joint mass and ratio density is divided by the integral for the construction's minimum mass instead of the requested one"
EDITS = [
    ('models/spline_perturbation.py', '        norm = self.norm_pm1q(beta=beta, mmin=mmin, vs=vs, **kwargs)', '        norm = self.norm_pm1q(beta=beta, mmin=self.mmin, vs=vs, **kwargs)'),
]
DEMO = '''
import sys
import numpy as np
import jax.numpy as jnp
from gwinferno.models.spline_perturbation import PowerlawBasisSplinePrimaryRatio as M
ms, s = np.linspace(6.0, 80.0, 500), np.linspace(0, 1, 300)
m1, t = np.meshgrid(ms[1:], s)
q = 6.0 / m1 + (1 - 6.0 / m1) * t
m1f, qf = m1.ravel(), np.clip(q.ravel(), 0, 1)
m = M(8, 6, m1f[None, :4], qf[None, :4], m1f, qf, mmin=3.0, mmax=80.0)
p = np.asarray(m(jnp.asarray(m1f), jnp.asarray(qf), alpha=2.0, beta=1.0, mmin=6.0, mmax=80.0, cs=jnp.array([3.0, 3, 2, 0, 0, 0, 0, 0]), vs=jnp.zeros(6))).reshape(m1.shape)
inner = np.trapz(p, q, axis=0)
tot = np.trapz(inner, ms[1:])
print("integral over the plane", tot)
sys.exit(0 if abs(tot - 1) < 0.1 else 1)
'''
