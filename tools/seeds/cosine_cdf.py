PROPERTY = 'P10'
NEEDS = 'a cosine distribution narrower than its default range and a value above its maximum'
BREAKS = 'the cumulative distribution is not clipped at the maximum: it exceeds one and comes down again'
EDITS = [
    ('numpyro_distributions.py', '        cdf = jnp.atleast_1d((jnp.sin(value) - jnp.sin(self.minimum)) / (jnp.sin(self.maximum) - jnp.sin(self.minimum)))\n        cdf = jnp.where(jnp.less(value, self.minimum), 0.0, cdf)\n        cdf = jnp.where(jnp.greater(value, self.maximum), 1.0, cdf)\n', '        cdf = jnp.atleast_1d((jnp.sin(value) - jnp.sin(self.minimum)) / (jnp.sin(self.maximum) - jnp.sin(self.minimum)))\n        cdf = jnp.where(jnp.less(value, self.minimum), 0.0, cdf)\n        cdf = jnp.where(jnp.greater(value, jnp.pi / 2.0), 1.0, cdf)\n'),
]
DEMO = '''
import sys
import numpy as np
from gwinferno.numpyro_distributions import Cosine
x = np.linspace(-1.5, 1.5, 61)
c = np.asarray(Cosine(minimum=-0.4, maximum=0.6).cdf(x))
print("largest value of the cdf", c.max())
sys.exit(0 if c.max() <= 1 + 1e-6 and np.all(np.diff(c) >= -1e-6) and abs(c[-1] - 1) < 1e-6 else 1)
'''
