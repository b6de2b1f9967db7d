PROPERTY = 'P13'
NEEDS = 'log weights so large or small that their squares leave the floating point range'
BREAKS = 'the effective number of samples in log mode is computed from exponentiated weights and overflows or vanishes'
EDITS = [
    ('pipeline/analysis.py', '        logn_effs = 2 * logBFs - logsumexp(2 * logweights, axis=1)', '        logn_effs = 2 * logBFs - jnp.log(jnp.sum(jnp.exp(logweights) ** 2, axis=1))'),
]
DEMO = '''
import sys
import numpy as np
from gwinferno.pipeline.analysis import per_event_log_bayes_factors as f
w = np.random.default_rng(1).normal(size=(3, 50))
n = [np.asarray(f(w + s, log=True)[1]) for s in (0.0, 60.0, -60.0)]
print("log effective numbers", n)
sys.exit(0 if all(np.allclose(n[0], k, atol=1e-3) for k in n) else 1)
'''
