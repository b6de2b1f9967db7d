PROPERTY = "P19"
NEEDS = "a reweighting whose effective number is small compared with the number of found injections but whose weights are uneven"
BREAKS = "injections are drawn without replacement, so heavy injections are under-represented and estimates from the resampled set are biased"
EDITS = [("preprocess/selection.py", "replace=True, p=p)", "replace=N > Ndet // 2, p=p)")]
DEMO = '''
import sys
import numpy as np, jax, jax.numpy as jnp
from gwinferno.preprocess.selection import resample_injections
n = 40
x = np.zeros(n); x[0] = 1.0
data = jnp.array([x, np.ones(n)])
model = lambda d: jnp.where(d[0] > 0.5, 9.0, 1.0)
fr = []
for s in range(300):
    new, N, neff = resample_injections(jax.random.PRNGKey(s), model, data, 100, {"x": 0, "prior": 1})
    fr.append(float((new[0] > 0.5).mean()))
f = float(np.mean(fr)); want = 9 / (9 + 39)
print("N", N, "fraction of the heavy injection", f, "expected", want)
sys.exit(0 if abs(f - want) < 0.02 else 1)
'''
