PROPERTY = "P30"
NEEDS = "found injections at higher redshift than every loaded posterior sample, analysed with a model that has density there"
BREAKS = "the loader drops those injections to save time, so the detection efficiency of the analysis is no longer that of the injection file"
EDITS = [("pipeline/utils.py", "    param_names = list(data.pe_data.param.values)\n", "    if \"redshift\" in injdict:\n        # beyond the most distant sample the redshift model has no support\n        near = injdict[\"redshift\"] <= jnp.max(pedict[\"redshift\"])\n        injdict = {k: v[near] for k, v in injdict.items()}\n\n    param_names = list(data.pe_data.param.values)\n")]
DEMO = '''
import os, sys, tempfile
import numpy as np, xarray as xr
from gwinferno.preprocess.data_collection import save_posterior_samples_and_injection_datasets_as_idata as save
from gwinferno.pipeline.utils import load_pe_and_injections_as_dict as load
rng = np.random.default_rng(0)
names = ["mass_1", "redshift", "prior"]
pe = xr.DataArray(rng.uniform(0.1, 0.5, (2, 3, 20)), dims=["event", "param", "draw"], coords={"event": ["a", "b"], "param": names, "draw": np.arange(20)}, name="posteriors")
pe = xr.Dataset({"posteriors": pe})
v = rng.uniform(0.1, 1.5, (3, 50))
inj = xr.DataArray(v, dims=["param", "injection"], coords={"param": names, "injection": np.arange(50)})
inj = xr.Dataset({"injections": inj}, attrs={"total_generated": 1000, "analysis_time": 1.0})
with tempfile.TemporaryDirectory() as d:
    f = os.path.join(d, "x.h5")
    save(f, pe, inj)
    _, i, c, _ = load(f)
got = np.sort(np.asarray(i["redshift"]))
print("injections saved 50, loaded", got.size)
sys.exit(0 if got.size == 50 and np.allclose(got, np.sort(v[1]), rtol=1e-5) else 1)
'''
