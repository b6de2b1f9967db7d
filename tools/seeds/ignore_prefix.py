PROPERTY = "P22"
NEEDS = "an ignored event whose name is the beginning of another event's name (GW190521 and GW190521_074359)"
BREAKS = "events that were not named are dropped from the analysis"
EDITS = [("pipeline/utils.py", 'sel += data.pe_data["event"] == gw', 'sel += data.pe_data["event"].str.startswith(gw)')]
DEMO = '''
import os, sys, tempfile
import numpy as np, xarray as xr
from gwinferno.preprocess.data_collection import save_posterior_samples_and_injection_datasets_as_idata as save
from gwinferno.pipeline.utils import load_pe_and_injections_as_dict as load
ev = ["GW190521", "GW190521_074359", "GW150914"]
pe = xr.DataArray(np.arange(24.0).reshape(3, 2, 4), dims=["event", "param", "samples"], coords={"event": ev, "param": ["mass_1", "prior"], "samples": np.arange(4)}).to_dataset(name="posteriors")
inj = xr.DataArray(np.ones((2, 5)), dims=["param", "injection"], coords={"param": ["mass_1", "prior"], "injection": np.arange(5)}, attrs={"total_generated": 10, "analysis_time": 1.0}).to_dataset(name="injections", promote_attrs=True)
with tempfile.TemporaryDirectory() as d:
    f = os.path.join(d, "x.h5")
    save(f, pe, inj)
    p, i, c, n = load(f, ignore=["GW190521"])
print("kept", p["mass_1"].shape, c["nObs"])
sys.exit(0 if p["mass_1"].shape == (2, 4) and c["nObs"] == 2 else 1)
'''
