PROPERTY = 'P21'
NEEDS = 'events whose names are not in alphabetical order'
BREAKS = "effective spins are labelled with the sorted event names, so they are attached to other events' samples"
EDITS = [
    ('preprocess/data_collection.py', '            coords={"event": dat_array.event, "param": ["chi_eff"], "samples": dat_array.samples},', '            coords={"event": np.sort(dat_array.event), "param": ["chi_eff"], "samples": dat_array.samples},'),
]
DEMO = '''
import sys
import numpy as np
import xarray as xr
from gwinferno.preprocess.data_collection import convert_component_spins_to_chieff as f
rng = np.random.default_rng(2)
par = ["mass_1", "mass_2", "mass_ratio", "redshift", "a_1", "a_2", "cos_tilt_1", "cos_tilt_2", "prior"]
ok = True
for ev in (["GW1", "GW2", "GW3"], ["GW3", "GW1", "GW2"]):
    d = xr.DataArray(rng.uniform(0.1, 0.9, (3, 9, 4)), dims=["event", "param", "samples"], coords=dict(event=ev, param=par, samples=np.arange(4)))
    o = f(d, ["mass_1", "mass_ratio", "redshift", "chi_eff"])
    for e in ev:
        g = lambda p: d.sel(event=e, param=p).values
        want = (g("a_1") * g("cos_tilt_1") + g("mass_ratio") * g("a_2") * g("cos_tilt_2")) / (1 + g("mass_ratio"))
        ok &= bool(np.allclose(o.sel(event=e, param="chi_eff").values, want, atol=1e-5))
print("effective spins belong to their events:", ok)
sys.exit(0 if ok else 1)
'''
