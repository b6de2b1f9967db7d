PROPERTY = "P20"
NEEDS = "an event with samples on both sides of the maximum primary mass where the sample's secondary is below it"
BREAKS = "the cut removes samples by secondary mass, so samples above the maximum primary mass stay in the catalogue"
EDITS = [("preprocess/data_collection.py", 'sel = catalog_dict[ev]["posterior"][param_mapping["mass_1"]] < mmax', 'sel = catalog_dict[ev]["posterior"][param_mapping["mass_2"]] < mmax')]
DEMO = '''
import sys
import numpy as np
from gwinferno.preprocess.data_collection import processed_catalog_dataset_from_dict as f
n = 50
names = ["mass_1_source", "mass_2_source", "mass_ratio", "redshift", "a_1", "a_2", "cos_tilt_1", "cos_tilt_2"]
post = np.zeros(n, dtype=[(k, float) for k in names])
post["mass_1_source"] = np.linspace(60, 140, n); post["mass_2_source"] = 40.0; post["mass_ratio"] = 40.0 / post["mass_1_source"]
post["redshift"] = 0.3
ds = f({"GW1": {"posterior": post, "redshift_prior": "comoving", "catalog": "GWTC-2"}}, mmax=100.0)
m = ds["GW1"].sel(param="mass_1").values
print("largest primary mass kept", m.max())
sys.exit(0 if m.max() <= 100 else 1)
'''
