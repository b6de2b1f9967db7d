PROPERTY = "P18"
NEEDS = "a cumulative injection file with second-run injections (name o2) found only by their signal-to-noise ratio"
BREAKS = "second-run injections above the SNR threshold are not counted as found, so the detection efficiency is biased"
EDITS = [("preprocess/selection.py", '(data["name"][()] == b"o1") | (data["name"][()] == b"o2")', '(data["name"][()] == b"o1")')]
DEMO = '''
import os, sys, tempfile
import h5py, numpy as np
from gwinferno.preprocess.selection import get_o3_cumulative_injection_dict as f
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "i.h5")
    with h5py.File(p, "w") as h:
        g = h.create_group("injections")
        n = 4
        for k, v in dict(mass1_source=[30.0, 40, 50, 60], mass2_source=[20.0, 30, 40, 50], redshift=[0.1, 0.2, 0.3, 0.4], sampling_pdf=[1.0, 1, 1, 1], ifar_gstlal=[0.0, 0, 5, 0], optimal_snr_net=[20.0, 20, 3, 20]).items():
            g[k] = np.array(v)
        g["name"] = np.array([b"o1", b"o2", b"o3", b"o3"])
        g.attrs["total_generated"] = 100
        h.attrs["analysis_time_s"] = 3.0e7
    r = f(p, ["mass_1", "redshift"], ifar=1, snr=10)
m = r.sel(param="mass_1").values
print("found", m)
sys.exit(0 if list(m) == [30.0, 40.0, 50.0] else 1)
'''
