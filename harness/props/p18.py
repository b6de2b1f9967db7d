import os
import shutil
import tempfile

import h5py
import numpy as np

from gwinferno.preprocess import data_collection as DC
from gwinferno.preprocess import selection as SE

TECHNIQUE = "runtime monitoring: generated injection files processed by the real code, every kept injection traced back to its file row and its draw density recomputed independently"
RULE = ("random O3-style and O4a-style injection files (several pipelines, thresholds, observing runs, attribute names, with and without in-plane spins, float32/float64 columns) x requested parameters x thresholds and additional cuts; "
        "non-trivial = found set, order, parameters, draw density and attributes compared with the file")
ASSUMPTIONS = ["non-zero spin magnitudes where spins are requested", "log draw densities above -60 (representable)"]
SEC = 365.25 * 24 * 60 * 60
PIPE3 = ["ifar_gstlal", "ifar_pycbc_bbh", "ifar_cwb", "IFAR_mbta"]
PIPE4 = ["gstlal_far", "pycbc_far", "mbta_far", "cwb-bbh_far", "far_gstlal", "o4_far_spiir", "pycbc_highmass_far"]
PARAMS = [["mass_1", "mass_ratio", "redshift"], ["mass_1", "mass_2", "redshift"], ["mass_1", "mass_ratio", "redshift", "a_1", "a_2", "cos_tilt_1", "cos_tilt_2"],
          ["mass_1", "redshift", "a_1", "a_2", "cos_tilt_1", "cos_tilt_2"], ["redshift"], ["mass_ratio", "mass_1"], ["mass_1", "mass_2", "a_1", "cos_tilt_1"]]


def columns(rng, n, m=(5, 100), q=(0.05, 1), z=(0.01, 1.9), a=(0.05, 0.99), ct=(-1, 1)):
    (alo, ahi), (clo, chi) = a, ct
    m1 = rng.uniform(*m, n)
    c = {"mass1_source": m1, "mass2_source": m1 * rng.uniform(*q, n), "redshift": rng.uniform(*z, n)}
    for i in (1, 2):
        a = rng.uniform(alo, ahi, n)
        ct, ph = rng.uniform(clo, chi, n), rng.uniform(0, 2 * np.pi, n)
        st = np.sqrt(1 - ct**2)
        c[f"spin{i}x"], c[f"spin{i}y"], c[f"spin{i}z"] = a * st * np.cos(ph), a * st * np.sin(ph), a * ct
    return c


def away(x, thr, rng=None):
    """values clearly on one side of the threshold, a few exactly on it"""
    x = np.where(np.abs(x / thr - 1) < 1e-3, thr * 1.5, x)
    if rng is not None:
        x = np.where(rng.random(x.shape) < 0.06, thr, x)
    return x


def attr_time(rng):
    return str(rng.choice(["analysis_time", "total_analysis_time", "analysis_time_s"])), float(rng.uniform(1e6, 1e8))


def judge(rec, arr, cols, found, prior, names, total, secs, what, exact_names=None):
    p = list(arr.param.values)
    rec.true(int(arr.sizes["injection"]) == int(found.sum()), f"{what}: exactly the found injections are kept", got=int(arr.sizes["injection"]), want=int(found.sum()))
    if int(arr.sizes["injection"]) != int(found.sum()):
        return
    rec.ev("injections-kept", int(found.sum()))
    c = {k: v[found] for k, v in cols.items()}
    want = {"mass_1": c["mass1_source"], "mass_2": c["mass2_source"], "mass_ratio": c["mass2_source"] / c["mass1_source"], "redshift": c["redshift"]}
    if "a_1" in names or "a_1" in p:
        for i in (1, 2):
            a = np.sqrt(c[f"spin{i}x"] ** 2 + c[f"spin{i}y"] ** 2 + c[f"spin{i}z"] ** 2)
            want[f"a_{i}"], want[f"cos_tilt_{i}"] = a, c[f"spin{i}z"] / a
    if exact_names is not None:
        rec.true(set(p) == set(exact_names) and len(p) == len(set(p)), f"{what}: exactly the requested parameters and the prior", got=p, want=sorted(exact_names))
    else:
        rec.true(set(names) | {"prior"} <= set(p), f"{what}: requested parameters present", got=p, want=names)
    for k in p:
        if k == "prior":
            rec.close(arr.sel(param=k).values, prior[found], f"{what}: draw density", rec.tol(1e-5, 1e-5 if not rec.x64 else 1e-6) if "O4a" in what else 1e-6)
        elif k in want:
            rec.close(arr.sel(param=k).values, want[k], f"{what}: {k}", 2e-6)
            if k.startswith("cos_tilt"):
                rec.true(np.abs(arr.sel(param=k).values) <= 1, f"{what}: cosines stay within [-1, 1]", worst=float(np.abs(arr.sel(param=k).values).max(initial=0)) - 1)
        else:
            rec.true(False, f"{what}: unexpected parameter {k}")
    rec.close(float(arr.attrs["total_generated"]), float(total), f"{what}: total number generated", 1e-12)
    rec.close(float(arr.attrs["analysis_time"]), secs / SEC, f"{what}: analysis time in years", 1e-6)


def density(names, cols, base):
    p = base.astype(float).copy()
    if "mass_ratio" in names:
        p = p * cols["mass1_source"]
    if "a_1" in names:
        for i in (1, 2):
            p = p * 2 * np.pi * (cols[f"spin{i}x"] ** 2 + cols[f"spin{i}y"] ** 2 + cols[f"spin{i}z"] ** 2)
    return p


def write_o3(rec, path, n, thr, snr, spread=3.0, **box):
    """an O1-O3 style file; returns the float64 columns, the found set, base density, total, seconds and the extra cuts"""
    rng = rec.rng
    cols = columns(rng, n, **box)
    planar = rng.random() < 0.75
    pipes = [PIPE3[i] for i in rng.permutation(4)[: rng.integers(1, 4)]]
    f32 = rng.random() < 0.3
    base = np.exp(rng.normal(-8, spread, n))
    key, secs = attr_time(rng)
    total = int(rng.choice([n * 3, 77_000_000, 5_000_000_000]))
    if not planar:
        for i in (1, 2):
            cols[f"spin{i}x"], cols[f"spin{i}y"] = np.zeros(n), np.zeros(n)
    if f32:
        cols = {k: v.astype(np.float32) for k, v in cols.items()}
    found = np.zeros(n, bool)
    named = rng.random() < 0.5
    cuts = None
    with h5py.File(path, "w") as f:
        g = f.create_group("injections")
        for k, v in cols.items():
            if planar or not k.endswith(("x", "y")):
                g[k] = v
        g["sampling_pdf"] = base
        for p in pipes:
            x = away(10 ** rng.uniform(-3, 3, n), thr, rng)
            g[p] = x
            found |= x > thr
        if named:
            run = rng.choice([b"o1", b"o2", b"o3"], n)
            s = away(rng.uniform(3, 20, n), snr, rng)
            g["name"], g["optimal_snr_net"] = run, s
            found |= ((run == b"o1") | (run == b"o2")) & (s > snr)
        if rng.random() < 0.4:
            ct = float(rng.uniform(11, 15))
            s2 = away(rng.uniform(3, 20, n), ct, rng)
            odd = rng.random(n) < float(rng.choice([0, 0.1]))
            s2 = np.where(odd, rng.choice([np.inf, np.nan, -np.inf, 0.0], n), s2)
            g["network_snr"] = s2
            cuts = {"network_snr": ct}
            found |= s2 >= ct
        g.attrs["total_generated"] = total
        f.attrs[key] = secs
    rec.note(n=n, thr=thr, snr=snr, pipes=pipes, planar=planar, named=named, cuts=cuts, key=key, found=int(found.sum()), f32=f32)
    return dict(cols={k: v.astype(float) for k, v in cols.items()}, found=found, base=base, total=total, secs=secs, cuts=cuts)


def thresholds(kw, rng, thr, snr):
    if thr != 1.0 or rng.random() < 0.5:
        kw["ifar_threshold"] = thr
    if snr != 10.0 or rng.random() < 0.5:
        kw["snr_threshold"] = snr
    return kw


def settings(rng):
    n = int(rng.choice([30, 200, 1, 3000], p=[0.4, 0.45, 0.05, 0.1]))
    return n, PARAMS[rng.integers(len(PARAMS))], float(rng.choice([1.0, 1.0, 4.0, 0.5])), float(rng.choice([10.0, 10.0, 8.0]))


def o3(rec):
    rng = rec.rng
    n, names, thr, snr = settings(rng)
    d = tempfile.mkdtemp(prefix="verif_inj_")
    try:
        path = os.path.join(d, "inj.hdf5")
        F = write_o3(rec, path, n, thr, snr)
        rec.note(names=names)
        prior = density(names, F["cols"], F["base"])
        kw = {"additional_cuts": F["cuts"]} if F["cuts"] else {}
        a = rec.call(SE.get_o3_cumulative_injection_dict, path, list(names), ifar=thr, snr=snr, **kw)
        judge(rec, a, F["cols"], F["found"], prior, names, F["total"], F["secs"], "O3 file")
        ds = rec.call(DC.load_injection_dataset, path, list(names), **thresholds(dict(kw), rng, thr, snr))
        arr = ds["injections"]
        arr.attrs.update({k: ds.attrs[k] for k in ("total_generated", "analysis_time") if k in ds.attrs})
        judge(rec, arr, F["cols"], F["found"], prior, names, F["total"], F["secs"], "loaded O3 dataset", exact_names=list(names) + ["prior"])
    finally:
        shutil.rmtree(d, ignore_errors=True)


def write_o4(rec, path, n, thr, snr, low=-40.0, **box):
    """an O4a style file; returns the columns, the found set, base density, total and seconds"""
    rng = rec.rng
    cols = columns(rng, n, **box)
    pipes = [PIPE4[i] for i in rng.permutation(len(PIPE4))[: rng.integers(1, 6)]]
    lnp = rng.uniform(low, 3, n)
    w = rng.choice([1.0, 0.25, 3.0], n) * rng.uniform(0.5, 2, n) * (10 ** rng.uniform(-4, 4, n) if rng.random() < 0.4 else 1.0)
    key, secs = attr_time(rng)
    total = int(rng.choice([n * 3, 400_000_000, 7_000_000_000]))
    s = away(rng.uniform(3, 14, n), snr, rng)
    found = s >= snr
    data = dict(cols)
    for p in pipes:
        x = away(10 ** rng.uniform(-4, 4, n), 1 / thr, rng)
        data[p] = x
        found = found | (x <= 1 / thr)
    data["semianalytic_observed_phase_maximized_snr_net"] = s
    data["weights"] = w
    data["lnpdraw_mass1_source_mass2_source_redshift_spin1x_spin1y_spin1z_spin2x_spin2y_spin2z"] = lnp
    order = [list(data)[i] for i in rng.permutation(len(data))]
    ev = np.zeros(n, dtype=[(k, "f8") for k in order])
    for k in order:
        ev[k] = data[k]
    with h5py.File(path, "w") as f:
        f["events"] = ev
        f.attrs["total_generated"] = total
        f.attrs[key] = secs
    rec.note(n=n, thr=thr, snr=snr, pipes=pipes, key=key, found=int(found.sum()))
    return dict(cols=cols, found=found, base=np.exp(lnp) / w, total=total, secs=secs, cuts=None)


def o4(rec):
    rng = rec.rng
    n, names, thr, snr = settings(rng)
    d = tempfile.mkdtemp(prefix="verif_inj_")
    try:
        path = os.path.join(d, "inj4.hdf5")
        F = write_o4(rec, path, n, thr, snr)
        rec.note(names=names)
        prior = density(names, F["cols"], F["base"])
        a = rec.call(SE.get_o4a_cumulative_injection_dict, path, list(names), ifar=thr, snr=snr)
        judge(rec, a, F["cols"], F["found"], prior, names, F["total"], F["secs"], "O4a file")
        ds = rec.call(DC.load_injection_dataset, path, list(names), through_o4a=True, **thresholds({}, rng, thr, snr))
        arr = ds["injections"]
        arr.attrs.update({k: ds.attrs[k] for k in ("total_generated", "analysis_time") if k in ds.attrs})
        judge(rec, arr, F["cols"], F["found"], prior, names, F["total"], F["secs"], "loaded O4a dataset", exact_names=list(names) + ["prior"])
    finally:
        shutil.rmtree(d, ignore_errors=True)


def refusals(rec):
    rng = rec.rng
    n = 10
    cols = columns(rng, n)
    d = tempfile.mkdtemp(prefix="verif_inj_")
    try:
        path = os.path.join(d, "a.h5")
        o4a = rng.random() < 0.5
        with h5py.File(path, "w") as f:
            if o4a:
                names = list(cols) + ["semianalytic_observed_phase_maximized_snr_net", "gstlal_far", "weights", "lnpdraw_mass1_source_mass2_source_redshift_spin1x_spin1y_spin1z_spin2x_spin2y_spin2z"]
                ev = np.ones(n, dtype=[(k, "f8") for k in names])
                for k in cols:
                    ev[k] = cols[k]
                f["events"] = ev
                f.attrs["total_generated"] = 100
            else:
                g = f.create_group("injections")
                for k, v in cols.items():
                    g[k] = v
                g["ifar_a"], g["sampling_pdf"] = np.full(n, 5.0), np.ones(n)
                g.attrs["total_generated"] = 100
            if rng.random() < 0.5:
                f.attrs["some_other_time"] = 1e7
        rec.note(o4a=o4a, u=float(rng.random()))
        fn = SE.get_o4a_cumulative_injection_dict if o4a else SE.get_o3_cumulative_injection_dict
        rec.raises(Exception, fn, path, ["mass_1", "redshift"], what="a file without an analysis time")
        rec.raises(AssertionError, DC.load_injection_dataset, path, ["mass_1"], through_o3=False, through_o4a=False, what="neither catalogue type")
        with h5py.File(path, "a") as f:
            f.attrs["analysis_time_s"] = SEC
        ds = rec.call(DC.load_injection_dataset, path, ["mass_1", "redshift"], through_o4a=o4a, through_o3=not o4a or bool(rng.random() < 0.5))
        rec.close(float(ds.attrs["analysis_time"]), 1.0, "analysis time in years", 1e-6)
    finally:
        shutil.rmtree(d, ignore_errors=True)


KINDS = {"o3": (o3, 60, 800), "o4": (o4, 60, 800), "refusals": (refusals, 10, 60)}
