import os
import shutil
import tempfile

import numpy as np
import xarray as xr

from gwinferno.pipeline import utils as U
from gwinferno.preprocess import data_collection as DC

from . import cat

TECHNIQUE = "runtime monitoring: save/load histories on scratch files, every loaded number compared with what was saved"
RULE = ("random datasets (parameters in any order, special float values, float32/float64, 1-5 events) x save/overwrite/load sequences x ignore lists (none, empty, some, all but one, unknown, repeated names); "
        "non-trivial = every value of every parameter compared bit for bit at working precision")
ASSUMPTIONS = ["event names unique", "ignore lists are lists or tuples of names"]
ALL = ["mass_1", "mass_2", "mass_ratio", "redshift", "a_1", "a_2", "cos_tilt_1", "cos_tilt_2", "chi_eff", "chi_p"]


def dataset(rec):
    rng = rec.rng
    ne, ns, ni = int(rng.integers(1, 6)), int(rng.choice([1, 7, 40])), int(rng.choice([1, 9, 60]))
    ps = [ALL[i] for i in rng.permutation(len(ALL))[: rng.integers(1, 8)]] + ["prior"]
    ps = [ps[i] for i in rng.permutation(len(ps))]
    ips = [ps[i] for i in rng.permutation(len(ps))]
    if rng.random() < 0.2:  # the two sides need not carry the same parameters
        ips = [p for p in ips if p == "prior" or rng.random() < 0.7] + [p for p in ("network_snr", "mass_1_detector") if rng.random() < 0.7]
    evs = cat.names(rng, ne)
    if rng.random() < 0.2:  # names that differ in case or extend one another
        evs = evs[: max(ne - 2, 1)] + [v for v in (evs[0].lower(), evs[0] + "_b", "x" + evs[0])[: int(rng.integers(1, 4))] if v not in evs]
        evs = [evs[i] for i in rng.permutation(len(evs))]
        ne = len(evs)

    def vals(sh):
        v = rng.normal(0, 1, sh) * 10 ** rng.uniform(-8, 8, sh)
        m = rng.random(sh) < 0.05
        v = np.where(m, rng.choice([0.0, -0.0, 1.0, 1e-30, 1e30, 1 / 3], sh), v)
        return v.astype(np.float32) if rng.random() < 0.3 else v

    pe, inj = vals((ne, len(ps), ns)), vals((len(ips), ni))
    total = [int(rng.integers(1, 10**6)), 5_000_000_123, float(rng.uniform(1, 1e8)), np.int64(77_000_001)][int(rng.integers(4))]
    T = float(rng.uniform(0.01, 5))
    pds = xr.DataArray(pe, dims=["event", "param", "samples"], coords={"event": evs, "param": ps, "samples": np.arange(ns)}).to_dataset(name="posteriors")
    ids = xr.DataArray(inj, dims=["param", "injection"], coords={"param": ips, "injection": np.arange(ni)}, attrs={"total_generated": total, "analysis_time": T}).to_dataset(name="injections", promote_attrs=True)
    return dict(evs=evs, ps=ps, ips=ips, pe=pe, inj=inj, total=total, T=T, pds=pds, ids=ids)


def same(rec, got, want, what):
    got = np.asarray(got)
    w = want.astype(min(np.dtype(rec.ft), want.dtype))
    rec.values += w.size
    rec.true(got.shape == w.shape and got.dtype == w.dtype, f"{what}: shape and precision", shape=got.shape, want=w.shape)
    return rec.true(got.shape == w.shape and got.tobytes() == w.tobytes(), f"{what}: values bit for bit")


def check(rec, out, D, ignore, what):
    pe, inj, const, names = out
    keep = [i for i, e in enumerate(D["evs"]) if ignore is None or e not in ignore]
    rec.true(list(pe) and set(pe) == set(D["ps"]), f"{what}: every posterior parameter under its name", got=list(pe))
    rec.true(set(inj) == set(D["ips"]), f"{what}: every injection parameter under its name", got=list(inj))
    rec.true([str(n) for n in names] == D["ps"], f"{what}: parameter list", got=[str(n) for n in names], want=D["ps"])
    for i, p in enumerate(D["ps"]):
        if p in pe:
            same(rec, pe[p], D["pe"][keep, i, :], f"{what}: posteriors")
    for i, p in enumerate(D["ips"]):
        if p in inj:
            same(rec, inj[p], D["inj"][i], f"{what}: injections")
    rec.close(float(const["total_inj"]), float(D["total"]), f"{what}: total number of injections", 1e-15)
    rec.close(float(const["obs_time"]), D["T"], f"{what}: observing time", 1e-15)
    rec.true(int(const["nObs"]) == len(keep), f"{what}: number of observations", got=const["nObs"], want=len(keep))


def ignores(rng, evs):
    s = int(rng.integers(6))
    some = [e for e in evs if rng.random() < 0.5][: max(len(evs) - 1, 0)]
    return [None, [], some, ["GW999999", "nope"], some + some + ["GW000000"], tuple(evs[1:])][s]


def history(rec):
    rng = rec.rng
    d = tempfile.mkdtemp(prefix="verif_sav_")
    try:
        state = {}
        log = []
        for step in range(int(rng.integers(2, 6))):
            name = str(rng.choice(["a.h5", "b.h5", "c.h5.nc"]))
            path = os.path.join(d, name)
            if name not in state or rng.random() < 0.4:
                D = dataset(rec)
                before = D["pds"].copy(deep=True), D["ids"].copy(deep=True)
                rec.call(DC.save_posterior_samples_and_injection_datasets_as_idata, path, D["pds"], D["ids"])
                rec.true(before[0].identical(D["pds"]) and before[1].identical(D["ids"]), "saving does not modify the datasets")
                state[name] = D
                log.append(f"save {name}")
            for name in list(state):
                if rng.random() < 0.7:
                    D = state[name]
                    ig = ignores(rng, D["evs"])
                    arg = list(ig) if isinstance(ig, list) else ig
                    out = rec.call(U.load_pe_and_injections_as_dict, os.path.join(d, name), **({} if ig is None and rng.random() < 0.5 else {"ignore": arg}))
                    check(rec, out, D, ig, "loaded file")
                    if isinstance(ig, list):
                        rec.true(arg == ig, "ignore list not modified")
                    log.append(f"load {name} ignore={ig}")
        rec.note(log=log)
        rec.ev("history-steps", len(log))
    finally:
        shutil.rmtree(d, ignore_errors=True)


def refused(rec):
    rng = rec.rng
    d = tempfile.mkdtemp(prefix="verif_sav_")
    try:
        D = dataset(rec)
        name = str(rng.choice(["x.nc", "x", "x.hdf5", "x.txt", "xh5", "results_h5", "h5"]))
        rec.note(name=name, n=len(D["evs"]), u=float(rng.random()))
        rec.raises(AssertionError, DC.save_posterior_samples_and_injection_datasets_as_idata, os.path.join(d, name), D["pds"], D["ids"], what="a file name without the extension")
        rec.true(os.listdir(d) == [], "nothing written when refused", files=os.listdir(d))
    finally:
        shutil.rmtree(d, ignore_errors=True)


def whole(rec):
    """posterior files and injection file -> processed -> saved -> loaded"""
    rng = rec.rng
    d = tempfile.mkdtemp(prefix="verif_sav_")
    try:
        evs, meta, truth = cat.catalogue(rec, d, int(rng.integers(2, 4)), [20, 25, 30])
        req = ["mass_1", "mass_ratio", "redshift"] + (["a_1", "a_2", "cos_tilt_1", "cos_tilt_2"] if rng.random() < 0.5 else [])
        np.random.seed(int(rng.integers(1 << 31)))
        post = rec.call(DC.load_posterior_dataset, catalog_metadata=meta, param_names=req)
        from . import p18
        import h5py

        path = os.path.join(d, "inj.h5")
        cols = p18.columns(rng, 30)
        with h5py.File(path, "w") as f:
            g = f.create_group("injections")
            for k, v in cols.items():
                g[k] = v
            g["ifar_x"], g["sampling_pdf"] = rng.uniform(0, 3, 30), np.exp(rng.normal(-3, 1, 30))
            g.attrs["total_generated"] = 4321
            f.attrs["total_analysis_time"] = 2e7
        inj = rec.call(DC.load_injection_dataset, path, req)
        out = os.path.join(d, "all.h5")
        rec.call(DC.save_posterior_samples_and_injection_datasets_as_idata, out, post, inj)
        ig = ignores(rng, evs)
        rec.note(evs=evs, req=req, ignore=ig)
        res = rec.call(U.load_pe_and_injections_as_dict, out, ignore=ig)
        a, b = post["posteriors"], inj["injections"]
        a, b = a.transpose("event", "param", "samples"), b.transpose("param", "injection")
        D = dict(evs=[str(e) for e in a.event.values], ps=[str(e) for e in a.param.values], ips=[str(e) for e in b.param.values], pe=a.values, inj=b.values, total=4321, T=2e7 / p18.SEC)
        check(rec, res, D, ig, "processed data")
    finally:
        shutil.rmtree(d, ignore_errors=True)


KINDS = {"history": (history, 60, 900), "refused": (refused, 10, 40), "whole": (whole, 16, 150)}
