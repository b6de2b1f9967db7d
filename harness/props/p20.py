import copy
import os
import shutil
import tempfile

import numpy as np
from scipy.spatial import cKDTree

from gwinferno.preprocess import data_collection as DC

from . import cat
from .cosm import O, Tol

TECHNIQUE = "runtime monitoring: generated posterior files processed by the real code, every returned sample traced back to its file row, priors recomputed by independent integration"
RULE = ("random catalogues (1-9 events of 1-12000 samples, both file layouts, float32/float64 columns, unequal sample counts, redshift priors, mass cuts, metadata or key file) x requested parameters; "
        "non-trivial = each returned sample traced to one row of its own event, every prior value recomputed")
ASSUMPTIONS = ["at least one sample per event survives the mass cut; no sample exactly on it", "redshifts 0.02 to 2.6; prior tolerance: 1e-3 (float32) / 2e-4 plus the interpolation error of a thousand-point table",
               "the mass cut is not applied to first-release events (as in the code)"]
REQ = [["mass_1", "mass_ratio", "redshift"], ["mass_1", "mass_2", "redshift"], ["mass_1", "mass_ratio", "redshift", "a_1", "a_2", "cos_tilt_1", "cos_tilt_2"], ["redshift"], ["mass_1"],
       ["mass_ratio", "redshift", "a_1"], ["mass_1", "mass_2", "mass_ratio", "redshift", "a_1", "a_2", "cos_tilt_1", "cos_tilt_2"], ["a_1", "a_2"]]


def request(rng):
    req = list(REQ[rng.integers(len(REQ))])
    return [req[i] for i in rng.permutation(len(req))] if rng.random() < 0.5 else req


def trace(rec, got, truth, ev, mmax, n, what):
    """got: dict param -> array of one event; returns indices into the event's file or None"""
    t = truth[ev]
    s = {k: (v.astype(np.float32).astype(float) if t["f32"] else v) for k, v in t["s"].items()}
    ok = np.ones(len(s["mass_1"]), bool) if t["first"] else s["mass_1"] < mmax
    ks = list(got)
    scale = np.array([max(np.ptp(s[k]), 1e-12) for k in ks])
    rows = np.stack([s[k] for k in ks], axis=1) / scale
    tree = cKDTree(rows)
    src = tree.query(np.stack([got[k] for k in ks], axis=1) / scale)[1]
    rec.ev("samples-traced", len(src))
    c = O.PLANCK15_LVK
    tol = Tol(rec, c, 1e-3)
    for k, v in got.items():
        want = s[k][src]
        if t["first"] and k in ("mass_1", "mass_2", "redshift"):
            zt = tol.z_of(s["redshift"][src]) + (1e-6 if t["f32"] else 0)
            lim = zt if k == "redshift" else want * (zt / (1 + s["redshift"][src]) + 2e-6)
        else:
            lim = 2e-6 * np.abs(want) + 1e-9
        if not rec.close(v, want, f"{what}: {k} of a posterior sample of its own event", 0, lim, event=ev, first=t["first"]):
            return None
    # two rows of the file that agree to working precision cannot be told apart
    vague = tree.query(rows, k=2)[0][:, 1] < (2e-4 if t["first"] else 2e-6) if len(rows) > 1 else np.zeros(1, bool)
    u, count = np.unique(src, return_counts=True)
    twice = u[(count > 1) & ~vague[u]]
    t["vague"] = vague[src]
    rec.true(len(twice) == 0, f"{what}: no sample twice", event=ev)
    rec.true(ok[src], f"{what}: nothing above the maximum mass", event=ev)
    return src


def expected_n(truth, mmax):
    return min([10000] + [len(t["s"]["mass_1"]) if t["first"] else int((t["s"]["mass_1"] < mmax).sum()) for t in truth.values()])


def check_priors(rec, ds, arr_z, arr_m, prior, truth, evs, req, what, known=None):
    top = 1.01 * max(1.9, float(np.max(arr_z)))
    zp = cat.ZPrior(top)
    for i, ev in enumerate(evs):
        z, m = arr_z[i], arr_m[i]
        w = np.ones_like(z)
        slack = np.zeros_like(z)
        if "redshift" in req:
            w = zp(truth[ev]["prior"], z)
            slack = zp.slack(truth[ev]["prior"], z) / w
        if "mass_1" in req:
            w = w * (1 + z) ** 2
        if "mass_ratio" in req:
            w = w * m
        if "a_1" in req:
            w = w / 4
        if known is not None:  # the sample's redshift and mass are not part of what was returned
            w = np.where(truth[ev]["vague"], prior[i], w)
        rec.close(prior[i], w, f"{what}: sampling prior of every sample", rec.tol(1e-3, 2e-4) + slack, event=ev, kind=truth[ev]["prior"])


def pipeline(rec):
    rng = rec.rng
    d = tempfile.mkdtemp(prefix="verif_cat_")
    try:
        ne = int(rng.choice([1, 2, 3, 4, 9]))
        sizes = [rng.integers(40, 160, ne), rng.integers(1, 6, ne), np.full(ne, 70), rng.integers(900, 4000, ne)][rng.choice(4, p=[0.6, 0.15, 0.1, 0.15])]
        heavy = float(rng.choice([0, 0.2, 0.7])) if sizes.min() > 5 else 0.0
        evs, meta, truth = cat.catalogue(rec, d, ne, sizes, heavy, zmax=float(rng.choice([0.4, 1.5, 2.6])))
        mmax = float(rng.choice([100.0, 100.0, 60.0, 250.0])) if sizes.min() > 5 else 100.0
        np.random.seed(int(rng.integers(1 << 31)))
        rec.note(evs=evs, sizes=sizes, mmax=mmax, heavy=heavy, priors=[truth[e]["prior"] for e in evs], first=[truth[e]["first"] for e in evs])
        raw = rec.call(DC.unprocessed_catalog_dict_from_metadata, meta)
        rec.true(list(raw) == evs, "every event of the metadata, in order", got=list(raw))
        keep = copy.deepcopy(raw)
        kw = {} if mmax == 100.0 and rng.random() < 0.5 else {"mmax": mmax}
        ds = rec.call(DC.processed_catalog_dataset_from_dict, raw, **kw)
        for ev in evs:
            rec.true(np.array_equal(raw[ev]["posterior"], keep[ev]["posterior"]) and raw[ev]["redshift_prior"] == keep[ev]["redshift_prior"], "raw catalogue not modified")
        n = expected_n(truth, mmax)
        rec.true(set(ds.data_vars) == set(evs), "processed dataset has every event", got=list(ds.data_vars))
        full = {}
        for ev in evs:
            a = ds[ev]
            rec.true(a.sizes["samples"] == n, "same number of samples for every event: the smallest", got=a.sizes["samples"], want=n)
            full[ev] = {p: np.asarray(a.sel(param=p).values, float) for p in cat.PARAMS}
            if trace(rec, full[ev], truth, ev, mmax, n, "processed catalogue") is None:
                return
            rec.close(full[ev]["mass_2"] / full[ev]["mass_1"], full[ev]["mass_ratio"], "mass ratio is secondary over primary", 3e-6)
        req = request(rng)
        out = rec.call(DC.append_prior_to_processed_catalog, ds, req)
        rec.note(req=req)
        z = np.array([full[e]["redshift"] for e in evs])
        m = np.array([full[e]["mass_1"] for e in evs])
        pr = np.array([np.asarray(out.sel(event=e, param="prior").values, float) for e in evs])
        check_priors(rec, ds, z, m, pr, truth, evs, req, "processed catalogue")
        for e in evs:
            for p in cat.PARAMS:
                rec.true(np.array_equal(np.asarray(out.sel(event=e, param=p).values, float), full[e][p]), "appending the prior leaves the samples alone", event=e, param=p)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def load(rec):
    rng = rec.rng
    d = tempfile.mkdtemp(prefix="verif_cat_")
    try:
        ne = int(rng.choice([1, 2, 3, 4, 8]))
        sizes = [rng.integers(30, 90, ne), rng.integers(2, 6, ne), rng.integers(900, 4000, ne)][rng.choice(3, p=[0.75, 0.1, 0.15])]
        evs, meta, truth = cat.catalogue(rec, d, ne, sizes, 0.3 if sizes.min() > 5 else 0.0)
        mmax = float(rng.choice([100.0, 70.0])) if sizes.min() > 5 else 100.0
        req = request(rng)
        np.random.seed(int(rng.integers(1 << 31)))
        rec.note(evs=evs, sizes=sizes, mmax=mmax, req=req)
        kw = {"catalog_metadata": meta} if rng.random() < 0.5 else {"key_file": cat.write_keys(d, meta)}
        if mmax != 100.0 or rng.random() < 0.5:
            kw["maximum_mass"] = mmax
        default = req == REQ[0] and rng.random() < 0.5
        if not default:
            kw["param_names"] = list(req)
        mk = copy.deepcopy(meta)
        out = rec.call(DC.load_posterior_dataset, **kw)
        rec.true(meta == mk, "metadata not modified")
        if not default:
            rec.true(kw["param_names"] == req, "requested parameter list not modified")
        a = out["posteriors"]
        rec.true(list(a.event.values) == evs, "events in the order given", got=list(a.event.values))
        got = list(a.param.values)
        rec.true(sorted(got) == sorted(req + ["prior"]), "only the requested parameters and the prior", got=got, want=req)
        n = expected_n(truth, mmax)
        rec.true(a.sizes["samples"] == n, "sample count", got=a.sizes["samples"], want=n)
        zs, ms, prs = [], [], []
        for ev in evs:
            row = {p: np.asarray(a.sel(event=ev, param=p).values, float) for p in req if p in got}
            src = trace(rec, row, truth, ev, mmax, n, "loaded catalogue")
            if src is None:
                return
            zs.append(truth[ev]["s"]["redshift"][src])
            ms.append(truth[ev]["s"]["mass_1"][src])
            prs.append(np.asarray(a.sel(event=ev, param="prior").values, float))
        zs = np.array(zs)
        # the normalisation range follows the redshifts of the processed catalogue, known here only if they stay below 1.9
        if zs.max() < 1.85:
            check_priors(rec, None, zs, np.array(ms), np.array(prs), truth, evs, req, "loaded catalogue", known=False)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def large(rec):
    """events larger than the maximum number of samples"""
    rng = rec.rng
    d = tempfile.mkdtemp(prefix="verif_cat_")
    try:
        sizes = [int(v) for v in rng.choice([10000, 10001, 10400, 12000], 2)]
        evs, meta, truth = cat.catalogue(rec, d, 2, sizes, float(rng.choice([0, 0.3])), f32=False)
        np.random.seed(int(rng.integers(1 << 31)))
        rec.note(evs=evs, sizes=sizes)
        ds = rec.call(DC.processed_catalog_dataset_from_dict, rec.call(DC.unprocessed_catalog_dict_from_metadata, meta))
        n = expected_n(truth, 100.0)
        for ev in evs:
            a = ds[ev]
            rec.true(a.sizes["samples"] == n, "at most ten thousand samples", got=a.sizes["samples"], want=n)
            trace(rec, {p: np.asarray(a.sel(param=p).values, float) for p in cat.PARAMS}, truth, ev, 100.0, n, "large catalogue")
    finally:
        shutil.rmtree(d, ignore_errors=True)


def refusals(rec):
    rng = rec.rng
    d = tempfile.mkdtemp(prefix="verif_cat_")
    try:
        evs, meta, truth = cat.catalogue(rec, d, 2, [20, 30])
        bad = str(rng.choice(["euclid", "Comoving", "", "uniform"]))
        rec.note(evs=evs, bad=bad)
        rec.raises(AssertionError, DC.load_posterior_dataset, what="neither metadata nor key file")
        meta[evs[int(rng.integers(2))]]["redshift_prior"] = bad
        rec.raises(AssertionError, DC.load_posterior_dataset, catalog_metadata=meta, what="an unknown redshift prior")
        for e in (True, False):
            z = rec.arr(rng.uniform(0.01, 2.2, 20))
            got = np.asarray(rec.call(DC.dl_2_prior_on_z, z, euclidean=e)).astype(float)
            rec.close(got, cat.ZPrior(3.0).raw["euclidean" if e else "comoving"](z.astype(float)), "redshift prior shape", rec.tol(1e-3, 2e-4), 0, euclidean=e)
    finally:
        shutil.rmtree(d, ignore_errors=True)


KINDS = {"pipeline": (pipeline, 60, 900), "load": (load, 50, 700), "large": (large, 6, 40), "refusals": (refusals, 12, 60)}
