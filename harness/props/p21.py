import os
import shutil
import tempfile

import h5py
import numpy as np

from gwinferno.preprocess import data_collection as DC
from gwinferno.preprocess import priors as P

from . import cat, p18
from .cosm import O

TECHNIQUE = "runtime monitoring: generated catalogues and injection files loaded by the real code in effective spins, every value traced to its source sample and its prior recomputed by independent integration"
RULE = ("random catalogues and injection files x parameter lists with effective spin (with and without precession, with mass ratio or secondary mass); "
        "non-trivial = effective spins and the replaced prior density of every sample recomputed from its own component spins")
ASSUMPTIONS = ["component spins away from the case boundaries (random)", "with precession the conditional density is a Monte Carlo kernel estimate: 12 % of its value plus 10 % of its maximum, |chi_eff| < 0.65"]


def eff(s):
    return (s["a_1"] * s["cos_tilt_1"] + s["mass_ratio"] * s["a_2"] * s["cos_tilt_2"]) / (1 + s["mass_ratio"])


def chip(s):
    q = s["mass_ratio"]
    return np.maximum(s["a_1"] * np.sqrt(1 - s["cos_tilt_1"] ** 2), q * (3 + 4 * q) / (4 + 3 * q) * s["a_2"] * np.sqrt(1 - s["cos_tilt_2"] ** 2))


def requested(rng, prec):
    base = [["mass_1", "mass_ratio", "redshift"], ["mass_1", "mass_2", "redshift"], ["mass_1", "mass_ratio"], ["mass_1", "mass_ratio", "redshift"]][int(rng.integers(4))]
    r = base + ["chi_eff"] + (["chi_p"] if prec else [])
    if rng.random() < 0.25:
        r = r + ["a_1", "a_2", "cos_tilt_1", "cos_tilt_2"]
    return [r[i] for i in rng.permutation(len(r))] if rng.random() < 0.5 else r


def expect_names(req):
    return {"mass_1", "redshift", "chi_eff", "prior"} | ({"chi_p"} if "chi_p" in req else set()) | ({"mass_2"} if "mass_2" in req else {"mass_ratio"})


def joint_ref(cp, ce, q):
    g = np.linspace(0, 1, 201)
    p = np.mean([P.chi_p_prior_given_chi_eff_q(g, ce, q, ndraws=20000) for _ in range(2)], axis=0)
    return float(np.interp(cp, g, p)), float(p.max())


def judge_prior(rec, got, base, ce, cp, q, what, rel):
    dens = O.chieff_iso(ce, q)
    if cp is None:
        rec.close(got, base * dens, f"{what}: prior with the effective-spin density", rel)
        return
    want, lim = [], []
    for b, c, e, x, d in zip(base, cp, ce, q, dens):
        v, top = joint_ref(c, e, x)
        want.append(b * d * v)
        lim.append(b * d * (0.12 * v + 0.10 * top))
    rec.close(got, want, f"{what}: prior with the joint effective-spin density", rel, np.array(lim))


def mild(s):
    """keeps the effective spin away from its extremes (speed of the Monte Carlo density)"""
    for k in ("a_1", "a_2"):
        s[k] = 0.05 + 0.55 * s[k]
    s["mass_ratio"] = 0.3 + 0.7 * s["mass_ratio"]
    s["mass_2"] = s["mass_ratio"] * s["mass_1"]


def posteriors(rec, prec=False):
    rng = rec.rng
    d = tempfile.mkdtemp(prefix="verif_eff_")
    try:
        ne = int(rng.integers(1, 4))
        n = 5 if prec else 25
        evs = cat.names(rng, ne)
        meta, truth = {}, {}
        for i, ev in enumerate(evs):
            first = rng.random() < 0.3
            s = cat.samples(rng, n + int(rng.integers(0, 4)), 1.2)
            if prec:
                mild(s)
            path = os.path.join(d, f"f{i}.h5")
            cat.write_event(path, s, "wf", first, rng)
            meta[ev] = {"file_path": path, "waveform": "wf", "redshift_prior": str(rng.choice(["euclidean", "comoving"])), "catalog": "GWTC-1" if first else "GWTC-3"}
            truth[ev] = s
        req = requested(rng, prec)
        rec.note(evs=evs, req=req, n=n)
        seed = int(rng.integers(1 << 31))
        np.random.seed(seed)
        out = rec.call(DC.load_posterior_dataset, catalog_metadata=meta, param_names=list(req))
        a = out["posteriors"]
        got = list(a.param.values)
        rec.true(set(got) == expect_names(req) and len(got) == len(set(got)), "component spins replaced by effective spins", got=got, want=sorted(expect_names(req)))
        rec.true(list(a.event.values) == evs, "event names unchanged", got=list(a.event.values))
        ns = min(len(s["mass_1"]) for s in truth.values())
        rec.true(a.sizes["samples"] == ns, "number of samples unchanged", got=a.sizes["samples"], want=ns)
        zp = cat.ZPrior(1.01 * 1.9)
        for ev in evs:
            s = truth[ev]
            row = {k: np.asarray(a.sel(event=ev, param=k).values, float) for k in got}
            src = np.argmin(np.abs(row["mass_1"][:, None] - s["mass_1"][None, :]), axis=1)
            rec.ev("samples-traced", len(src))
            rec.true(len(set(src)) == len(src), "every sample once", event=ev)
            t = {k: v[src] for k, v in s.items()}
            for k in ("mass_1", "redshift", "mass_ratio", "mass_2"):
                if k in row:
                    rec.close(row[k], t[k], f"{k} unchanged", 2e-3 if k == "redshift" else 3e-4, event=ev)
            rec.close(row["chi_eff"], eff(t), "effective spin of the sample's own component spins", 2e-6, 2e-6, event=ev)
            if prec:
                rec.close(row["chi_p"], chip(t), "effective precession of the sample's own component spins", 2e-6, 2e-6, event=ev)
            base = np.ones(len(src))
            rel = rec.tol(2e-3, 8e-4)
            if "redshift" in req:
                base = zp(meta[ev]["redshift_prior"], t["redshift"])
                rel = rel + zp.slack(meta[ev]["redshift_prior"], t["redshift"]) / base
            base = base * (1 + t["redshift"]) ** 2
            if "mass_ratio" in req:
                base = base * t["mass_1"]
            judge_prior(rec, row["prior"], base, eff(t), chip(t) if prec else None, t["mass_ratio"], "posterior samples", rel)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def posteriors_p(rec):
    posteriors(rec, True)


def injections(rec, prec=False):
    rng = rec.rng
    n = 12 if prec else 60
    cols = p18.columns(rng, n)
    if prec:
        f = 0.6
        for i in (1, 2):
            for x in "xyz":
                cols[f"spin{i}{x}"] = cols[f"spin{i}{x}"] * f
        cols["mass2_source"] = cols["mass1_source"] * rng.uniform(0.3, 1, n)
    o4a = rng.random() < 0.4
    req = requested(rng, prec)
    d = tempfile.mkdtemp(prefix="verif_eff_")
    try:
        path = os.path.join(d, "i.h5")
        found = rng.random(n) < 0.7
        found[0] = True
        total = int(n * 50)
        base = np.exp(rng.normal(-6, 1, n))
        w = rng.uniform(0.5, 2, n)
        with h5py.File(path, "w") as f:
            if o4a:
                data = dict(cols)
                data["semianalytic_observed_phase_maximized_snr_net"] = np.where(found, 20.0, 3.0)
                data["a_far"] = np.full(n, 1e4)
                data["weights"] = w
                data["lnpdraw_mass1_source_mass2_source_redshift_spin1x_spin1y_spin1z_spin2x_spin2y_spin2z"] = np.log(base)
                ev = np.zeros(n, dtype=[(k, "f8") for k in data])
                for k in data:
                    ev[k] = data[k]
                f["events"] = ev
                f.attrs["total_generated"] = total
                base = base / w
            else:
                g = f.create_group("injections")
                for k, v in cols.items():
                    g[k] = v
                g["ifar_a"], g["sampling_pdf"] = np.where(found, 100.0, 1e-3), base
                g.attrs["total_generated"] = total
            f.attrs["analysis_time_s"] = 3e7
        rec.note(n=n, o4a=o4a, req=req, found=int(found.sum()))
        np.random.seed(int(rng.integers(1 << 31)))
        out = rec.call(DC.load_injection_dataset, path, list(req), through_o4a=o4a)
        a = out["injections"]
        got = list(a.param.values)
        rec.true(set(got) == expect_names(req) and len(got) == len(set(got)), "component spins replaced by effective spins (injections)", got=got, want=sorted(expect_names(req)))
        if not rec.true(a.sizes["injection"] == int(found.sum()), "found injections unchanged"):
            return
        c = {k: v[found] for k, v in cols.items()}
        s = {"mass_1": c["mass1_source"], "mass_2": c["mass2_source"], "mass_ratio": c["mass2_source"] / c["mass1_source"], "redshift": c["redshift"]}
        for i in (1, 2):
            s[f"a_{i}"] = np.sqrt(c[f"spin{i}x"] ** 2 + c[f"spin{i}y"] ** 2 + c[f"spin{i}z"] ** 2)
            s[f"cos_tilt_{i}"] = c[f"spin{i}z"] / s[f"a_{i}"]
        row = {k: np.asarray(a.sel(param=k).values, float) for k in got}
        for k in ("mass_1", "redshift", "mass_ratio", "mass_2"):
            if k in row:
                rec.close(row[k], s[k], f"injections: {k} unchanged and in order", 2e-6)
        rec.close(row["chi_eff"], eff(s), "injections: effective spin of its own component spins", 2e-6, 2e-6)
        if prec:
            rec.close(row["chi_p"], chip(s), "injections: effective precession of its own component spins", 2e-6, 2e-6)
        p = base[found] * (2 * np.pi * s["a_1"] ** 2) * (2 * np.pi * s["a_2"] ** 2) * 4  # component-spin density 1/4 taken out
        if "mass_ratio" in req:
            p = p * s["mass_1"]
        judge_prior(rec, row["prior"], p, eff(s), chip(s) if prec else None, s["mass_ratio"], "injections", 3e-5)
        rec.close(float(out.attrs["total_generated"]), total, "injections: total carried over", 1e-12)
        rec.close(float(out.attrs["analysis_time"]), 3e7 / p18.SEC, "injections: time carried over", 1e-9)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def injections_p(rec):
    injections(rec, True)


KINDS = {"posteriors": (posteriors, 40, 600), "injections": (injections, 40, 600), "posteriors_p": (posteriors_p, 12, 150), "injections_p": (injections_p, 12, 150)}
