import os
import shutil
import tempfile

import jax.numpy as jnp
import numpy as np
import numpyro
import numpyro.distributions as dist
from numpyro.infer import MCMC

from gwinferno import interpolation as I
from gwinferno.models.parametric import parametric as M
from gwinferno.pipeline import analysis as A
from gwinferno.pipeline import parser as PA
from gwinferno.pipeline import utils as U
from gwinferno.preprocess import data_collection as DC

from .. import oracles as O
from . import cat, lik, p05, p07, p17, p18, p20, p25, spl

RULE = ("random posterior files, injection files, thresholds, ignored events, population models (power law plus peak, splines, configuration files), options and hyper-parameters through the whole chain; "
        "non-trivial = the log likelihood, its ingredients, the rate and the log posterior compared with a float64 evaluation from the rows of the files")
ASSUMPTIONS = ["no sample within rounding of a cut", "the prior of a sample is known to 1e-3 (float32) / 2e-4 plus interpolation of a thousand-point table; redshift normalisation to 0.3%",
               "below the shared redshift range the spline redshift model is not judged (its share is added to the tolerance)",
               "sampled posteriors are compared with quadrature at six times the Monte Carlo error"]
REQ7 = ["mass_1", "mass_ratio", "redshift", "a_1", "a_2", "cos_tilt_1", "cos_tilt_2"]
COL = {"mass_1": "mass1_source", "redshift": "redshift"}


def gen(m, q, z, a, ct):
    def samples(rng, n, zmax, heavy=0.0):
        m1 = rng.uniform(*m, n)
        k = int(round(heavy * n))
        m1[:k] = rng.uniform(101, 200, k)
        m1 = m1[rng.permutation(n)]
        r = rng.uniform(*q, n)
        return {"mass_1": m1, "mass_2": r * m1, "mass_ratio": r, "redshift": rng.uniform(z[0], min(zmax, z[1]), n), "a_1": rng.uniform(*a, n), "a_2": rng.uniform(*a, n),
                "cos_tilt_1": rng.uniform(*ct, n), "cos_tilt_2": rng.uniform(*ct, n)}
    return samples


def inputs(rec, d, req, ne, S, n, box, heavy=0.0):
    """files -> processed -> saved -> loaded.  Returns what was loaded and the same information taken from the file rows"""
    rng = rec.rng
    sizes = rng.integers(S, int(1.4 * S) + 1, ne) if rng.random() < 0.6 else [S] * ne
    evs, meta, truth = cat.catalogue(rec, d, ne, sizes, heavy, gen=gen(**box))
    thr, snr = float(rng.choice([1.0, 4.0, 0.5])), float(rng.choice([10.0, 8.0]))
    o4 = bool(rng.random() < 0.5)
    path = os.path.join(d, "injections.hdf5")
    F = p18.write_o4(rec, path, n, thr, snr, low=-9.0, **box) if o4 else p18.write_o3(rec, path, n, thr, snr, spread=1.0, **box)
    if F["found"].sum() < 20:
        rec.skip("hardly any found injection")
    np.random.seed(int(rng.integers(1 << 31)))
    kw = {"catalog_metadata": meta} if rng.random() < 0.5 else {"key_file": cat.write_keys(d, meta)}
    post = rec.call(DC.load_posterior_dataset, param_names=list(req), **kw)
    kw = p18.thresholds({"additional_cuts": F["cuts"]} if F["cuts"] else {}, rng, thr, snr)
    inj = rec.call(DC.load_injection_dataset, path, list(req), **({"through_o4a": True} if o4 else {}), **kw)
    out = os.path.join(d, "all.h5")
    rec.call(DC.save_posterior_samples_and_injection_datasets_as_idata, out, post, inj)
    ig = [e for e in evs if rng.random() < 0.25][: ne - 1]
    pe, ij, const, names = rec.call(U.load_pe_and_injections_as_dict, out, **({"ignore": ig} if ig or rng.random() < 0.5 else {}))
    keep = [e for e in evs if e not in ig]
    rec.note(evs=evs, ignore=ig, req=req, o4=o4, sizes=[int(s) for s in sizes], priors=[truth[e]["prior"] for e in evs], first=[truth[e]["first"] for e in evs])
    rec.true(int(const["nObs"]) == len(keep), "number of events", got=const["nObs"], want=len(keep))
    if set(pe) != set(req) | {"prior"} or pe["mass_1"].shape[0] != len(keep):
        rec.true(False, "loaded parameters and events", got=sorted(pe), shape=str({k: v.shape for k, v in pe.items()}))
        rec.skip("unusable")
    N = p20.expected_n(truth, 100.0)
    rows = {p: np.zeros((len(keep), N)) for p in req}
    zp = cat.ZPrior(1.01 * 1.9)
    prior, slack = np.zeros((len(keep), N)), 0.0
    for i, e in enumerate(keep):
        src = p20.trace(rec, {p: np.asarray(pe[p][i], float) for p in req}, truth, e, 100.0, N, "loaded event")
        if src is None:
            rec.skip("unusable")
        t = {k: (v.astype(np.float32).astype(float) if truth[e]["f32"] else v) for k, v in truth[e]["s"].items()}
        for p in req:
            rows[p][i] = t[p][src]
        z = t["redshift"][src]
        prior[i] = zp(truth[e]["prior"], z) * (1 + z) ** 2 * t["mass_1"][src] * (0.25 if "a_1" in req else 1.0)
        slack = max(slack, float(np.max(zp.slack(truth[e]["prior"], z) / zp(truth[e]["prior"], z))))
    f = F["found"]
    c = {k: v[f] for k, v in F["cols"].items()}
    irow = {"mass_1": c["mass1_source"], "mass_ratio": c["mass2_source"] / c["mass1_source"], "redshift": c["redshift"]}
    for j in (1, 2):
        a = np.sqrt(c[f"spin{j}x"] ** 2 + c[f"spin{j}y"] ** 2 + c[f"spin{j}z"] ** 2)
        irow[f"a_{j}"], irow[f"cos_tilt_{j}"] = a, c[f"spin{j}z"] / a
    irow = {p: irow[p] for p in req}
    if ij["mass_1"].shape != (int(f.sum()),):
        rec.true(False, "exactly the found injections reach the analysis", got=str(ij["mass_1"].shape), want=int(f.sum()))
        rec.skip("unusable")
    iprior = p18.density(req, F["cols"], F["base"])[f]
    return dict(pe=pe, inj=ij, const=const, names=[str(x) for x in names], rows=rows, prior=prior, irow=irow, iprior=iprior, total=F["total"], T=F["secs"] / p18.SEC, keep=keep,
                tol=rec.tol(1.2e-3, 3e-4) + 1.5 * slack)


def shared(D):
    z, zi = D["rows"]["redshift"], D["irow"]["redshift"]
    lo, hi = max(z.min(), zi.min()), min(z.max(), zi.max())
    every = np.concatenate([z.ravel(), zi])
    if (np.abs(every - hi) < 3e-5 * (1 + hi)).sum() > 1:
        return None, None, "two redshifts at the end of the shared range"
    if hi < 1.5 * lo:
        return None, None, "no overlap"
    return lo, hi, None


def options(rng):
    return [dict(), dict(min_neff_cut=False), dict(marginalize_selection=True, min_neff_cut=False), dict(min_neff_cut=False, max_variance_cut=True), dict(min_neff_cut=False)][rng.integers(5)]


def judge(rec, D, tr, lw, li, rt, opt, hv, g, extra=0.0):
    """the trace of the model against estimates from the file rows; rt: relative accuracy of one weight"""
    E = len(D["keep"])
    bf, le, var = O.event_estimates(lw)
    mu, lei, rel = O.selection_estimates(li, D["total"])
    if not (np.isfinite(bf).all() and np.isfinite(mu)):
        rec.skip("an event without support")
    t = 2 * rt
    rec.close(lik.val(tr, "logBFs"), bf, "log evidence of every event", 0, t + extra)
    rec.close(lik.val(tr, "detection_efficiency"), np.exp(mu), "detection efficiency", t)
    rec.close(lik.val(tr, "log_nEffs"), le, "log effective samples", 0, 4 * t + 2 * extra)
    rec.close(lik.val(tr, "log_nEff_inj"), lei, "log effective injections", 0, 4 * t * (1 + 1 / (D["total"] * rel)))
    ll = bf.sum() - E * (mu - opt.get("marginalize_selection", False) * (3 + E) / (2 * np.exp(lei)))
    rej = near = False
    if opt.get("min_neff_cut", True):
        rej = lei < np.log(4 * E) or le.min() <= np.log(E)
        near = min(abs(lei - np.log(4 * E)), np.abs(le - np.log(E)).min()) < 8 * t + 3 * np.max(extra)
    if opt.get("max_variance_cut", False):
        v = E**2 * rel + var.sum()
        rej, near = v > 1, abs(v - 1) < 0.05 + 4 * np.max(extra)
    if near:
        rec.ev("near-threshold")
        return None
    got = lik.factor_value(tr["log_likelihood"])
    if rej:
        rec.ev("rejected")
        rec.true(lik.is_lowest(rec, got), "unconverged point has the lowest likelihood", got=got)
    else:
        rec.ev("accepted")
        rec.close(got, ll, "log likelihood of the catalogue in the files", 0, 2 * E * t + E * (3 + E) / np.exp(lei) * t + np.sum(np.broadcast_to(extra, (E,))))
    rec.close(lik.val(tr, "rate"), g / np.exp(mu) / (hv / 1e9 * D["T"]), "merger rate", t + 4e-3)
    return ll


def log_weights(facs, prior):
    """facs: list of (density, rtol, atol); returns log weights and the relative accuracy of the largest ones"""
    p, r = 1.0, 0.0
    for v, rt, at in facs:
        p = p * v
        r = r + np.where(v > 0, rt + at / np.where(v > 0, v, 1), 0)
    with np.errstate(divide="ignore"):
        lw = np.log(p) - np.log(prior)
    w = np.exp(lw - lw.max(axis=-1, keepdims=True))
    return lw, float(np.max(np.sum(w * np.broadcast_to(r, w.shape), axis=-1) / w.sum(axis=-1)))


BOX = dict(m=(5, 80), q=(0.1, 1), z=(0.02, 1.8), a=(0.05, 0.98), ct=(-0.99, 0.99))


def parametric(rec):
    rng = rec.rng
    d = tempfile.mkdtemp(prefix="verif_e2e_")
    try:
        spin = rng.random() < 0.6
        req = REQ7 if spin else REQ7[:3]
        ne = int(rng.integers(1, 5))
        D = inputs(rec, d, req, ne, int(rng.integers(30, 120)), int(rng.integers(200, 1200)), BOX, heavy=float(rng.choice([0, 0.15])))
        lo, hi, why = shared(D)
        if why:
            rec.skip(why)
        ft = lambda v: float(rec.ft(v))  # noqa: E731
        h = dict(alpha=ft(rng.uniform(-4, 1)), beta=ft(rng.uniform(-0.9, 4)), mmin=ft(rng.uniform(2, 6)), mmax=ft(rng.uniform(60, 110)), mpp=ft(rng.uniform(25, 45)), sigpp=ft(rng.uniform(2, 9)), lam=ft(rng.uniform(0, 0.4)))
        lamb = ft(rng.uniform(-2, 5))
        mags, tilts = [ft(rng.uniform(1, 5)) for _ in range(4)], [ft(rng.random()), ft(rng.random()), ft(rng.uniform(0.3, 2)), ft(rng.uniform(0.3, 2))]
        opt, log, g = options(rng), bool(rng.random() < 0.5), ft(rng.uniform(0.5, 4))
        rec.note(**h, lamb=lamb, mags=mags, tilts=tilts, opt=opt, log=log, spin=spin)
        zf = lambda z: O.PLANCK15_LVK.dV(z) * (1 + z) ** (lamb - 1)  # noqa: E731
        hv = float(O.trapz(zf(G := np.linspace(lo, hi, 8001)), G))

        def ref(r, prior):
            m, q, z = r["mass_1"], r["mass_ratio"], r["redshift"]
            for v, e in ((m, h["mmin"]), (m, h["mmax"]), (m * q, h["mmin"])):
                if (np.abs(v / e - 1) < 1e-4).any():
                    rec.skip("a sample on a mass cut")
            f = [((1 - h["lam"]) * O.powerlaw(m, h["alpha"], h["mmin"], h["mmax"]) + h["lam"] * O.truncnorm(m, h["mpp"], h["sigpp"], h["mmin"], h["mmax"]), 1e-4, 0),
                 (p05.p_q(q, m, h["beta"], h["mmin"]), 1e-4 + p05.pq_tol(rec, m, np.asarray(q), h["beta"], h["mmin"]) + 3e-6 / np.maximum(np.abs(1 - h["mmin"] / m), 1e-3), 0), (np.where(z <= hi, zf(z) / hv, 0), 4e-3, 0)]
            if spin:
                f += [(O.beta_pdf(r["a_1"], mags[0], mags[1]), 1e-4, 0), (O.beta_pdf(r["a_2"], mags[2], mags[3]), 1e-4, 0)]
                f += [((1 - x) / 2 + x * O.truncnorm(r[k], 1, s, -1, 1), 1e-4, 0) for k, x, s in (("cos_tilt_1", tilts[0], tilts[2]), ("cos_tilt_2", tilts[1], tilts[3]))]
            return log_weights(f, prior)

        from gwinferno.models.parametric.parametric import PowerlawRedshiftModel

        zm = rec.call(PowerlawRedshiftModel, D["pe"]["redshift"], D["inj"]["redshift"])

        def model():
            def w(x):
                p = M.plpeak_primary_ratio_pdf(x["mass_1"], x["mass_ratio"], h["alpha"], h["beta"], h["mmin"], h["mmax"], h["mpp"], h["sigpp"], h["lam"]) * zm(x["redshift"], lamb)
                if spin:
                    p = p * M.independent_spin_magnitude_beta_dist(x["a_1"], x["a_2"], *mags) * M.independent_spin_tilt(x["cos_tilt_1"], x["cos_tilt_2"], *tilts)
                p = p / x["prior"]
                return jnp.log(p) if log else p

            rec.call(A.hierarchical_likelihood, w(D["pe"]), w(D["inj"]), float(D["const"]["total_inj"]), int(D["const"]["nObs"]), float(D["const"]["obs_time"]), surveyed_hypervolume=zm.normalization(lamb), log=log, **opt)

        tr = lik.run(model, data={"unscaled_rate": jnp.asarray(rec.ft(g))})
        (lw, r1), (li, r2) = ref(D["rows"], D["prior"]), ref(D["irow"], D["iprior"])
        judge(rec, D, tr, lw, li, D["tol"] + max(r1, r2), opt, hv, g)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def splines(rec):
    rng = rec.rng
    d = tempfile.mkdtemp(prefix="verif_e2e_")
    try:
        ne = int(rng.integers(1, 4))
        D = inputs(rec, d, REQ7, ne, int(rng.integers(30, 90)), int(rng.integers(200, 800)), BOX)
        lo, hi, why = shared(D)
        if why:
            rec.skip(why)
        k = dict(m=int(rng.integers(6, 20)), q=int(rng.integers(6, 14)), a1=int(rng.integers(6, 12)), a2=int(rng.integers(6, 12)), t1=int(rng.integers(6, 12)), t2=int(rng.integers(6, 12)), z=int(rng.integers(5, 12)))
        iid = bool(rng.random() < 0.4)
        if iid:
            k["a2"], k["t2"] = k["a1"], k["t1"]
        mmin, mmax = float(np.round(rng.uniform(2, 4.9), 3)), float(np.round(rng.uniform(81, 120), 3))
        lamb = float(rec.ft(rng.uniform(-2, 4)))
        c = {s: rec.arr(rng.normal(0, 0.8, k[s])) for s in ("m", "q", "a1", "a2", "t1", "t2")}
        if iid:
            c["a2"], c["t2"] = c["a1"], c["t1"]
        cz = np.concatenate([[0.0], rec.arr(rng.normal(0, 0.6, k["z"] - 1)).astype(float)])
        opt, g = options(rng), float(rec.ft(rng.uniform(0.5, 4)))
        rec.note(k=k, iid=iid, mmin=mmin, mmax=mmax, lamb=lamb, opt=opt, coefs=c, cz=cz)
        mass = rec.call(U.setup_bspline_mass_models, D["pe"], D["inj"], k["m"], k["q"], mmin, mmax)
        mag, tilt = rec.call(U.setup_bspline_spin_models, D["pe"], D["inj"], k["a1"], k["t1"], IID=iid, **({} if iid else dict(a2_nsplines=k["a2"], ct2_nsplines=k["t2"])))
        zm = rec.call(U.setup_powerlaw_spline_redshift_model, D["pe"], D["inj"], k["z"])

        def model():
            cm, cq = U.bspline_mass_prior(m_nsplines=k["m"], q_nsplines=k["q"], m_tau=1, q_tau=1)
            if iid:
                ca, ct = U.bspline_spin_prior(a_nsplines=k["a1"], ct_nsplines=k["t1"], a_tau=25, ct_tau=25, IID=True)
                ca, ct = (ca,), (ct,)
            else:
                ca, ct = (jnp.asarray(c["a1"]), jnp.asarray(c["a2"])), (jnp.asarray(c["t1"]), jnp.asarray(c["t2"]))
            zc = U.bspline_redshift_prior(z_nsplines=k["z"], z_tau=1)
            lam = numpyro.sample("lamb", dist.Normal(0, 3))

            def w(x, flag):
                return mass(cm, cq, pe_samples=flag) * mag(*ca, pe_samples=flag) * tilt(*ct, pe_samples=flag) * zm(x["redshift"], lam, zc) / x["prior"]

            rec.call(A.hierarchical_likelihood, w(D["pe"], True), w(D["inj"], False), float(D["const"]["total_inj"]), int(D["const"]["nObs"]), float(D["const"]["obs_time"]), surveyed_hypervolume=zm.normalization(lam, zc), **opt)

        data = {"mass_cs": c["m"], "q_cs": c["q"], "z_cs": cz[1:].astype(rec.ft), "lamb": rec.ft(lamb), "unscaled_rate": rec.ft(g)}
        if iid:
            data.update(a_cs=c["a1"], tilt_cs=c["t1"])
        tr = lik.run(model, data={n: jnp.asarray(v) for n, v in data.items()})
        latent = {n for n, s in tr.items() if s["type"] == "sample" and not s["is_observed"]}
        rec.true(latent == set(data), "sampled quantities of the analysis", got=sorted(latent), want=sorted(data))
        u0, u1 = np.log(lo), np.log(hi)
        t = O.uniform_knots(k["z"], 4, u0, u1)
        zf = lambda z: O.PLANCK15_LVK.dV(z) * (1 + z) ** (lamb - 1) * np.exp(np.einsum("i...,i->...", O.bspline_matrix(np.clip(np.log(z), u0, u1), t, 4, u0, u1), cz))  # noqa: E731
        hv = float(O.trapz(zf(np.linspace(lo, hi, 8001)), np.linspace(lo, hi, 8001)))
        h = (hi - lo) / 999
        ztol = 5e-3 + 0.5 * h * (zf(np.array([lo])) + zf(np.array([hi])))[0] * (1 + np.exp(np.abs(cz).max())) / hv

        def ref(r, prior):
            z = r["redshift"]
            f = [p07.f1(rec, fam, n, a, b, r[p], co, {}) for fam, n, a, b, p, co in (("LogXLogYBSpline", k["m"], mmin, mmax, "mass_1", c["m"]), ("LogYBSpline", k["q"], mmin / mmax, 1.0, "mass_ratio", c["q"]),
                 ("LogYBSpline", k["a1"], 0.0, 1.0, "a_1", c["a1"]), ("LogYBSpline", k["a2"], 0.0, 1.0, "a_2", c["a2"]), ("LogYBSpline", k["t1"], -1.0, 1.0, "cos_tilt_1", c["t1"]), ("LogYBSpline", k["t2"], -1.0, 1.0, "cos_tilt_2", c["t2"]))]
            # values of the file are a little different from those of the code (single precision, distance to redshift)
            f = [(v, rt + 2e-4 * rec.tol(1, 1), at) for v, rt, at in f]
            f.append((np.where(z <= hi, zf(z) / hv, 0), ztol, 0))
            lw, acc = log_weights(f, prior)
            wn = np.exp(lw - lw.max(axis=-1, keepdims=True))
            low = np.sum(np.where(z < lo * (1 + 1e-5), wn, 0) * np.exp(np.abs(cz).max()), axis=-1) / wn.sum(axis=-1)
            return lw, acc, low

        (lw, r1, e1), (li, r2, e2) = ref(D["rows"], D["prior"]), ref(D["irow"], D["iprior"])
        if np.max(e1) > 0.5 or e2 > 0.1:
            rec.skip("too much weight below the shared redshifts")
        ll = judge(rec, D, tr, lw, li, D["tol"] + max(r1, r2) + float(e2), opt, hv, g, extra=3 * np.max(e1))
        if ll is None:
            return
        # all contributions of the model: priors, penalties, likelihood
        fa = {n for n, s in tr.items() if s["type"] == "sample" and s["is_observed"]}
        pen = sum(float(lik.factor_value(tr[n])) for n in fa if n != "log_likelihood")
        ref_pen = p25.penalty(c["m"], 1, 1)[0] + p25.penalty(c["q"], 1, 1)[0] + p25.penalty(cz, 1, 2)[0] + ((p25.penalty(c["a1"], 25, 2)[0] + p25.penalty(c["t1"], 25, 2)[0]) if iid else 0)
        rec.close(pen, ref_pen, "smoothing penalties of the whole model", 2e-4 * rec.tol(1, 1e-6), 1e-5)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def config(rec):
    rng = rec.rng
    d = tempfile.mkdtemp(prefix="verif_e2e_")
    try:
        spec = p17.Spec(rec)
        req = REQ7 if any(p.startswith(("a_", "cos")) for p in spec.all) else REQ7[:3]
        box = dict(m=(5, 78), q=(0.3, 0.99), z=(0.05, 1.5), a=(0.06, 0.94), ct=(-0.94, 0.94))
        D = inputs(rec, d, req, int(rng.integers(1, 4)), int(rng.integers(30, 100)), int(rng.integers(300, 900)), box)
        r = PA.ConfigReader()
        rec.call(r.parse, p17.write(d, "config.yml", spec.yml))
        model = rec.call(A.construct_hierarchical_model, r.models, r.priors, **r.likelihood_kwargs)
        g = float(rec.ft(rng.uniform(0.5, 4)))
        data = {k: jnp.asarray(np.asarray(spec.value[k], dtype=rec.ft)) for k in spec.prior}
        val = {k: (np.asarray(data[k]).astype(float) if k in data else v) for k, v in spec.value.items()}
        data["unscaled_rate"] = jnp.asarray(rec.ft(g))
        rec.note(models={p: spec.models[p]["model"] for p in spec.models}, iid=spec.iid, lik=spec.lik, values=spec.value)
        keep = set(spec.all) | {"prior", "mass_1", "mass_ratio"}
        cut = lambda x: {k: v for k, v in x.items() if k in keep}  # noqa: E731
        tr = lik.run(lambda: rec.call(model, cut(D["pe"]), cut(D["inj"]), float(D["const"]["total_inj"]), int(D["const"]["nObs"]), float(D["const"]["obs_time"])), data=data)
        lw = sum(spec.log_prob(p, D["rows"][p], val) for p in spec.all) - np.log(D["prior"])
        li = sum(spec.log_prob(p, D["irow"][p], val) for p in spec.all) - np.log(D["iprior"])
        hv = float(O.trapz(O.PLANCK15_LVK.dV(G := np.linspace(1e-9, spec.zmax, 4001)) * (1 + G) ** (float(val["redshift_lamb"]) - 1), G))
        opt = dict(min_neff_cut=True)
        opt.update(spec.lik)
        judge(rec, D, tr, lw, li, D["tol"] + 5e-3, opt, hv, g)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def sampled(rec):
    """Markov chains over the real likelihood against quadrature of an independent one"""
    rng = rec.rng
    E, S, n = int(rng.integers(3, 9)), 60, 4000
    a0 = float(rng.uniform(-3, -1))
    lo, hi = 5.0, 80.0

    def draw(sh, al):
        u = rng.random(sh)
        return (lo ** (1 + al) + u * (hi ** (1 + al) - lo ** (1 + al))) ** (1 / (1 + al))

    centre = draw((E, 1), a0)
    m = rec.arr(np.clip(centre * np.exp(0.08 * rng.normal(size=(E, S))), lo * 1.001, hi * 0.999))
    prior = rec.arr(np.exp(0.1 * rng.normal(size=(E, S))))
    mi = rec.arr(draw(n, -1.5))
    ip = rec.arr(O.powerlaw(mi, -1.5, lo, hi))
    N, T, vt = 5 * n, float(rec.ft(rng.uniform(0.5, 2))), float(rec.ft(10 ** rng.uniform(9, 11)))
    kernel = str(rng.choice(["NUTS", "HMC"]))
    log = bool(rng.random() < 0.5)
    rec.note(E=E, a0=a0, kernel=kernel, log=log, T=T, vt=vt, centres=centre.ravel())

    def model(pe, inj):
        al = numpyro.sample("alpha", dist.Normal(-2, 2))
        from gwinferno.distributions import powerlaw_pdf

        w, wi = powerlaw_pdf(pe["mass_1"], al, lo, hi) / pe["prior"], powerlaw_pdf(inj["mass_1"], al, lo, hi) / inj["prior"]
        if log:
            w, wi = jnp.log(w), jnp.log(wi)
        A.hierarchical_likelihood(w, wi, N, E, T, surveyed_hypervolume=vt, log=log, min_neff_cut=False)

    kw = {} if kernel == "NUTS" else {"trajectory_length": 1.5}
    rec.true(set(A.NP_KERNEL_MAP) >= {"NUTS", "HMC"}, "kernels offered by name", got=sorted(A.NP_KERNEL_MAP))
    mc = MCMC(A.NP_KERNEL_MAP[kernel](model, **kw), num_warmup=400, num_samples=2000, progress_bar=False)
    import jax

    rec.call(mc.run, jax.random.PRNGKey(int(rng.integers(1 << 30))), {"mass_1": jnp.asarray(m), "prior": jnp.asarray(prior)}, {"mass_1": jnp.asarray(mi), "prior": jnp.asarray(ip)})
    s = {k: np.asarray(v, float) for k, v in mc.get_samples().items()}
    g = np.linspace(-10, 6, 1601) + 1.7e-4
    lp, mus = [], []
    for al in g:
        lw = np.log(O.powerlaw(m, al, lo, hi)) - np.log(prior.astype(float))
        li = np.log(O.powerlaw(mi, al, lo, hi)) - np.log(ip.astype(float))
        mu = O.selection_estimates(li, N)[0]
        mus.append(mu)
        lp.append(O.event_estimates(lw)[0].sum() - E * mu - 0.5 * ((al + 2) / 2) ** 2)
    lp, mus = np.array(lp), np.array(mus)
    p = np.exp(lp - lp.max())
    p /= np.trapz(p, g)
    mean = np.trapz(p * g, g)
    sd = np.sqrt(np.trapz(p * (g - mean) ** 2, g))
    lr_mean = np.trapz(p * (-mus), g)  # log rate = log unscaled - log efficiency - log VT
    from numpyro.diagnostics import effective_sample_size
    from scipy.special import digamma, polygamma

    ne = float(effective_sample_size(s["alpha"][None, :]))
    rec.ev("chain-samples", len(s["alpha"]))
    if ne < 60:
        rec.skip("chain mixes too slowly to be compared")
    rec.close(s["alpha"].mean(), mean, f"{kernel} posterior mean of the index", 0, 6.5 * sd / np.sqrt(ne) + 5e-3 * sd)
    rec.close(s["alpha"].std(), sd, f"{kernel} posterior width of the index", 6.5 / np.sqrt(ne) + 0.02)
    lr = np.log(s["rate"])
    want = digamma(E) + lr_mean - np.log(vt / 1e9 * T)
    wsd = np.sqrt(polygamma(1, E) + np.trapz(p * (mus + lr_mean) ** 2, g))
    nr = float(effective_sample_size(lr[None, :]))
    if nr > 60:
        rec.close(lr.mean(), want, f"{kernel} posterior mean of the log rate", 0, 6.5 * wsd / np.sqrt(nr) + 5e-3)
    mu_s = np.interp(s["alpha"], g, mus)
    # single-precision power laws lose digits next to index -1
    t = 2e-3 + rec.tol(1e-4, 1e-12) / np.abs(s["alpha"] + 1)
    rec.close(s["rate"], s["unscaled_rate"] / np.exp(mu_s) / (vt / 1e9 * T), "rate of every draw", t)
    rec.close(np.log(s["detection_efficiency"]), mu_s, "detection efficiency of every draw", 0, t)


KINDS = {"parametric": (parametric, 24, 300), "splines": (splines, 14, 180), "config": (config, 16, 200), "sampled": (sampled, 4, 50)}
