import jax
import jax.numpy as jnp
import numpy as np
import numpyro
import numpyro.distributions as dist
from jax import random
from numpyro.infer.util import log_density

from gwinferno.cosmology import PLANCK_2015_LVK_Cosmology as LVK
from gwinferno.models.bsplines import separable as S
from gwinferno.models.bsplines import single as B
from gwinferno.models.parametric import parametric as M
from gwinferno.models import spline_perturbation as P
from gwinferno.models.bsplines.smoothing import apply_difference_prior
from gwinferno import distributions as DI
from gwinferno import numpyro_distributions as ND
from gwinferno.pipeline import parser as PA
from gwinferno.pipeline import utils as U

from .lik import A

TECHNIQUE = "runtime monitoring: gradients recorded from the traced log posterior judged against finite differences of its recorded values, optimiser trajectories judged against an independent Adam iteration and closed-form modes"
RULE = ("random population models (masses x spins x redshift, spline, parametric and configured) x data inside their support x hyper-parameter points x likelihood options, linear and log; concave models of 1-4 sites (vectors, constrained supports, data arguments) x keys x learning rates x iteration counts; "
        "non-trivial = every gradient component finite and compared with a central difference of the evaluated log posterior")
ASSUMPTIONS = ["all samples have positive density at the evaluated point; the effective-sample cuts are inactive or off (the posterior is discontinuous there)",
               "power-law indices not at -1 (removable singularity)", "central differences: 1e-6 relative in double precision, directional and coarse in single precision"]
E_, S_, N_ = 3, 24, 150


def data(rec):
    """samples (events, samples) and injections inside every model's support"""
    rng = rec.rng

    def one(shape):
        m1 = rng.uniform(8, 70, shape)
        if rng.random() < 0.5:  # crowd the low-mass window
            m1.flat[: m1.size // 3] = rng.uniform(5.2, 12, m1.size // 3)
        q = rng.uniform(np.minimum(4.2 / m1, 0.97), 0.999)
        d = dict(mass_1=m1, mass_ratio=q, mass_2=m1 * q, a_1=rng.uniform(0.03, 0.97, shape), a_2=rng.uniform(0.03, 0.97, shape), cos_tilt_1=rng.uniform(-0.98, 0.98, shape), cos_tilt_2=rng.uniform(-0.98, 0.98, shape),
                 redshift=rng.uniform(0.02, 1.2, shape), prior=rng.uniform(0.5, 2, shape))
        return {k: rec.arr(v) for k, v in d.items()}

    pe, inj = one((E_, S_)), one((N_,))
    for d, lo, hi in ((pe, 0.015, 1.21), (inj, 0.015, 1.21)):
        z = d["redshift"].copy()
        z.flat[0], z.flat[1] = lo, hi
        d["redshift"] = rec.arr(z)
    return pe, inj


# each part: (name of the choice) -> (parameters {site: value}, density(params, which) on the samples and injections)
def mass(rec, D):
    rng = rec.rng
    pe, inj = D
    c = str(rng.choice(["plpeak", "plpeak_smooth", "plratio", "falloff", "bs_pl", "plpk_bs", "bs_bs", "iid", "indep", "pert", "pert2"]))
    m = lambda d: (jnp.asarray(d["mass_1"]), jnp.asarray(d["mass_ratio"]))  # noqa: E731
    both = (pe, inj)
    al, be = float(rng.choice([-3.1, -2.2, -1.4])), float(rng.choice([0.3, 1.1, 2.5]))
    nm, nq = int(rng.integers(5, 10)), int(rng.integers(5, 8))
    cm, cq = rng.normal(0, 1, nm), rng.normal(0, 1, nq)
    pk = dict(alpha=al, mmin=float(rng.uniform(3, 4)), mmax=float(rng.uniform(75, 95)), mpp=float(rng.uniform(25, 40)), sigpp=float(rng.uniform(4, 12)), lam=float(rng.uniform(0.05, 0.4)))
    if c == "plpeak":
        return c, dict(pk, beta=be), lambda p, w: M.plpeak_primary_ratio_pdf(*m(both[w]), **p)
    if c == "plpeak_smooth":
        # samples in, at the edge of and just above the smoothing window
        pk["delta"] = float(rng.uniform(2, 5))
        return c, dict(pk, beta=be), lambda p, w: M.plpeak_primary_ratio_pdf(*m(both[w]), **p)
    if c == "plratio":
        return c, dict(alpha=al, beta=be, mmin=pk["mmin"], mmax=pk["mmax"]), lambda p, w: M.powerlaw_primary_ratio_pdf(*m(both[w]), **p)
    if c == "falloff":
        return c, dict(alpha=al, beta=be, mmin=pk["mmin"], mmax=pk["mmax"], fall_off=float(rng.uniform(1, 4))), lambda p, w: M.powerlaw_primary_ratio_falloff_pdf(*m(both[w]), **p)
    if c == "bs_pl":
        f = S.BSplinePrimaryPowerlawRatio(nm, jnp.asarray(pe["mass_1"]), jnp.asarray(inj["mass_1"]), mmin=3.0, mmax=100.0)
        return c, dict(beta=be, mmin=pk["mmin"], mcoefs=cm), lambda p, w: f(*m(both[w]), p["beta"], p["mmin"], p["mcoefs"], pe_samples=w == 0)
    if c == "plpk_bs":
        f = S.PLPeakPrimaryBSplineRatio(nq, jnp.asarray(pe["mass_ratio"]), jnp.asarray(inj["mass_ratio"]))
        return c, dict(pk, qcoefs=cq), lambda p, w: f(jnp.asarray(both[w]["mass_1"]), p["alpha"], p["mmin"], p["mmax"], p["mpp"], p["sigpp"], p["lam"], p["qcoefs"], pe_samples=w == 0)
    if c == "bs_bs":
        f = S.BSplinePrimaryBSplineRatio(nm, nq, jnp.asarray(pe["mass_1"]), jnp.asarray(inj["mass_1"]), jnp.asarray(pe["mass_ratio"]), jnp.asarray(inj["mass_ratio"]), m1min=3.0, m2min=3.0, mmax=100.0)
        return c, dict(mcoefs=cm, qcoefs=cq), lambda p, w: f(p["mcoefs"], p["qcoefs"], pe_samples=w == 0)
    a4 = (jnp.asarray(pe["mass_1"]), jnp.asarray(pe["mass_2"]), jnp.asarray(inj["mass_1"]), jnp.asarray(inj["mass_2"]))
    if c == "iid":
        f = S.BSplineIIDComponentMasses(nm, *a4, mmin=3.0, mmax=100.0)
        return c, dict(coefs=cm, beta=be), lambda p, w: f(p["coefs"], beta=p["beta"], pe_samples=w == 0)
    if c == "indep":
        f = S.BSplineIndependentComponentMasses(nm, nq, *a4, mmin1=3.0, mmax1=100.0, mmin2=3.0, mmax2=100.0)
        return c, dict(pcoefs=cm, scoefs=cq, beta=be), lambda p, w: f(p["pcoefs"], p["scoefs"], beta=p["beta"], pe_samples=w == 0)
    if c == "pert":
        f = P.PowerlawBasisSplinePrimaryPowerlawRatio(nm, jnp.asarray(pe["mass_1"]), jnp.asarray(inj["mass_1"]), mmin=3.0, m2min=3.0, mmax=100.0)
        return c, dict(alpha=-al, beta=be, cs=cm), lambda p, w: f(*m(both[w]), alpha=p["alpha"], beta=p["beta"], mmin=3.0, mmax=100.0, cs=p["cs"])
    f = P.PowerlawBasisSplinePrimaryRatio(nm, nq, *m(pe), *m(inj), mmin=3.0, mmax=100.0)
    return c, dict(alpha=-al, beta=be, cs=cm, vs=cq), lambda p, w: f(*m(both[w]), alpha=p["alpha"], beta=p["beta"], mmin=3.0, mmax=100.0, cs=p["cs"], vs=p["vs"])


def spin(rec, D):
    rng = rec.rng
    pe, inj = D
    both = D
    c = str(rng.choice(["none", "beta", "betas", "bs_iid", "bs_ind", "bs_tilt", "tilt", "tilt_ind", "tilt_default"]))
    n, n2 = int(rng.integers(5, 10)), int(rng.integers(5, 9))
    x, y = rng.normal(0, 1, n), rng.normal(0, 1, n2)
    g = lambda w, *k: [jnp.asarray(both[w][i]) for i in k]  # noqa: E731
    mags, tilts = ("a_1", "a_2"), ("cos_tilt_1", "cos_tilt_2")
    sh = lambda: float(rng.uniform(1.2, 4))  # noqa: E731
    if c == "beta":
        return c, dict(alpha_mag=sh(), beta_mag=sh()), lambda p, w: M.iid_spin_magnitude(*g(w, *mags), **p)
    if c == "betas":
        return c, dict(alpha_mag1=sh(), beta_mag1=sh(), alpha_mag2=sh(), beta_mag2=sh()), lambda p, w: M.independent_spin_magnitude_beta_dist(*g(w, *mags), **p)
    if c == "bs_iid":
        f = S.BSplineIIDSpinMagnitudes(n, *g(0, *mags), *g(1, *mags))
        return c, dict(acoefs=x), lambda p, w: f(p["acoefs"], pe_samples=w == 0)
    if c == "bs_ind":
        f = S.BSplineIndependentSpinMagnitudes(n, n2, *g(0, *mags), *g(1, *mags))
        return c, dict(acoefs=x, bcoefs=y), lambda p, w: f(p["acoefs"], p["bcoefs"], pe_samples=w == 0)
    if c == "bs_tilt":
        f = S.BSplineIIDSpinTilts(n, *g(0, *tilts), *g(1, *tilts))
        return c, dict(tcoefs=x), lambda p, w: f(p["tcoefs"], pe_samples=w == 0)
    xi, sg = lambda: float(rng.uniform(0.1, 0.9)), lambda: float(rng.uniform(0.3, 2))  # noqa: E731
    if c == "tilt":
        return c, dict(xi_tilt=xi(), sigma_tilt=sg()), lambda p, w: M.iid_spin_tilt(*g(w, *tilts), **p)
    if c == "tilt_ind":
        return c, dict(xi_tilt_1=xi(), xi_tilt_2=xi(), sigma_tilt1=sg(), sigma_tilt2=sg()), lambda p, w: M.independent_spin_tilt(*g(w, *tilts), **p)
    if c == "tilt_default":
        return c, dict(xi_tilt=xi(), sigma_tilt=sg()), lambda p, w: M.default_spin_tilt(*g(w, *tilts), **p)
    return c, {}, lambda p, w: 1.0


def redshift(rec, D):
    rng = rec.rng
    z = [jnp.asarray(d["redshift"]) for d in D]
    c = str(rng.choice(["pl", "plspline", "bspline"]))
    n = int(rng.integers(5, 9))
    cs = rng.normal(0, 0.5, n)
    lamb = float(rng.uniform(-1, 4))
    if c == "pl":
        f = M.PowerlawRedshiftModel(*z)
        return c, dict(lamb=lamb), lambda p, w: f(z[w], p["lamb"]), lambda p: f.normalization(p["lamb"])
    if c == "plspline":
        f = P.PowerlawSplineRedshiftModel(n, *z)
        return c, dict(lamb=lamb, zcs=cs), lambda p, w: f(z[w], p["lamb"], p["zcs"]), lambda p: f.normalization(p["lamb"], p["zcs"])
    f = B.BSplineRedshift(n, *z, *[jnp.asarray(LVK.dVcdz(np.asarray(x))) for x in z])
    return c, dict(zcs=cs), lambda p, w: f(p["zcs"], pe_samples=w == 0), lambda p: f.normalization(p["zcs"])


def judge_grad(rec, model, params, what):
    """gradient of the traced log density: finite, equal to its finite differences, eager and compiled"""
    f = lambda p: log_density(model, (), {}, p)[0]  # noqa: E731
    fj = jax.jit(f)
    params = {k: jnp.asarray(rec.arr(v)) for k, v in params.items()}
    v0, g = jax.value_and_grad(f)(params)
    vj, gj = jax.jit(jax.value_and_grad(f))(params)
    v0 = float(v0)
    scale = 1 + abs(v0)
    rec.ev("gradient components", int(sum(np.size(x) for x in g.values())))
    if not rec.true(np.isfinite(v0) and v0 > -1e30, f"{what}: log posterior finite", value=v0):
        return
    rec.close(float(vj), v0, f"{what}: compiled value", 0, 200 * rec.eps * scale * (10 if not rec.x64 else 1))
    gn = np.sqrt(sum(float((np.asarray(x, float) ** 2).sum()) for x in g.values())) + 1
    for k in g:
        if not rec.true(np.isfinite(np.asarray(g[k])), f"{what}: gradient of {k} finite", value=g[k]):
            return
        rec.close(np.asarray(gj[k]), np.asarray(g[k]), f"{what}: compiled gradient of {k}", rec.tol(2e-3, 1e-8), rec.tol(1e-3, 1e-9) * gn)
    at = lambda q: float(fj(q))  # noqa: E731
    if rec.x64:
        for k, x in params.items():
            x = np.asarray(x)
            for i in np.ndindex(x.shape):
                h = 2e-5 * (1 + abs(x[i]))
                num = []
                for s in (1, 0.5):
                    hi, lo = x.copy(), x.copy()
                    hi[i] += s * h
                    lo[i] -= s * h
                    num.append((at(dict(params, **{k: jnp.asarray(hi)})) - at(dict(params, **{k: jnp.asarray(lo)}))) / (hi[i] - lo[i]))
                rich = (4 * num[1] - num[0]) / 3
                rec.close(float(np.asarray(g[k])[i]), rich, f"{what}: gradient of {k} is the derivative of the log posterior", 1e-5, 1e-6 * gn ** 0.5 + 1e-8 * scale + 4 * abs(num[1] - num[0]))
                rec.ev("finite differences")
    else:
        for _ in range(3):
            d = {k: rec.rng.normal(size=np.shape(v)) for k, v in params.items()}
            h = 0.004
            mv = lambda s: at({k: jnp.asarray(rec.arr(np.asarray(v, float) + s * d[k])) for k, v in params.items()})  # noqa: E731
            num = [(mv(s) - mv(-s)) / (2 * s) for s in (h, h / 2)]
            want = sum(float((np.asarray(g[k], float) * d[k]).sum()) for k in params)
            unc = 40 * rec.eps * scale * 30 / h + 4 * abs(num[0] - num[1])
            if unc > 0.2 * (1 + abs(want)) or not np.isfinite(unc):
                rec.ev("directional difference too noisy")
                continue
            rec.close(want, num[1], f"{what}: directional derivative", 0.02, unc)
            rec.ev("directional differences")


def population(rec):
    rng = rec.rng
    D = data(rec)
    log = bool(rng.random() < 0.5)
    cm, pm, fm = mass(rec, D)
    cs, ps, fs = spin(rec, D)
    cz, pz, fz, nz = redshift(rec, D)
    opt = dict(marginalize_selection=bool(rng.random() < 0.3), min_neff_cut=False, reconstruct_rate=bool(rng.random() < 0.5))
    groups = dict(m=pm, s=ps, z=pz)
    params = {f"{g}_{k}": v for g, d in groups.items() for k, v in d.items()}
    pen = float(rng.uniform(0.5, 3))
    rec.note(mass=cm, spin=cs, z=cz, log=log, opt=opt, params=params)
    pri = [jnp.asarray(d["prior"]) for d in D]
    if opt["reconstruct_rate"]:
        params["unscaled_rate"] = float(rng.uniform(1, 6))

    def model():
        p = {}
        for g, d in groups.items():
            p[g] = {k: numpyro.sample(f"{g}_{k}", dist.Normal(jnp.zeros(np.shape(v)), 20.0).to_event(np.ndim(v))) for k, v in d.items()}
            for k, v in d.items():
                if np.ndim(v):
                    numpyro.factor(f"smooth_{g}_{k}", apply_difference_prior(p[g][k], pen, 2))
        w = [fm(p["m"], i) * fs(p["s"], i) * fz(p["z"], i) / pri[i] for i in (0, 1)]
        if log:
            w = [jnp.log(x) for x in w]
        A.hierarchical_likelihood(w[0], w[1], N_ * 40, E_, 0.7, surveyed_hypervolume=nz(p["z"]) * 1e9, log=log, **opt)

    if cm == "plpeak_smooth" and log:
        # a density that underflows has no log; keep the samples that keep the density positive
        w0 = np.asarray(fm({k: jnp.asarray(rec.ft(v)) for k, v in pm.items()}, 0)), np.asarray(fm({k: jnp.asarray(rec.ft(v)) for k, v in pm.items()}, 1))
        if (w0[0] <= 1e-30).any() or (w0[1] <= 1e-30).any():
            log = False
            rec.ev("switched to linear weights")
    rec.call(judge_grad, rec, model, params, f"{cm}/{cs}/{cz}")


CFG = {
    "Powerlaw": (lambda rng: dict(alpha=-float(rng.uniform(1.5, 4)), minimum=float(rng.uniform(2, 4)), maximum=float(rng.uniform(75, 100))), "mass_1"),
    "PowerlawSmoothedPowerlaw": (lambda rng: dict(alpha=-float(rng.uniform(1.5, 4)), minimum=float(rng.uniform(9, 12)), maximum=float(rng.uniform(45, 60)), alpha_max=float(rng.uniform(3, 8)), alpha_min=float(rng.uniform(2, 6))), "mass_1"),
}


def configured(rec):
    """distributions combined by the config interface (always in log space)"""
    rng = rec.rng
    pe, inj = data(rec)
    fam = str(rng.choice(["Powerlaw", "PowerlawSmoothedPowerlaw", "mix"]))
    d = dist
    hp, fixed, md = {}, {}, {}
    if fam == "mix":
        md["mass_1"] = PA.PopMixtureModel(d.MixtureGeneral, d.Categorical, ["probs"], [ND.Powerlaw, d.TruncatedNormal], [["alpha", "minimum", "maximum"], ["loc", "scale", "low", "high"]])
        hp.update(mass_1_component_1_alpha=-float(rng.uniform(1.5, 4)), mass_1_component_2_loc=float(rng.uniform(25, 40)), mass_1_component_2_scale=float(rng.uniform(4, 12)))
        fixed.update(mass_1_component_1_minimum=2.0, mass_1_component_1_maximum=100.0, mass_1_component_2_low=2.0, mass_1_component_2_high=100.0, mass_1_mixture_dist_probs=jnp.asarray([0.7, 0.3]))
    else:
        v = CFG[fam][0](rng)
        extra = {"low": 2.0, "high": 100.0} if fam != "Powerlaw" else {}
        md["mass_1"] = PA.PopModel(getattr(ND, fam), list(v) + list(extra))
        hp.update({f"mass_1_{k}": x for k, x in v.items()})
        fixed.update({f"mass_1_{k}": x for k, x in extra.items()})
    md["mass_ratio"] = PA.PopModel(ND.Powerlaw, ["alpha", "minimum", "maximum"])
    hp["mass_ratio_alpha"] = float(rng.uniform(0.3, 3))
    fixed.update(mass_ratio_minimum=0.02, mass_ratio_maximum=1.0)
    md["redshift"] = PA.PopModel(ND.PowerlawRedshift, ["lamb", "maximum"])
    hp["redshift_lamb"] = float(rng.uniform(-1, 4))
    fixed["redshift_maximum"] = 2.3
    if rng.random() < 0.5:
        md["a_1"] = PA.PopModel(d.Beta, ["concentration1", "concentration0"])
        md["a_2"] = "a_1"
        hp.update(a_1_concentration1=float(rng.uniform(1.2, 4)), a_1_concentration0=float(rng.uniform(1.2, 4)))
    pr = {**{k: PA.PopPrior(d.Normal, {"loc": 0.0, "scale": 50.0}) for k in hp}, **fixed}
    rec.note(fam=fam, hp=hp, names=list(md))
    model = rec.call(A.construct_hierarchical_model, md, pr, min_neff_cut=False, posterior_predictive_check=False)
    ds = [{k: jnp.asarray(v) for k, v in x.items()} for x in (pe, inj)]
    hp["unscaled_rate"] = float(rng.uniform(1, 6))
    judge_grad(rec, lambda: model(ds[0], ds[1], N_ * 40, E_, 0.7), hp, f"config/{fam}")


def window(rec):
    """the low-mass smoothing window itself: gradients at, near and far from both of its ends"""
    rng = rec.rng
    lo, dx = float(rec.ft(rng.uniform(1, 10))), float(rec.ft(rng.choice([rng.uniform(0.05, 1), rng.uniform(1, 10)])))
    top = float(rec.ft(rec.ft(lo) + rec.ft(dx)))
    frac = rng.uniform(0.02, 0.98, 12)
    x = np.concatenate([[lo, top, lo * 0.9, lo - 20 * dx, top * 1.1, top + 50 * dx, np.nextafter(rec.ft(lo), rec.ft(99)), np.nextafter(rec.ft(top), rec.ft(0)), np.nextafter(rec.ft(top), rec.ft(999)), np.nextafter(rec.ft(lo), rec.ft(0))],
                        lo + dx * frac, lo + dx * 10 ** rng.uniform(-5, -2, 3), top - dx * 10 ** rng.uniform(-5, -2, 3), top + dx * 10 ** rng.uniform(-6, -2, 3)])
    x = rec.arr(x)
    rec.note(lo=lo, dx=dx)

    def total(p, xs):
        return jnp.sum(DI.smooth(p[0], xs, p[1]))

    for sh, xs in (("one", x), ("crowd", x.reshape(1, -1))):
        g = np.asarray(rec.call(jax.grad(total), jnp.asarray(rec.arr([dx, lo])), jnp.asarray(xs)))
        rec.true(np.isfinite(g).all(), f"smoothing window: gradient finite ({sh})", g=g)
    gj = np.asarray(rec.call(jax.jit(jax.vmap(jax.grad(total), (None, 0))), jnp.asarray(rec.arr([dx, lo])), jnp.asarray(x)))
    rec.ev("gradient components", gj.size)
    rec.true(np.isfinite(gj), "smoothing window: gradient of every sample finite", x=x, g=gj)
    xf, D = x.astype(float), rec.ft(dx).astype(float)
    d = xf - float(rec.ft(lo))
    inside = (d > 0) & (d < D)
    s = np.where(inside, d, 0.5 * D)
    with np.errstate(over="ignore"):
        f = D / s + D / (s - D)
        e = np.exp(-np.abs(f))
        slope = e / (1 + e) ** 2  # expit'(f)
    by_dx = np.where(inside, -slope * (1 / s + 1 / (s - D) + D / (s - D) ** 2), 0)
    by_lo = np.where(inside, -slope * (D / s**2 + D / (s - D) ** 2), 0)
    clear = (~inside & ((d < -1e-3 * D) | (d > D * 1.001))) | (inside & (d > 0.02 * D) & (d < 0.98 * D))
    # conditioning of d = x - lo at working precision
    steep = 1 / s + 1 / np.abs(s - D) + D / s**2 + D / (s - D) ** 2
    amp = rec.eps * (1 + np.abs(xf)) * (steep + 2 / s + 2 / np.abs(s - D)) * 20 + 40 * rec.eps * (1 + np.abs(f))
    for k, w in ((0, by_dx), (1, by_lo)):
        rec.close(gj[clear, k], w[clear], "smoothing window: gradient is the derivative", np.minimum(amp, 1.0)[clear], (8 * rec.eps * steep)[clear])


def adam(x, grad, lr, n):
    """reference Adam (b1=.9, b2=.999, eps=1e-8) minimising"""
    m = v = np.zeros_like(x)
    for i in range(n):
        g = grad(x)
        m, v = 0.9 * m + 0.1 * g, 0.999 * v + 0.001 * g * g
        x = x - lr * (m / (1 - 0.9 ** (i + 1))) / (np.sqrt(v / (1 - 0.999 ** (i + 1))) + 1e-8)
    return x


def quad(rng):
    n = int(rng.integers(1, 4))
    sites = {}
    for i in range(n):
        sh = () if rng.random() < 0.5 else (int(rng.integers(2, 5)),)
        sites[f"x{i}"] = (rng.normal(0, 1.5, sh), np.exp(rng.normal(0, 0.4, sh)))
    return sites


def quad_model(sites, obs):
    def model(y=None, t=None):
        tot = 0.0
        for k, (m, s) in sites.items():
            tot = tot + jnp.sum(numpyro.sample(k, dist.Normal(jnp.asarray(m), jnp.asarray(s)).to_event(np.ndim(m))))
        if y is not None:
            numpyro.factor("obs", -0.5 * jnp.sum((y - tot) ** 2) / t**2)
    return model


def optimise(rec):
    rng = rec.rng
    sites = quad(rng)
    args = (jnp.asarray(rec.arr(rng.normal(0, 2, 3))), float(rng.uniform(1.5, 3))) if rng.random() < 0.5 else ()
    model = quad_model(sites, bool(args))
    key = int(rng.integers(1000))
    lr = float(rng.choice([0.01, 0.03, 0.1]))
    rec.note(sites=list(sites), args=len(args), key=key, lr=lr)
    run = lambda k=key, **kw: {a: np.asarray(b) for a, b in rec.call(A.find_map, random.PRNGKey(k), model, *args, **kw).items()}  # noqa: E731
    names = [f"{k}_auto_loc" for k in sites]
    # mode of the quadratic
    idx, mu, prec = [], [], []
    for k, (m, s) in sites.items():
        mu += list(np.ravel(m))
        prec += list(1 / np.ravel(s * np.ones_like(m)) ** 2)
    mu, prec = np.array(mu), np.array(prec)
    H, b = np.diag(prec), prec * mu
    if args:
        y, t = np.asarray(args[0], float), args[1]
        H = H + len(y) / t**2
        b = b + y.sum() / t**2
    mode = np.linalg.solve(H, b)
    flat = lambda r: np.concatenate([np.ravel(r[n]) for n in names]).astype(float)  # noqa: E731
    one = run(Niter=1, lr=lr)
    rec.true(set(one) == set(names), "one parameter per sampled site", got=sorted(one))
    for k, (m, s) in sites.items():
        rec.true(one[f"{k}_auto_loc"].shape == np.shape(m), f"shape of {k}")
    # first step has length lr: recover the start point, then follow the reference iteration
    x1 = flat(one)
    start = flat(run(Niter=1, lr=1e-9))
    g = H @ start - b
    big = np.abs(g) > 1e-3
    rec.close((start - x1)[big], (lr * np.sign(g))[big], "first step uses the learning rate, downhill", 0.01, rec.tol(1e-5, 1e-8))
    for n in (int(rng.integers(2, 12)), int(rng.integers(20, 60)), 100):
        kw = {} if n == 100 and rng.random() < 0.5 else {"Niter": n}
        kw2 = {} if lr == 0.01 and rng.random() < 0.5 else {"lr": lr}
        got = flat(run(**kw, **kw2))
        ref = adam(start, lambda x: H @ x - b, lr, n)
        rec.close(got, ref, f"trajectory after {n} iterations", 0, rec.tol(3e-3, 1e-4) * (1 + n * lr * 0.2))
        rec.ev("iterations", n)
    spelled = A.find_map(random.PRNGKey(key), model, *args, Niter=100, lr=0.01)
    rec.close(flat(run()), flat(spelled), "documented defaults: 100 iterations, learning rate 0.01", 30 * rec.eps, 30 * rec.eps)
    n = int(rng.integers(1100, 1900))
    rec.close(flat(run(Niter=n, lr=1e-3)), adam(start, lambda x: H @ x - b, 1e-3, n), "trajectory of a long slow search", 0, rec.tol(5e-3, 1e-4))
    far = run(Niter=3000, lr=0.05)
    rec.close(flat(far), mode, "converges to the maximum", 0, rec.tol(0.12, 0.03))
    again = run(Niter=3000, lr=0.05)
    rec.true(all(np.array_equal(far[k], again[k]) for k in far), "identical for the same key")
    other = run(k=key + 7, Niter=1, lr=1e-9)
    rec.true(not np.allclose(flat(other), start, atol=1e-4), "the key decides the starting point")


def constrained(rec):
    """modes of constrained sites (the search maximises the model's own density, without change of variables)"""
    rng = rec.rng
    a, b = float(rng.uniform(2, 6)), float(rng.uniform(0.5, 3))
    c, d = float(rng.uniform(1.8, 5)), float(rng.uniform(1.8, 5))
    s = float(rng.uniform(0.5, 3))
    obs = rec.arr(rng.normal(1, 0.5, 6))
    rec.note(a=a, b=b, c=c, d=d, s=s)

    def model(y):
        numpyro.sample("g", dist.Gamma(a, b))
        numpyro.sample("u", dist.Beta(c, d))
        m = numpyro.sample("m", dist.Normal(0, s))
        numpyro.deterministic("twice", 2 * m)
        numpyro.sample("y", dist.Normal(m, 0.5), obs=y)

    r = rec.call(A.find_map, random.PRNGKey(int(rng.integers(1000))), model, jnp.asarray(obs), Niter=4000, lr=0.02)
    rec.true(set(r) == {"g_auto_loc", "u_auto_loc", "m_auto_loc"}, "one parameter per sampled site", got=sorted(r))
    rec.close(np.asarray(r["g_auto_loc"]), (a - 1) / b, "mode of a Gamma", 0.02, rec.tol(0.03, 3e-3))
    rec.close(np.asarray(r["u_auto_loc"]), (c - 1) / (c + d - 2), "mode of a Beta", 0.02, rec.tol(0.03, 3e-3))
    o = obs.astype(float)
    rec.close(np.asarray(r["m_auto_loc"]), (o.sum() / 0.25) / (len(o) / 0.25 + 1 / s**2), "mode of a Normal with data", 0.01, rec.tol(0.03, 5e-3))


def climb(rec):
    """the search on a population model raises its log density"""
    rng = rec.rng
    D = data(rec)
    n = int(rng.integers(5, 9))
    f = S.BSplineIIDSpinMagnitudes(n, *[jnp.asarray(D[i][k]) for i in (0, 1) for k in ("a_1", "a_2")])
    pri = [jnp.asarray(d["prior"]) for d in D]

    def model():
        c = numpyro.sample("cs", dist.Normal(0, 3).expand([n]))
        numpyro.factor("smooth", apply_difference_prior(c, 1.0, 2))
        A.hierarchical_likelihood(f(c, True) / pri[0], f(c, False) / pri[1], N_ * 40, E_, 0.7, reconstruct_rate=False, min_neff_cut=False)

    lp = lambda r: float(log_density(model, (), {}, {"cs": r["cs_auto_loc"]})[0])  # noqa: E731
    key = int(rng.integers(1000))
    rec.note(n=n, key=key)
    rs = [rec.call(A.find_map, random.PRNGKey(key), model, Niter=k, lr=0.02) for k in (1, 40, 400)]
    ls = [lp(r) for r in rs]
    rec.true(ls[0] < ls[1] + 1e-4 * abs(ls[1]) and ls[1] <= ls[2] + 1e-4 * abs(ls[2]), "log density increases along the search", ls=ls)
    g = jax.grad(lambda c: log_density(model, (), {}, {"cs": c})[0])(rs[2]["cs_auto_loc"])
    g0 = jax.grad(lambda c: log_density(model, (), {}, {"cs": c})[0])(rs[0]["cs_auto_loc"])
    rec.true(np.linalg.norm(np.asarray(g)) < 0.5 * np.linalg.norm(np.asarray(g0)) + 0.05, "gradient shrinks along the search", end=g, start=g0)


KINDS = {"population": (population, 48, 700), "configured": (configured, 16, 200), "optimise": (optimise, 16, 160), "constrained": (constrained, 6, 40), "climb": (climb, 8, 60), "window": (window, 40, 500)}
