import jax.numpy as jnp
import numpy as np

from gwinferno import interpolation as I
from gwinferno.cosmology import PLANCK_2015_LVK_Cosmology as LVK
from gwinferno.models.bsplines.single import BSplineRedshift
from gwinferno.models.parametric.parametric import PowerlawRedshiftModel
from gwinferno.models.spline_perturbation import PowerlawSplineRedshiftModel
from gwinferno.pipeline.utils import setup_powerlaw_spline_redshift_model

from .. import oracles as O
from . import spl

RULE = ("random redshift samples and injections (different ranges, counts, orders, shapes; overlap from narrow to wide) x evolution exponent x spline counts, bases and coefficients; "
        "non-trivial = densities and normalisations compared with float64 integration of the Friedmann equation and an independent spline")
ASSUMPTIONS = ["integration accuracy of the 1000 point redshift grid and of the cosmology table (0.3%)", "redshifts between 1e-3 and 22", "samples within rounding of the shared upper redshift are not judged"]
COSMO = 3e-3


def redshifts(rec):
    rng = rec.rng
    top = float(rng.choice([0.5, 1.2, 1.9, 3.0, 8.0, 14.0]))
    zlow = 0.001
    if rng.random() < 0.35:  # any depth, and surveys that start well above zero
        top = float(10 ** rng.uniform(-1.6, 1.1))
        zlow = float(np.maximum(0.001, top * rng.uniform(0, 0.5)))
    zi = np.sort(rng.uniform(zlow, top, 60))
    ev = []
    for _ in range(3):
        c = rng.uniform(0.05, 0.8) * top
        ev.append(np.abs(c * (1 + 0.3 * rng.normal(size=16))) + 0.001)
    zp = np.minimum(np.array(ev), top * 1.6)
    zi = rng.permutation(zi)
    return rec.arr(zp), rec.arr(zi)


def shared(zp, zi):
    return max(float(zp.min()), float(zi.min())), min(float(zp.max()), float(zi.max()))


def norm_ref(f, lo, hi):
    a, b = np.linspace(lo, hi, 1000), np.linspace(lo, hi, 8001)
    c, d = O.trapz(f(a), a), O.trapz(f(b), b)
    return d, abs(c / d - 1)


def powerlaw(rec):
    rng = rec.rng
    zp, zi = redshifts(rec)
    lo, hi = shared(zp, zi)
    if hi < lo * 1.1:
        rec.skip("no overlap")
    lam = float(rec.ft(rng.choice([0.0, 1.0, rng.uniform(-6, 8)])))
    rec.note(lamb=lam, zmin=lo, zmax=hi, npe=zp.shape, ninj=zi.shape)
    m = rec.call(PowerlawRedshiftModel, *spl.maybe_jax(rec, zp, zi))
    f = lambda z: O.PLANCK15_LVK.dV(z) * (1 + z) ** (lam - 1)  # noqa: E731
    n, disc = norm_ref(f, lo, hi)
    tol = COSMO + 2 * disc + 300 * rec.eps * (1 + abs(lam))
    rec.close(rec.call(m.normalization, lam), n, "power law: reported normalisation", tol)
    for what, z in (("samples", zp), ("injections", zi)):
        zf = z.astype(float)
        edge = np.abs(zf - hi) < 1e-6
        want = np.where(zf <= hi, f(zf) / n, 0.0)
        z_ = jnp.asarray(z) if rng.random() < 0.5 else z
        got = np.asarray(rec.call(m, z_, lam))
        rec.close(np.where(edge, 0, got), np.where(edge, 0, want), f"power law on {what}", 2 * tol, 1e-12)
        lp = np.asarray(rec.call(m.log_prob, z_, lam)).astype(float)
        ins = (zf <= hi) & ~edge
        rec.close(lp[ins], np.log(got[ins].astype(float)), f"power law: log form on {what}", 0, 100 * rec.eps * (30 + abs(lam)))
        rec.true(lp[(zf > hi) & ~edge] < -1e30, f"power law: log form above the shared range on {what}")
        rec.true(got[(zf > hi) & ~edge] == 0, f"power law: support above the shared range on {what}")
    # order and number do not matter: the same redshifts again, permuted and duplicated
    perm = rng.permutation(zi.size)
    m2 = rec.call(PowerlawRedshiftModel, zp[::-1].copy(), np.concatenate([zi[perm], zi[:7]]).astype(rec.ft))
    got2 = np.asarray(rec.call(m2, jnp.asarray(np.concatenate([zi[perm], zi[:7]])), lam))
    base = np.asarray(rec.call(m, jnp.asarray(zi), lam))
    rec.close(got2, np.concatenate([base[perm], base[:7]]), "power law: order or number of the samples matters", 100 * rec.eps * (1 + abs(lam)) + (1e-4 if zp.max() > 9.9 else 0), 1e-12)
    # agreement of samples and injections at equal redshift
    z = rec.arr(np.sort(rng.uniform(0.01, 1.5, 12)))
    m3 = rec.call(PowerlawRedshiftModel, z.reshape(2, 6), z)
    rec.close(np.asarray(rec.call(m3, z.reshape(2, 6), lam)).ravel(), rec.call(m3, z, lam), "power law: the same redshift differs between samples and injections", 100 * rec.eps, 1e-12)
    rec.close(rec.call(m.prob, jnp.asarray(zi), LVK.dVcdz(zi), lam), f(zi.astype(float)), "power law: unnormalised rate density", 2 * COSMO + 50 * rec.eps * abs(lam), 0)


def plspline(rec):
    rng = rec.rng
    zp, zi = redshifts(rec)
    lo, hi = shared(zp, zi)
    if hi < lo * 1.5:
        rec.skip("no overlap")
    n = int(5 + rng.integers(0, 12))
    lam = float(rec.ft(rng.uniform(-4, 6)))
    c = rec.arr(rng.normal(0, float(rng.choice([0.3, 1.0, 2.0])), n))
    if rng.random() < 0.2:
        c[:] = 0
    rec.note(n=n, lamb=lam, coefs=c, zmin=lo, zmax=hi)
    zp_, zi_ = spl.maybe_jax(rec, zp, zi)
    kw = {}
    fam = "LogXBSpline"
    if rng.random() < 0.4:
        fam = "BSpline"
        kw["basis"] = I.BSpline
        m = rec.call(PowerlawSplineRedshiftModel, n, zp_, zi_, **kw)
    elif rng.random() < 0.5:
        m = rec.call(setup_powerlaw_spline_redshift_model, {"redshift": zp_}, {"redshift": zi_}, n)
    else:
        m = rec.call(PowerlawSplineRedshiftModel, n, zp_, zi_)
    lx = fam == "LogXBSpline"
    u = (lambda z: np.log(z)) if lx else (lambda z: z)
    t = O.uniform_knots(n, 4, u(lo), u(hi))
    g = lambda z: np.exp(np.einsum("i...,i->...", O.bspline_matrix(np.clip(u(z), u(lo), u(hi)), t, 4, u(lo), u(hi)), c.astype(float)))  # noqa: E731
    f = lambda z: O.PLANCK15_LVK.dV(z) * (1 + z) ** (lam - 1) * g(z)  # noqa: E731
    nn, disc = norm_ref(f, lo, hi)
    h = (hi - lo) / 999
    edge_allow = 0.5 * h * (f(np.array([lo])) + f(np.array([hi])))[0] * (1 + np.exp(np.abs(c).max())) / nn if lx else 0
    sa = spl.spline_atol(rec, t, 4, False) * np.abs(c).sum()
    tol = COSMO + 2 * disc + edge_allow + 300 * rec.eps * (1 + abs(lam)) + 2 * sa
    rec.close(rec.call(m.normalization, lam, c), nn, "power law times spline: reported normalisation", tol)
    for what, z in (("samples", zp), ("injections", zi)):
        zf = z.astype(float)
        edge = (np.abs(zf - hi) < 1e-5 * (1 + hi)) | (np.abs(zf - lo) < 1e-5 * (1 + lo))
        want = np.where(zf > hi, 0.0, f(zf) / nn)
        got = np.asarray(rec.call(m, jnp.asarray(z), lam, c))
        judged = ~edge & (zf > lo)  # below the shared range the perturbation is undefined
        rec.close(got[judged], want[judged], f"power law times spline on {what}", 2 * tol, 1e-12)
        rec.true(got[(zf > hi) & ~edge] == 0, f"power law times spline: support above the shared range on {what}")
        rec.true(np.isfinite(got) & (got >= 0), f"power law times spline: not finite or negative on {what}")
    if not c.any():
        pl = rec.call(PowerlawRedshiftModel, zp, zi)
        a, b = np.asarray(rec.call(m, jnp.asarray(zi), lam, c)), np.asarray(rec.call(pl, jnp.asarray(zi), lam))
        rec.close(a, b, "zero coefficients do not reduce to the power law", 300 * rec.eps + (1e-4 if max(zp.max(), zi.max()) > 9.9 else 0), 1e-12)


def bspl(rec):
    rng = rec.rng
    zp, zi = redshifts(rec)
    lo, hi = shared(zp, zi)
    if hi < lo * 1.5:
        rec.skip("no overlap")
    n = int(5 + rng.integers(0, 12))
    kw = {}
    a, b = 1e-4, 2.3
    r = rng.random()
    if r < 0.3:
        b = float(rng.choice([1.0, 3.0]))
        kw["zmax"] = b
    elif r < 0.5:
        a, b = 0.01, float(rng.choice([1.5, 4.0]))
        kw["xrange"] = (a, b)
    fam = "LogXBSpline"
    norm = bool(rng.random() < 0.4)
    if rng.random() < 0.4:
        fam = "BSpline"
        kw["basis"] = I.BSpline
    kw["normalize"] = norm
    deg = 3
    if rng.random() < 0.4:
        deg = int(rng.choice([2, 3]))
        kw["degree"] = deg
    c = rec.arr(rng.normal(0, float(rng.choice([0.3, 1.0])), n)) if not norm else rec.arr(spl.coefs_for(rng, fam, n))
    rec.note(n=n, fam=fam, xrange=(a, b), normalize=norm, deg=deg, coefs=c, zmin=lo, zmax=hi)
    dp, di = rec.arr(np.array(LVK.dVcdz(zp))), rec.arr(np.array(LVK.dVcdz(zi)))
    m = rec.call(BSplineRedshift, n, *spl.maybe_jax(rec, zp, zi, dp, di), **kw)
    ref = O.SplineDensity(fam, n, deg + 1, a, b, normalize=norm)
    cc = c.astype(float)
    sdisc = 0.0
    if norm:
        sdisc = abs(ref.norms(cc)[0] / ref.norms(cc)[1] - 1)

    def g(z):
        return np.where((z >= a) & (z <= b), np.exp(ref.pdf(np.clip(z, a, b), cc)[0]), 0.0)

    f = lambda z: O.PLANCK15_LVK.dV(z) / (1 + z) * g(z)  # noqa: E731
    nn, disc = norm_ref(f, lo, hi)
    if not nn > 0:
        rec.skip("the spline range misses the shared redshifts")
    # exponent error of a normalised spline
    zz = np.concatenate([zp.ravel(), zi]).astype(float)
    peak = ref.pdf(np.clip(np.concatenate([zz, np.linspace(lo, hi, 200)]), a, b), cc)[0].max()
    rt, at = spl.density_tol(rec, ref, cc, sdisc)
    grid_jump = (hi - lo) / 999 * f(np.array([min(b, hi)]))[0] / nn  # grid cell cut by the end of the range
    tol = COSMO + 2 * disc + 2 * (rt * abs(peak) + at) + grid_jump + 300 * rec.eps
    if tol > 0.2:
        rec.skip("spline peak too sharp for the documented grid")
    rec.close(rec.call(m.normalization, c), nn, "spline: reported normalisation", tol)
    for what, z, flag in (("samples", zp, True), ("injections", zi, False)):
        zf = z.astype(float)
        edge = (np.abs(zf - a) < 1e-4 * a + 1e-6) | (np.abs(zf - b) < 1e-4)
        got = np.asarray(rec.call(m, c, pe_samples=flag))
        rec.close(np.where(edge, 0, got), np.where(edge, 0, f(zf) / nn), f"spline redshift model on {what}", 2 * tol, 1e-12)
        rec.true(got[((zf < a) | (zf > b)) & ~edge] == 0, f"spline: support outside the range on {what}")


KINDS = {"powerlaw": (powerlaw, 36, 600), "powerlaw-spline": (plspline, 32, 500), "spline": (bspl, 32, 500)}
