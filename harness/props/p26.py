import jax.numpy as jnp
import numpy as np

from gwinferno import interpolation as I
from gwinferno.models.parametric.parametric import PowerlawRedshiftModel
from gwinferno.models.spline_perturbation import PowerlawSplineRedshiftModel
from gwinferno.postprocess import calculations as K

from .. import oracles as O
from . import spl
from .p05 import idx

RULE = ("random hyper-parameter draws (1-5, each different) x spline counts x mass ranges x rates and fractions given or not, through every predictive-curve calculator; "
        "non-trivial = every curve of every draw compared with the float64 marginal of the model on the returned grid")
ASSUMPTIONS = ["marginals are trapezoid sums on the returned grid; allowance of one grid cell at the edge of the allowed mass-ratio region", "Beta shapes >= 1 (finite density at the edges)",
               "truncated Gaussians keep at least 1e-3 of their mass inside the bounds"]


def scales(rec, n):
    rng = rec.rng
    rate = rec.arr(10 ** rng.uniform(-1, 2, n)) if rng.random() < 0.65 else None
    frac = rec.arr(rng.uniform(0.05, 1, n)) if rng.random() < 0.6 else None
    kw = {}
    if rate is not None:
        kw["rate"] = jnp.asarray(rate) if rng.random() < 0.6 else rate
    if frac is not None:
        kw["pop_frac"] = jnp.asarray(frac) if rng.random() < 0.6 else frac
    s = (np.ones(n) if rate is None else rate.astype(float)) * (np.ones(n) if frac is None else frac.astype(float))
    return kw, s


def grid(rec, g, lo, hi, what):
    g = np.asarray(g).astype(float)
    rec.close(np.array([g[0], g[-1]]), np.array([lo, hi]), f"{what}: grid spans the model's range", 4 * rec.eps, 4 * rec.eps)
    rec.true(np.all(np.diff(g) > 0) and len(g) >= 100, f"{what}: grid increasing")
    return g


def curve(rec, got, dens, x, s, what, rt, unc=None):
    """got: (draws, grid); dens: list of float64 densities on the grid; unc: absolute uncertainty of the unnormalised density"""
    got = np.asarray(got)
    rec.true(got.shape == (len(dens), len(x)), f"{what}: one curve per draw", shape=got.shape)
    rec.true(np.isfinite(got) & (got >= 0), f"{what}: finite and non-negative")
    if got.shape != (len(dens), len(x)):
        return
    for i, p in enumerate(dens):
        nrm = O.trapz(p, x)
        u = np.zeros_like(p) if unc is None else unc[i]
        rel = O.trapz(u, x) / nrm
        rec.close(got[i], s[i] * p / nrm, f"{what}: curve of its draw", rt + rel, s[i] * (u / nrm + 1e-7 * rec.tol(1, 1e-6) * np.max(p) / nrm))
        rec.close(O.trapz(got[i].astype(float), x), s[i], f"{what}: normalised to rate times fraction", rec.tol(2e-5, 1e-9))


def marginals(P, ms, qs):
    """P[q, m]; marginals with one-cell uncertainty at the boundary of the region"""
    pm, pq = O.trapz(P, qs, axis=0), O.trapz(P, ms, axis=1)
    hm, hq = ms[1] - ms[0], qs[1] - qs[0]
    return pm, pq, hq, hm


def edge_unc(F, allowed, ms, qs):
    """density that a rounding-dependent decision at the boundary of the region may add or remove"""
    b = np.zeros_like(allowed)
    b[:-1] |= allowed[1:] != allowed[:-1]
    b[1:] |= allowed[1:] != allowed[:-1]
    near = np.abs(qs[:, None] * ms[None, :] / ms[0] - 1) < 1e-5
    B = np.where(b & near, F, 0.0)
    return O.trapz(B, qs, axis=0), O.trapz(B, ms, axis=1)


def bspline_mass(rec):
    rng = rec.rng
    n = int(rng.integers(1, 4))
    nm, nq = int(rng.choice([6, 14])), int(rng.choice([5, 10]))
    mmin, mmax = float(rng.choice([2.0, 3.0, 5.0])), float(rng.choice([60.0, 100.0]))
    cm, cq = rec.arr(rng.normal(0, 1.2, (n, nm))), rec.arr(rng.normal(0, 1.2, (n, nq)))
    kw, s = scales(rec, n)
    rec.note(n=n, nm=nm, nq=nq, mmin=mmin, mmax=mmax, kw=list(kw), cm=cm, cq=cq)
    rec.purity = True
    mp, ms, qp, qs = rec.call(K.calculate_bspline_mass_ppds, cm if rng.random() < 0.5 else jnp.asarray(cm), jnp.asarray(cq), {"m1": nm, "q": nq}, mmin, mmax, **kw)
    ms, qs = grid(rec, ms, mmin, mmax, "spline masses"), grid(rec, qs, mmin / mmax, 1.0, "spline mass ratio")
    a, b, ua, ub, rts = [], [], [], [], 0
    allowed = qs[:, None] * ms[None, :] > mmin * (1 + 1e-9)
    for i in range(n):
        p, r1, a1 = spl.model_pdf(rec, "LogXLogYBSpline", nm, 4, mmin, mmax, True, ms, cm[i])
        q, r2, a2 = spl.model_pdf(rec, "LogYBSpline", nq, 4, mmin / mmax, 1.0, True, qs, cq[i])
        F = q[:, None] * p[None, :]
        P = np.where(allowed, F, 0)
        pm, pq, hq, hm = marginals(P, ms, qs)
        u1, u2 = edge_unc(F, allowed, ms, qs)
        ends = 0.5 * (ms[1] - ms[0]) * P[:, -1]  # the last mass may be lost to rounding of its logarithm
        u1 = u1 + np.where(np.arange(len(ms)) == len(ms) - 1, pm, 0)
        u2 = u2 + ends
        a.append(pm), b.append(pq), ua.append(u1), ub.append(u2)
        rts = max(rts, 2 * float(np.max(r1)) + 2 * float(np.max(r2)))
    rec.ev("curves", 2 * n)
    curve(rec, mp, a, ms, s, "spline primary mass", rts + rec.tol(1e-4, 1e-9), ua)
    curve(rec, qp, b, qs, s, "spline mass ratio", rts + rec.tol(1e-4, 1e-9), ub)


def plpeak(rec):
    rng = rec.rng
    n = int(rng.integers(1, 4))
    mmin, mmax = float(rng.choice([2.0, 3.0, 5.0])), float(rng.choice([60.0, 100.0]))
    al, be = rec.arr([idx(rec, -4, 1) for _ in range(n)]), rec.arr([idx(rec, -2, 5) for _ in range(n)])
    mu, sg, la = rec.arr(rng.uniform(20, 45, n)), rec.arr(rng.uniform(2, 9, n)), rec.arr(rng.uniform(0, 1, n))
    kw, s = scales(rec, n)
    rec.note(n=n, mmin=mmin, mmax=mmax, al=al, be=be, mu=mu, sg=sg, la=la, kw=list(kw))
    rec.purity = True
    f = jnp.asarray if rng.random() < 0.6 else (lambda v: v)
    mp, ms, qp, qs = rec.call(K.calculate_powerlaw_peak_mass_ppds, f(al), f(be), f(mu), f(sg), f(la), mmin, mmax, **kw)
    ms, qs = grid(rec, ms, mmin, mmax, "peak masses"), grid(rec, qs, mmin / mmax, 1.0, "peak mass ratio")
    Q, M = qs[:, None], ms[None, :]
    allowed = Q * M > mmin * (1 + 1e-9)
    a, b, ua, ub = [], [], [], []
    with np.errstate(all="ignore"):
        for i in range(n):
            A, B, mp_, sp, l = (float(v[i]) for v in (al, be, mu, sg, la))
            p = (1 - l) * O.powerlaw(ms, A, mmin, mmax) + l * O.truncnorm(ms, mp_, sp, mmin, mmax)
            low = np.minimum(mmin / M, 1 - 1e-9)
            F = p[None, :] * Q**B * O.powerlaw_norm(B, low, 1.0)
            F[:, 0] = 0
            P = np.where(allowed, F, 0)
            pm, pq, hq, hm = marginals(P, ms, qs)
            u1, u2 = edge_unc(F, allowed, ms, qs)
            soft = O.trapz(P * 20 * rec.eps / np.maximum(1 - low, 1e-6), ms, axis=1)
            a.append(pm), b.append(pq), ua.append(u1 + pm * 20 * rec.eps / np.maximum(1 - low[0], 1e-6) + np.where(np.arange(len(ms)) == len(ms) - 1, pm, 0)), ub.append(u2 + soft + 0.5 * hm * P[:, -1])
    rec.ev("curves", 2 * n)
    curve(rec, mp, a, ms, s, "power law plus peak primary mass", rec.tol(2e-4, 1e-8), ua)
    curve(rec, qp, b, qs, s, "power law plus peak mass ratio", rec.tol(2e-4, 1e-8), ub)


def peaklog(rec):
    rng = rec.rng
    n, nq = int(rng.integers(1, 4)), int(rng.choice([5, 10]))
    mmin, mmax = float(rng.choice([2.0, 3.0, 5.0])), float(rng.choice([60.0, 100.0]))
    mu, sg = rec.arr(rng.uniform(np.log(8), np.log(45), n)), rec.arr(rng.uniform(0.1, 1.2, n))
    cq = rec.arr(rng.normal(0, 1.2, (n, nq)))
    kw, s = scales(rec, n)
    rec.note(n=n, nq=nq, mmin=mmin, mmax=mmax, mu=mu, sg=sg, cq=cq, kw=list(kw))
    rec.purity = True
    mp, ms, qp, qs = rec.call(K.calculate_peak_logm1_bspline_q_ppds, jnp.asarray(mu), jnp.asarray(sg), jnp.asarray(cq), {"q": nq}, mmin, mmax, **kw)
    ms, qs = grid(rec, ms, mmin, mmax, "log peak masses"), grid(rec, qs, mmin / mmax, 1.0, "log peak mass ratio")
    allowed = qs[:, None] * ms[None, :] >= mmin * (1 - 1e-9)
    a, b, ua, ub, rts = [], [], [], [], 0
    for i in range(n):
        p = O.trunclognorm(np.clip(ms, mmin, mmax), float(mu[i]), float(sg[i]), mmin, mmax)
        q, r2, a2 = spl.model_pdf(rec, "LogYBSpline", nq, 4, mmin / mmax, 1.0, True, qs, cq[i])
        F = q[:, None] * p[None, :]
        P = np.where(allowed, F, 0)
        pm, pq, hq, hm = marginals(P, ms, qs)
        u1, u2 = edge_unc(F, allowed, ms, qs)
        u1 = u1 + np.where((np.arange(len(ms)) == len(ms) - 1) | (np.arange(len(ms)) == 0), np.maximum(pm, F[:, 0].max() * hq), 0)
        a.append(pm), b.append(pq), ua.append(u1), ub.append(u2 + 0.5 * hm * (P[:, -1] + F[:, 0]))
        rts = max(rts, 2 * float(np.max(r2)))
    rec.ev("curves", 2 * n)
    curve(rec, mp, a, ms, s, "log-normal peak primary mass", rts + rec.tol(5e-4, 1e-8), ua)
    curve(rec, qp, b, qs, s, "mass ratio of the log-normal peak", rts + rec.tol(5e-4, 1e-8), ub)


def beta(rec):
    rng = rec.rng
    n = int(rng.integers(1, 6))
    al, be = rec.arr(rng.choice([1.0, 1.5, 3.0], n) * rng.uniform(1, 3, n)), rec.arr(rng.uniform(1, 8, n))
    amax = float(rng.choice([1.0, 1.0, 0.7]))
    kw, s = scales(rec, n)
    rec.note(n=n, al=al, be=be, amax=amax, kw=list(kw))
    rec.purity = True
    if amax != 1.0 or rng.random() < 0.5:
        kw["amax"] = amax
    f = jnp.asarray if rng.random() < 0.6 else (lambda v: v)
    p, x = rec.call(K.calculate_beta_spin_mag, f(al), f(be), **kw)
    x = grid(rec, x, 0.0, amax, "spin magnitude")
    x = np.clip(x, 0, amax)
    d = [O.beta_pdf(x, float(al[i]), float(be[i]), amax) for i in range(n)]
    h = x[1] - x[0]
    unc = [np.where(np.arange(len(x)) == len(x) - 1, v[-1] + 1e-6 * v.max(), 0) for v in d]
    rec.ev("curves", n)
    curve(rec, p, d, x, s, "Beta spin magnitude", rec.tol(2e-4, 1e-8) + (0.5 * h / amax * 8 if amax != 1 else 0) * 0, unc)
    ct_s, ct_l = rec.arr(rng.uniform(0.1, 4, n)), rec.arr(rng.uniform(0, 1, n))
    kw, s = scales(rec, n)
    p, x = rec.call(K.calculate_mixture_iso_aligned_spin_tilt, f(ct_s), f(ct_l), **kw)
    x = grid(rec, x, -1.0, 1.0, "tilt")
    d = [0.5 * float(l) * 0 + 0.5 * (1 - float(l)) + float(l) * O.truncnorm(np.clip(x, -1, 1), 1.0, float(sg), -1.0, 1.0) for sg, l in zip(ct_s, ct_l)]
    curve(rec, p, d, x, s, "isotropic plus aligned tilt", rec.tol(3e-4, 1e-8))


def spin(rec):
    rng = rec.rng
    n = int(rng.integers(1, 6))
    iid = bool(rng.random() < 0.5)
    na, nt, nb, nu = (int(v) for v in rng.choice([5, 8, 16], 4))
    C = lambda k: rec.arr(rng.normal(0, 1.5, (n, k)))  # noqa: E731
    a1, t1, a2, t2 = C(na), C(nt), C(nb), C(nu)
    kw, s = scales(rec, n)
    rec.note(n=n, iid=iid, na=na, nt=nt, nb=nb, nu=nu, a1=a1, kw=list(kw))
    rec.purity = True
    f = jnp.asarray if rng.random() < 0.6 else (lambda v: v)
    if iid:
        pa, x, pt, y = rec.call(K.calculate_bspline_spin_ppds, f(a1), f(t1), {"a": na, "tilt": nt}, **kw)
        out = [(pa, x, a1, na, 0.0), (pt, y, t1, nt, -1.0)]
    else:
        p1, p2, x, c1, c2, y = rec.call(K.calculate_bspline_spin_ppds, f(a1), f(t1), {"a1": na, "tilt1": nt, "a2": nb, "tilt2": nu}, a2_cs=f(a2), tilt2_cs=f(t2), **kw)
        out = [(p1, x, a1, na, 0.0), (p2, x, a2, nb, 0.0), (c1, y, t1, nt, -1.0), (c2, y, t2, nu, -1.0)]
    for j, (p, g, c, k, lo) in enumerate(out):
        g = grid(rec, g, lo, 1.0, "spins")
        d, rts = [], 0
        for i in range(n):
            v, r, a = spl.model_pdf(rec, "LogYBSpline", k, 4, lo, 1.0, True, g, c[i])
            d.append(v)
            rts = max(rts, 2 * float(np.max(r)))
        rec.ev("curves", n)
        curve(rec, p, d, g, s, f"spline spins (curve {j} {'iid' if iid else 'independent'})", rts + rec.tol(1e-4, 1e-9))


def rate_z(rec):
    rng = rec.rng
    n = int(rng.integers(1, 6))
    zp, zi = rec.arr(rng.uniform(0.01, 1.6, (2, 9))), rec.arr(rng.uniform(0.01, 1.9, 20))
    lam, rate = rec.arr(rng.uniform(-4, 6, n) * float(rng.choice([1, 1, 2.5]))), rec.arr(10 ** rng.uniform(-1, 2, n))
    frac = rec.arr(rng.uniform(0.1, 1, n)) if rng.random() < 0.5 else None
    kw = {} if frac is None else {"pop_frac": jnp.asarray(frac)}
    s = rate.astype(float) * (1 if frac is None else frac.astype(float))
    k = int(rng.choice([5, 8, 14]))
    c = rec.arr(rng.normal(0, 1.0, (n, k - 1)))
    rec.note(n=n, lam=lam, k=k, frac=frac is not None, c=c)
    rec.purity = True
    lo, hi = max(zp.min(), zi.min()), min(zp.max(), zi.max())
    f = jnp.asarray if rng.random() < 0.6 else (lambda v: v)
    m = rec.call(PowerlawRedshiftModel, zp, zi)
    r, z = rec.call(K.calculate_powerlaw_rate_of_z_ppds, f(lam), f(rate), m, **kw)
    z = grid(rec, z, lo, hi, "redshift")
    ev = (1 + z)[None, :] ** lam.astype(float)[:, None]
    rec.close(r, s[:, None] * ev, "rate of z is rate times fraction times (1+z)^kappa", 60 * rec.eps)
    fam = [I.LogXBSpline, I.BSpline][int(rng.integers(2))]
    m = rec.call(PowerlawSplineRedshiftModel, k, jnp.asarray(zp), jnp.asarray(zi), **({} if fam is I.LogXBSpline and rng.random() < 0.5 else {"basis": fam}))
    r, z = rec.call(K.calculate_powerlaw_spline_rate_of_z_ppds, f(lam), f(c), f(rate), m, **kw)
    z = grid(rec, z, lo, hi, "redshift")
    u = np.log if fam is I.LogXBSpline else (lambda v: v)
    a, b = float(u(float(lo))), float(u(float(hi)))
    t = O.uniform_knots(k, 4, a, b)
    mat = O.bspline_matrix(np.clip(u(z), a, b), t, 4, a, b)
    sp = np.exp(np.einsum("ig,di->dg", mat, np.concatenate([np.zeros((n, 1)), c.astype(float)], axis=1)))
    want = s[:, None] * (1 + z)[None, :] ** lam.astype(float)[:, None] * sp
    sl = slice(1, -1)  # the ends of the logarithmic range are decided by rounding
    tol = spl.spline_atol(rec, t, 4, False) * (1 + np.abs(c).sum()) + 100 * rec.eps
    rec.ev("curves", 2 * n)
    rec.close(np.asarray(r)[:, sl], want[:, sl], "rate of z with the spline's evolution", tol)
    rec.true(np.asarray(r).shape == want.shape and np.isfinite(np.asarray(r)).all(), "rate of z: one finite curve per draw")


KINDS = {"bspline_mass": (bspline_mass, 8, 120), "plpeak": (plpeak, 10, 150), "peaklog": (peaklog, 8, 120), "beta": (beta, 24, 300), "spin": (spin, 24, 300), "rate_z": (rate_z, 24, 300)}
