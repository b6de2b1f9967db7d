import warnings
from functools import partial

import jax
import jax.numpy as jnp
import numpy as np
import numpyro
from scipy import stats

from gwinferno import interpolation as I
from gwinferno import numpyro_distributions as D

from .. import oracles as O
from .p04 import near_minus_one

RULE = ("random distributions (bounds, indices incl. -1, scalar and batched parameters, redshift grids, spline coefficients) x values in, on and outside the support x quantiles x keys; "
        "non-trivial = density, CDF, inverse CDF compared with float64 references and samples tested against the reference CDF")
ASSUMPTIONS = ["sine bounds in [0, pi], cosine bounds in [-pi/2, pi/2]", "power law indices exactly -1 or at least 0.02 away from it",
               "gridded distributions judged to the accuracy of their own grid (measured)", "sample tests: Kolmogorov-Smirnov p-value below 1e-8 is a violation",
               "samplers of the smoothed power law and of the spline-coefficient prior are documented stubs and not judged"]
NS = 400


def wrap(rec, f):
    """sometimes compiled"""
    if rec.rng.random() < 0.3:
        rec.ev("compiled")
        return jax.jit(f)
    return f


def sample_checks(rec, d, cdf, lo, hi, slack, cdf_slack=0.0, batch=True):
    """samples: shape, support, reproducibility, distribution"""
    key = jax.random.PRNGKey(int(rec.rng.integers(1 << 30)))
    s = np.asarray(rec.call(d.sample, key, (NS,)))
    rec.ev("samples", s.size)
    rec.true(s.shape == (NS,) + tuple(d.batch_shape), "sample shape", shape=s.shape)
    rec.true(np.array_equal(s, np.asarray(rec.call(d.sample, key, (NS,)))), "samples reproducible from the key")
    one = np.asarray(rec.call(d.sample, key))
    rec.true(one.shape == tuple(d.batch_shape), "shape of a single sample", shape=one.shape)
    rec.finite(s, "samples")
    f = s.astype(float)
    rec.true((f >= np.asarray(lo, float) - slack) & (f <= np.asarray(hi, float) + slack), "samples inside the support", lo=lo, hi=hi, mn=f.min(0), mx=f.max(0))
    rec.true(np.unique(f).size > 0.9 * NS, "samples vary")
    for extra in ((), (1,), (2, 3), (0,)):
        g = np.asarray(rec.call(d.sample, key, extra))
        rec.true(g.shape == extra + tuple(d.batch_shape), "sample shape", want=extra, shape=g.shape)
        rec.true((g >= np.asarray(lo, float) - slack) & (g <= np.asarray(hi, float) + slack), "samples inside the support")
    u = np.clip(cdf(f), 0, 1)
    for col in u.reshape(NS, -1).T[:4]:
        ks = stats.kstest(col, "uniform")
        rec.ev("kstest")
        rec.true(ks.pvalue > 1e-8 or ks.statistic < cdf_slack, "samples follow the distribution function", p=ks.pvalue, stat=ks.statistic)
    # many samples: every part of the distribution is reached as often as it should be, the tails included
    if rec.rng.random() < 0.25:
        n = 20000
        big = np.asarray(rec.call(d.sample, key, (n,))).astype(float)
        ub = np.clip(cdf(big), 0, 1).reshape(n, -1)
        cuts = np.array([0, 0.002, 0.006, 0.02, 0.05, 0.12, 0.25, 0.5, 0.75, 0.88, 0.95, 0.98, 0.994, 0.998, 1.0])
        w = np.diff(cuts)
        for col in ub.T[:3]:
            cnt = np.histogram(col, cuts)[0]
            lo_p = stats.binom.cdf(cnt, n, np.clip(w - 2 * cdf_slack - 1e-5, 0, 1))
            hi_p = stats.binom.sf(cnt - 1, n, np.clip(w + 2 * cdf_slack + 1e-5, 0, 1))
            lo_p = np.where(w - 2 * cdf_slack - 1e-5 <= 0, 1.0, lo_p)
            rec.ev("binned-samples", n)
            rec.true((lo_p > 1e-10) & (hi_p > 1e-10), "samples reach every part of the distribution", counts=cnt, expected=n * w)
    k2 = jax.random.PRNGKey(int(rec.rng.integers(1 << 30)) + 7)
    rec.true(not np.array_equal(s, np.asarray(d.sample(k2, (NS,)))), "different keys give different samples")
    with numpyro.handlers.seed(rng_seed=3):
        v = numpyro.sample("x", d)
    rec.true(np.shape(v) == tuple(d.batch_shape), "as a sample site: shape")


def support_checks(rec, make, d, lo, hi, shape=()):
    """the support is the interval declared, and turning on validation changes nothing inside it"""
    rng = rec.rng
    lo, hi = float(np.max(lo)), float(np.min(hi))
    if not hi - lo > 1e-3 * (abs(lo) + abs(hi)):
        return
    span = hi - lo
    x = rec.arr(lo + span * rng.uniform(0.02, 0.98, (6,) + shape))
    out = rec.arr(np.where(rng.random((6,) + shape) < 0.5, lo - span * rng.uniform(0.02, 1, (6,) + shape), hi + span * rng.uniform(0.02, 1, (6,) + shape)))
    rec.ev("support")
    rec.true(np.all(np.asarray(rec.call(d.support, jnp.asarray(x)))), "values inside the bounds are in the support", x=x, lo=lo, hi=hi)
    rec.true(not np.any(np.asarray(rec.call(d.support, jnp.asarray(out)))), "values outside the bounds are not in the support", x=out, lo=lo, hi=hi)
    v = rec.call(make, validate_args=True)
    rec.true(tuple(v.batch_shape) == tuple(d.batch_shape) and tuple(v.event_shape) == tuple(d.event_shape), "shapes do not depend on validation")
    a, b = np.asarray(rec.call(d.log_prob, jnp.asarray(x))), np.asarray(rec.call(jax.jit(v.log_prob), jnp.asarray(x)))
    rec.true(np.array_equal(np.isfinite(a), np.isfinite(b)), "validated log density is finite where the density is", a=a, b=b)
    fin = np.isfinite(a) & (a > -1e38)
    rec.close(b[fin], a[fin], "log density with validation", 1e-4 * rec.tol(1, 1e-7), 1e-4 * rec.tol(1, 1e-7))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        rec.true(np.asarray(rec.call(v.log_prob, jnp.asarray(out))) <= -3e38, "validated log density outside the support is the lowest possible")


def batched(rec, gen):
    """scalar or batched (3,) parameters"""
    rng = rec.rng
    if rng.random() < 0.35:
        rows = np.array([gen() for _ in range(3)])
        return [rec.arr(rows[:, i]) for i in range(rows.shape[1])], True
    return [float(rec.ft(v)) for v in gen()], False


def trig(rec, cls, lo0, hi0, dens, prim, name):
    rng = rec.rng
    full = rng.random() < 0.2

    def gen():
        a, b = np.sort(rng.uniform(lo0, hi0, 2))
        if b - a < 0.08:
            a, b = lo0 + 0.1, hi0 - 0.2
        if rng.random() < 0.2:
            a = lo0
        if rng.random() < 0.2:
            b = hi0
        return a, b

    if full:
        make, a, b, bat = cls, lo0, hi0, False
    else:
        (a, b), bat = batched(rec, gen)
        make = partial(cls, *((jnp.asarray(a), jnp.asarray(b)) if bat else (a, b)))
    d = rec.call(make)
    rec.note(a=a, b=b, full=full)
    A, B = np.asarray(a, float), np.asarray(b, float)
    norm = prim(B) - prim(A)
    sh = (12, 3) if bat else (12,)
    x = rec.arr(np.where(rng.random(sh) < 0.75, A + (B - A) * rng.uniform(0.01, 0.99, sh), np.where(rng.random(sh) < 0.5, A - rng.uniform(0.01, 0.3, sh), B + rng.uniform(0.01, 0.3, sh))))
    # exactly on the bounds
    x[0], x[1] = rec.arr(A), rec.arr(B)
    xf = x.astype(float)
    ins = (xf >= A) & (xf <= B)
    if full:
        ins[:2] = True  # bounds given in double precision by the code itself
    zero = ins & (np.abs(dens(xf)) < 1e-3)  # density vanishes (to rounding) on a bound
    with np.errstate(all="ignore"):
        want = np.where(ins, np.log(dens(xf) / norm), -np.inf)
        rec.true(np.exp(np.asarray(rec.call(d.log_prob, jnp.asarray(x)), float))[zero] < 1e-2 / np.min(norm), f"{name} density where it vanishes")
    ins = ins & ~zero
    lp = np.asarray(rec.call(wrap(rec, d.log_prob), jnp.asarray(x)))
    t = 100 * rec.eps * (1 + 1 / np.min(norm))
    slope = np.where(ins, 1 / np.maximum(np.abs(dens(xf)), 1e-3), 0)  # log of a small sine / cosine near its zero
    rec.close(np.where(ins, lp, 0), np.where(ins, want, 0), f"{name} log density inside", 0, t * (1 + slope))
    rec.true(~np.isnan(lp), f"{name} log density is never NaN")
    rec.true(lp[~ins & ~zero] <= (-3e38), f"{name} density outside its bounds is zero", outside=xf[~ins], lp=lp[~ins])
    c = np.asarray(rec.call(d.cdf, jnp.asarray(x)))
    want_c = np.clip(np.where(xf < A, 0, np.where(xf > B, 1, (prim(xf) - prim(A)) / norm)), 0, 1)
    rec.close(c, want_c, f"{name} distribution function", 0, t)
    q = rec.arr(np.concatenate([[0, 1], rng.uniform(0, 1, 10)]).reshape((12, 1) if bat else (12,)) * np.ones(sh))
    inv = np.asarray(rec.call(d.icdf, jnp.asarray(q))).astype(float)
    rec.close((prim(inv) - prim(A)) / norm, q, f"{name} inverse distribution function", 0, 2 * t)
    rec.true((inv >= A - 60 * np.sqrt(rec.eps)) & (inv <= B + 60 * np.sqrt(rec.eps)), f"{name} quantiles inside the bounds", inv=inv)
    sample_checks(rec, d, lambda v: (prim(v) - prim(A)) / norm, A, B, 60 * np.sqrt(rec.eps))
    if not bat:
        support_checks(rec, make, d, A, B)


def sine(rec):
    trig(rec, D.Sine, 0.0, float(np.pi), np.sin, lambda v: -np.cos(v), "sine")


def cosine(rec):
    trig(rec, D.Cosine, -float(np.pi) / 2, float(np.pi) / 2, np.cos, np.sin, "cosine")


def pl_cdf(x, al, a, b):
    x = np.clip(np.asarray(x, float), a, b)
    e = np.asarray(al, float) + 1
    with np.errstate(all="ignore"):
        L, l = np.log(b / a), np.log(x / a)
        r = np.where(np.abs(e) < 1e-12, l / L, np.expm1(e * l) / np.expm1(e * L))
        r0 = (x / b) ** e
    return np.where(np.asarray(a) == 0, r0, r)


def powerlaw(rec):
    rng = rec.rng

    def gen():
        al = rng.choice([-1.0, rng.uniform(-6, -1.02), rng.uniform(-0.98, 5), 2.0, 0.0, near_minus_one(rec)])
        a, b = [(2.0, 100.0), (0.1, 1.0), (5.0, 87.3), (0.02, 0.9), (0.0, 1.0)][rng.integers(5)]
        if rng.random() < 0.4:
            a = 10 ** rng.uniform(-2, 1)
            b = a * 10 ** rng.uniform(0.2, 2.2)
        if a == 0 and al <= -0.9:
            a = 0.05
        return al, a, b

    (al, a, b), bat = batched(rec, gen)
    AL, A, B = (np.asarray(v, float) for v in (al, a, b))
    style = rng.choice(["py", "jax"]) if not bat else "jax"
    args = [jnp.asarray(v) for v in (al, a, b)] if style == "jax" else [al, a, b]
    rec.note(alpha=al, a=a, b=b, style=style)
    kw = dict(low=0.0, high=200.0) if rng.random() < 0.5 else {}
    if not bat and a == 0.0 and b == 1.0 and rng.random() < 0.5:
        make = partial(D.Powerlaw, args[0], **kw)
    else:
        make = partial(D.Powerlaw, args[0], minimum=args[1], maximum=args[2], **kw)
    d = rec.call(make)
    sh = (12, 3) if bat else (12,)
    u = rng.uniform(0.01, 0.99, sh)
    inside = np.where(rng.random(sh) < 0.5, A + (B - A) * u, np.maximum(A, 0.01 * B) ** (1 - u) * B**u)
    x = rec.arr(np.where(rng.random(sh) < 0.7, inside, np.where((rng.random(sh) < 0.5) & (A > 0), A * rng.uniform(0.2, 0.98, sh), B * rng.uniform(1.02, 3, sh))))
    x.reshape(-1)[:2] = rec.arr(np.broadcast_to(A, sh)).reshape(-1)[:2] + (0.01 if np.any(A == 0) else 0)
    xf = x.astype(float)
    ins = (xf >= A) & (xf <= B)
    with np.errstate(all="ignore"):
        e = AL + 1
        La = np.where(A > 0, np.log(B / np.where(A > 0, A, 1)), 3.0)
        logn = np.where(A > 0, -np.log(O.powerlaw_norm(AL, np.where(A > 0, A, 1), B)), e * np.log(B) - np.log(np.abs(e)))
        want = np.where(ins, AL * np.log(xf) - logn, 0)
    t = 100 * rec.eps * (1 + np.where(np.abs(e) < 1e-9, 0, 1 / np.maximum(np.abs(e) * La, 1e-9))) * (1 + np.abs(AL))
    lp = np.asarray(rec.call(wrap(rec, d.log_prob), jnp.asarray(x)))
    rec.close(np.where(ins, lp, 0), want, "power law log density", 0, t * (1 + np.abs(np.log(np.maximum(xf, 1e-6)))))
    rec.true(lp[~ins] <= -3e38, "power law density outside its bounds is the lowest possible", lp=lp[~ins])
    rec.true(~np.isnan(lp), "power law log density is never NaN")
    with np.errstate(all="ignore"):
        wc = np.where(xf < A, 0, np.where(xf > B, 1, pl_cdf(xf, AL, A, B)))
    rec.close(np.asarray(rec.call(d.cdf, jnp.asarray(x))), wc, "power law distribution function", 0, t)
    q = rec.arr(np.concatenate([[0, 1], rng.uniform(0, 1, 10)]).reshape((12, 1) if bat else (12,)) * np.ones(sh))
    inv = np.asarray(rec.call(d.icdf, jnp.asarray(q))).astype(float)
    rec.close(pl_cdf(inv, AL, A, B), q, "power law inverse distribution function", 0, 2 * t)
    rec.true((inv >= A * (1 - 1e-4) - 1e-6) & (inv <= B * (1 + 1e-4)), "power law quantiles inside the bounds", inv=inv)
    sample_checks(rec, d, lambda v: pl_cdf(v, AL, A, B), A, B, 1e-4 * np.max(B))
    support_checks(rec, make, d, kw.get("low", 0.0), kw.get("high", 1.0), (3,) if bat else ())


def redshift(rec):
    rng = rec.rng
    G = int(rng.choice([200, 1000, int(rng.integers(50, 1600))]))
    zmax = float(rng.choice([1.0, 1.9, 2.3, np.round(rng.uniform(0.3, 6), 3)]))
    lam = float(rec.ft(rng.choice([0.0, 2.7, -3.0, rng.uniform(-4, 8)])))
    zg = rec.arr(np.linspace(1e-6 if rng.random() < 0.5 else 1e-3, zmax * (1.0 if rng.random() < 0.6 else rng.uniform(1.0, 2.5)), G))
    mx = float(rec.ft(zmax)) if zg[-1] > zmax * 1.001 else float(zg[-1])  # the grid may reach beyond the maximum
    scale = float(rng.choice([1.0, 1e-9]))
    f = lambda z: O.PLANCK15_LVK.dV(z) * scale  # noqa: E731
    dv = rec.arr(f(zg.astype(float)))
    rec.note(G=G, zmax=zmax, lam=lam, scale=scale, grid_end=float(zg[-1]))
    kwb = dict(low=0.0, high=10.0) if rng.random() < 0.5 else {}
    make = partial(D.PowerlawRedshift, lam, mx, jnp.asarray(zg), jnp.asarray(dv), **kwb)
    d = rec.call(make)
    fine = np.linspace(float(zg[0]), mx, 40001)
    pf = f(fine) * (1 + fine) ** (lam - 1)
    cum = np.concatenate([[0], np.cumsum(0.5 * np.diff(fine) * (pf[1:] + pf[:-1]))])
    norm = cum[-1]
    zgf = np.minimum(zg.astype(float), mx)
    pg = np.interp(zgf, zg.astype(float), f(zg.astype(float))) * (1 + zgf) ** (lam - 1)
    cg = np.concatenate([[0], np.cumsum(0.5 * np.diff(zgf) * (pg[1:] + pg[:-1]))])
    disc = abs(cg[-1] / norm - 1)
    cdf = lambda z: np.interp(z, fine, cum / norm)  # noqa: E731
    keep = np.concatenate([[True], np.diff(zgf) > 0])
    cdisc = np.abs(np.interp(fine, zgf[keep], cg[keep] / cg[-1]) - cum / norm).max()
    t = (40 + G / 8) * rec.eps * (1 + abs(lam))
    rec.close(np.asarray(d.norm), norm, "norm of the redshift distribution", 2 * disc + t)
    z = rec.arr(rng.uniform(float(zg[2]), zmax * 1.3, 14))
    z[0] = rec.ft(mx)
    zf = z.astype(float)
    ins = z <= rec.ft(mx)
    gave = rng.random() < 0.4
    kw = {"dVdc": jnp.asarray(rec.arr(f(zf)))} if gave else {}
    lp = np.asarray(rec.call(d.log_prob, jnp.asarray(z), **kw))
    with np.errstate(all="ignore"):
        interp_tol = 0 if gave else 2 * np.abs(np.log(np.interp(zf, zg.astype(float), f(zg.astype(float))) / f(zf)))
        want = np.log(f(zf)) + (lam - 1) * np.log1p(zf) - np.log(norm)
    rec.close(np.where(ins, lp, 0), np.where(ins, want, 0), "redshift log density", 0, 2 * disc + t + interp_tol + 20 * rec.eps * np.abs(want))
    rec.true(lp[~ins] <= -3e38, "redshift density beyond its maximum is the lowest possible", lp=lp)
    rec.close(np.asarray(rec.call(d.cdf, jnp.asarray(z))), cdf(zf), "redshift distribution function", 0, 2 * cdisc + t)
    q = rec.arr(np.concatenate([[0.0, 1.0], rng.uniform(0, 1, 12)]))
    inv = np.asarray(rec.call(d.icdf, jnp.asarray(q))).astype(float)
    rec.close(cdf(inv), q, "redshift inverse distribution function", 0, 2 * cdisc + 2 * t)
    sample_checks(rec, d, cdf, zgf[0], mx, 1e-5, cdf_slack=2 * cdisc)
    support_checks(rec, make, d, kwb.get("low", 0.0), kwb.get("high", 1000.0))


def smoothed(rec):
    rng = rec.rng
    low, mn, mx, high = [(2.0, 6.0, 80.0, 100.0), (1.0, 5.0, 50.0, 150.0), (3.0, 4.5, 65.0, 200.0), (0.5, 8.0, 40.0, 41.0)][rng.integers(4)]
    if rng.random() < 0.5:
        low, mn, mx, high = (float(rec.ft(v)) for v in np.cumprod([rng.uniform(0.5, 4), rng.uniform(1.2, 4), rng.uniform(2, 20), rng.uniform(1.1, 5)]))
    al = float(rec.ft(rng.choice([rng.uniform(-4, -1.1), rng.uniform(-0.9, 3)])))
    amax = float(rec.ft(rng.choice([rng.uniform(1.2, 12), rng.uniform(0.1, 0.8)])))
    amin = float(rec.ft(rng.uniform(0.1, 8)))
    rec.note(low=low, mn=mn, mx=mx, high=high, alpha=al, alpha_max=amax, alpha_min=amin)
    make = partial(D.PowerlawSmoothedPowerlaw, al, mn, mx, amax, amin, low, high)
    d = rec.call(make)

    def log_shape(x):
        x = np.asarray(x, float)
        lo = al * np.log(mn) + amin * np.log(x / mn)
        hi = al * np.log(mx) - amax * np.log(x / mx)
        return np.where(x < mn, lo, np.where(x > mx, hi, al * np.log(x)))

    def integral(a, b):
        g = np.geomspace(a, b, 8001)
        return O.trapz(np.exp(log_shape(g)) * g, np.log(g))

    norm = integral(low, mn) + integral(mn, mx) + integral(mx, high)
    x = rec.arr(np.exp(rng.uniform(np.log(low), np.log(high), 30)))
    x[:4] = [low, mn, mx, high]
    cond = 1 / abs(1 + al) + 1 / abs(1 - amax) + 1
    t = 400 * rec.eps * (1 + abs(al) + amax + amin) * cond + 1e-6
    want = log_shape(x.astype(float)) - np.log(norm)
    rec.close(np.asarray(rec.call(wrap(rec, d.log_prob), jnp.asarray(x))), want, "smoothed power law log density", 30 * rec.eps, t)
    j = rec.arr([mn * (1 - 1e-4), mn * (1 + 1e-4), mx * (1 - 1e-4), mx * (1 + 1e-4)])
    jl = np.asarray(rec.call(d.log_prob, jnp.asarray(j)))
    rec.true(abs(jl[0] - jl[1]) < 5e-3 and abs(jl[2] - jl[3]) < 5e-3, "smoothed power law is continuous at its breaks", values=jl)
    support_checks(rec, make, d, low, high)


def spline(rec):
    rng = rec.rng
    k = int(rng.choice([3, 4, 4, 5]))
    n = int(k + 1 + rng.integers(0, 12))
    lo, hi = [(0.0, 1.0), (2.0, 100.0), (-1.0, 1.0)][rng.integers(3)]
    if rng.random() < 0.4:
        lo = float(np.round(rng.uniform(-3, 5), 3))
        hi = float(np.round(lo + 10 ** rng.uniform(-0.5, 2), 3))
    G = int(rng.choice([600, 1000, 1501]))
    wide = rng.random() < 0.3
    span = hi - lo
    grid = rec.arr(np.linspace(lo - (0.1 * span if wide else 0), hi + (0.15 * span if wide else 0), G))
    c = rec.arr(rng.normal(0, float(rng.choice([0.5, 1.5, 3.0])), n))
    rec.note(n=n, lo=lo, hi=hi, wide=wide, c=c)
    s = I.LogYBSpline(n, xrange=(lo, hi), k=k, normalize=False)
    dm = s.bases(jnp.asarray(grid))
    make = partial(D.BSplineDistribution, lo, hi, jnp.asarray(c), jnp.asarray(grid), dm)
    d = rec.call(make)
    rec.true(tuple(d.batch_shape) == () and tuple(d.event_shape) == (), "one spline is one distribution, however many coefficients it has", shape=d.batch_shape)
    ref = O.SplineDensity("LogYBSpline", n, k, lo, hi, normalize=False)
    fine = np.linspace(lo, hi, 20001)
    pf = ref.raw(fine, c)
    cum = np.concatenate([[0], np.cumsum(0.5 * np.diff(fine) * (pf[1:] + pf[:-1]))])
    gf = grid.astype(float)
    gc = np.clip(gf, lo, hi)
    pg = np.where((grid >= rec.ft(lo)) & (grid <= rec.ft(hi)), ref.raw(gc, c), 0.0)
    h = gf[1] - gf[0]
    cg = np.concatenate([[0], np.cumsum(0.5 * np.diff(gf) * (pg[1:] + pg[:-1]))])
    edge = 1.5 * h * (pf[0] + pf[-1]) / cum[-1] if wide else 0.0
    disc = abs(cg[-1] / cum[-1] - 1) + edge
    cdisc = np.abs(np.interp(fine, gf, cg / cg[-1]) - cum / cum[-1]).max() + edge
    t = (200 + 2 * np.abs(c).sum() * 100 * (1 + max(abs(lo), abs(hi)) / (span / (n - k + 1)))) * rec.eps + G / 4 * rec.eps
    x = rec.arr(rng.uniform(lo + 2 * h, hi - 2 * h, 30))
    xf = x.astype(float)
    lx = np.log(ref.raw(xf, c))
    with np.errstate(all="ignore"):
        itol = 2 * np.abs(np.interp(xf, gf, np.log(ref.raw(gc, c))) - lx)
    rec.close(np.asarray(rec.call(d.log_prob, jnp.asarray(x))), lx - np.log(cum[-1]), "spline distribution log density", 0, 2 * disc + itol + t)
    cdf = lambda v: np.interp(v, fine, cum / cum[-1])  # noqa: E731
    rec.close(np.asarray(rec.call(d.cdf, jnp.asarray(x))), cdf(xf), "spline distribution function", 0, 2 * cdisc + t)
    q = rec.arr(np.concatenate([[0.0], rng.uniform(0.001, 0.999, 12)]))
    inv = np.asarray(rec.call(d.icdf, jnp.asarray(q))).astype(float)
    rec.close(cdf(inv), q, "spline inverse distribution function", 0, 2 * cdisc + 2 * t)
    sample_checks(rec, d, cdf, lo - (2 * h if wide else 0), hi + (2 * h if wide else 0), 1e-4 * span, cdf_slack=2 * cdisc)
    support_checks(rec, make, d, lo, hi)


def latent(rec):
    """as the prior of a sampled quantity: the gradient-based sampler recovers the distribution"""
    rng = rec.rng
    which = str(rng.choice(["sine", "cosine", "powerlaw", "redshift", "smoothed", "spline"]))
    if which in ("sine", "cosine"):
        top = float(np.pi) if which == "sine" else float(np.pi) / 2
        lo = float(rng.uniform(0.05, 1.2)) if which == "sine" else float(rng.uniform(-1.5, 0))
        hi = float(rng.uniform(lo + 0.4, top - 0.03))
        d, log_shape = (D.Sine if which == "sine" else D.Cosine)(lo, hi), (lambda v: np.log(np.sin(v))) if which == "sine" else (lambda v: np.log(np.cos(v)))
    elif which == "powerlaw":
        lo, hi = [(2.0, 60.0), (0.1, 1.0), (5.0, 20.0)][rng.integers(3)]
        al = float(rng.choice([-1.0, -2.3, 0.0, float(rng.uniform(-3, 4))]))
        d, log_shape = D.Powerlaw(al, lo, hi, low=lo, high=hi), lambda v: al * np.log(v)
    elif which == "redshift":
        lo, hi, lam = 1e-3, float(rng.choice([1.0, 1.9, 2.3])), float(rng.uniform(-3, 5))
        zg = np.linspace(lo, hi, 800)
        d, log_shape = D.PowerlawRedshift(lam, hi, jnp.asarray(rec.arr(zg)), jnp.asarray(rec.arr(O.PLANCK15_LVK.dV(zg))), low=lo, high=hi), lambda v: np.log(O.PLANCK15_LVK.dV(v)) + (lam - 1) * np.log1p(v)
    elif which == "smoothed":
        lo, mn, mx, hi = (float(v) for v in np.cumprod([rng.uniform(1, 4), rng.uniform(1.2, 2), rng.uniform(2, 8), rng.uniform(1.1, 2)]))
        al, amax, amin = float(rng.uniform(-3, -1.2)), float(rng.uniform(1.5, 6)), float(rng.uniform(0.5, 4))
        d = D.PowerlawSmoothedPowerlaw(al, mn, mx, amax, amin, lo, hi)
        log_shape = lambda v: np.where(v < mn, al * np.log(mn) + amin * np.log(v / mn), np.where(v > mx, al * np.log(mx) - amax * np.log(v / mx), al * np.log(v)))  # noqa: E731
    else:
        lo, hi, n = 0.0, 1.0, int(rng.integers(6, 14))
        c = rng.normal(0, 1, n)
        g = rec.arr(np.linspace(lo, hi, 800))
        d = D.BSplineDistribution(lo, hi, jnp.asarray(rec.arr(c)), jnp.asarray(g), I.LogYBSpline(n, xrange=(lo, hi), normalize=False).bases(jnp.asarray(g)))
        ref = O.SplineDensity("LogYBSpline", n, 4, lo, hi, normalize=False)
        log_shape = lambda v: np.log(ref.raw(v, c))  # noqa: E731
    rec.note(which=which, lo=lo, hi=hi)
    mcmc = numpyro.infer.MCMC(numpyro.infer.NUTS(lambda: numpyro.sample("x", d)), num_warmup=300, num_samples=3000, thinning=5, progress_bar=False)
    rec.call(mcmc.run, jax.random.PRNGKey(int(rng.integers(1 << 30))))
    x = np.asarray(mcmc.get_samples()["x"]).astype(float)
    rec.ev("latent-samples", x.size)
    rec.true(x.shape == (600,), "one value per draw", shape=x.shape)
    rec.true((x >= lo) & (x <= hi), "sampled values lie in the support", mn=x.min(), mx=x.max(), lo=lo, hi=hi)
    fine = np.linspace(lo, hi, 20001)
    with np.errstate(all="ignore"):
        pf = np.exp(log_shape(fine))
    cum = np.concatenate([[0], np.cumsum(0.5 * np.diff(fine) * (pf[1:] + pf[:-1]))])
    ks = stats.kstest(np.interp(x, fine, cum / cum[-1]), "uniform")
    rec.true(ks.pvalue > 1e-8 or ks.statistic < 0.12, "a sampler using the density and support recovers the distribution", p=ks.pvalue, stat=ks.statistic)


def helpers(rec):
    rng = rec.rng
    n = int(rng.integers(2, 40))
    x = rec.arr(np.cumsum(rng.uniform(0.01, 1.5, n)) + rng.normal())
    y = rec.arr(rng.normal(0, 3, n) if rng.random() < 0.5 else rng.gamma(1, 2, n))
    rec.note(n=n)
    out = np.asarray(rec.call(D.cumtrapz, jnp.asarray(y), jnp.asarray(x)))
    xf, yf = x.astype(float), y.astype(float)
    parts = 0.5 * np.diff(xf) * (yf[1:] + yf[:-1])
    rec.close(out, np.cumsum(parts), "cumulative trapezoid sums", 0, 40 * rec.eps * (1 + np.abs(xf).max()) * (np.abs(yf).sum() + 1))
    N = int(rng.integers(4, 30))
    order = int(rng.integers(1, 4))
    iv = float(rec.ft(10 ** rng.uniform(-2, 3)))
    c = rec.arr(rng.normal(0, 3, N))
    d = rec.call(D.PSplineCoeficientPrior, N, iv, **({} if order == 2 and rng.random() < 0.5 else {"diff_order": order}))
    dd = np.diff(c.astype(float), order)
    rec.close(np.asarray(rec.call(d.log_prob, jnp.asarray(c))), -0.5 * iv * (dd @ dd), "spline coefficient prior", 400 * rec.eps)
    rec.true(tuple(d.event_shape) == (N,), "spline coefficient prior covers all coefficients", shape=d.event_shape)


KINDS = {
    "sine": (sine, 40, 800),
    "cosine": (cosine, 40, 800),
    "powerlaw": (powerlaw, 60, 1500),
    "redshift": (redshift, 24, 400),
    "smoothed": (smoothed, 40, 1000),
    "spline": (spline, 24, 400),
    "latent": (latent, 12, 120),
    "helpers": (helpers, 40, 600),
}
