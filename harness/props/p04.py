import jax.numpy as jnp
import numpy as np

from gwinferno import distributions as D

from .. import oracles as O

RULE = ("random parameter values over and at the edges of their documented ranges (scalars and arrays) x points inside, exactly on the bounds, outside and far outside, scalars and "
        "arrays of any shape; non-trivial = densities compared point by point with float64 closed forms; distinct by parameters and observed values")
ASSUMPTIONS = ["power-law indices closer to -1 than 0.01 other than exactly -1 are not judged in float32 (cancellation in the closed form itself)",
               "truncated normals keep at least 1e-3 of their mass inside the bounds; Beta shapes below 1 are not judged on the singular edges",
               "points on a bound use bounds representable in the working precision"]


def shape_pts(rec, x):
    rng = rec.rng
    m = (len(x) // 6) * 6
    x = x[:m]
    return x.reshape([(m,), (2, m // 2), (3, m // 3), (2, 3, m // 6)][rng.integers(4)])


def edges(rec, lo, hi, pos, inner):
    """points incl. exact bounds and both sides of them"""
    rng = rec.rng
    span = hi - lo
    out = [lo - 1e-3 * span, hi + 1e-3 * span, hi + span, hi * 5 + 1]
    out += [lo * 0.5 if pos else lo - span, lo * 1e-3 if pos else lo - 10 * span]
    x = np.concatenate([inner, [lo, hi, lo, hi], out])
    if pos:
        x = np.where(x <= 0, lo * 0.7, x)
    return rec.arr(rng.permutation(x))


def near_minus_one(rec):
    """an index close to, but not equal to, -1 (as close as the precision supports)"""
    rng = rec.rng
    return -1 + float(rng.choice([-1, 1])) * 10 ** rng.uniform(rec.tol(-2.0, -6.0), -0.5)


def powerlaw(rec):
    rng = rec.rng
    lo = float(rec.ft(rng.choice([0.02, 0.5, 1.0, 2.0, 3.7, 5.0]) if rng.random() < 0.5 else 10 ** rng.uniform(-2.5, 1.5)))
    hi = float(rec.ft(lo * (rng.choice([1.5, 4.0, 20.0, 50.0]) if rng.random() < 0.5 else 10 ** rng.uniform(0.05, 2.7) if rng.random() < 0.8 else 10 ** rng.uniform(0.004, 0.05))))
    al = float(rng.choice([-1.0, -1.0, 0.0, 1.0, -2.0, rng.uniform(-6, 6), rng.uniform(-3, 3), near_minus_one(rec), near_minus_one(rec), rng.uniform(-14, 12)]))
    if abs(al + 1) < rec.tol(1e-2, 9e-7) and al != -1:
        al = -1.0
    if abs(al) * np.log(max(hi, 1 / lo)) > 60:
        al = np.sign(al) * 2.0
    al = float(rec.ft(al))
    inner = lo * (hi / lo) ** rng.uniform(0.001, 0.999, 16)
    x = shape_pts(rec, edges(rec, lo, hi, True, inner))
    floor = float(rec.ft(rng.choice([0.0, 0.0, 1e-6, 0.05, 10 ** rng.uniform(-8, 0)])))
    rec.note(alpha=al, lo=lo, hi=hi, floor=floor, shape=x.shape)
    want = O.powerlaw(x, al, lo, hi, floor)
    L = np.log(hi / lo)
    cond = 1 + 1 / max(abs(al + 1) * L, 1e-30) if al != -1 else 1 + 1 / L
    cond = cond * (1 + (1 + abs(al)) * np.log(max(hi, 1 / lo, 2)))
    tol = 60 * rec.eps * cond
    args = (al, lo, hi) if rng.random() < 0.5 else (jnp.asarray(al), jnp.asarray(lo), jnp.asarray(hi))
    kw = {} if floor == 0 and rng.random() < 0.7 else {"floor": floor}
    got = rec.call(D.powerlaw_pdf, x, *args, **kw)
    rec.close(got, want, "truncated power law", tol, rec.tol(1e-33, 1e-280))
    # array parameters (as the models use it: the lower bound differs per point), mixing index -1 and others
    als = rec.arr(np.where(rng.random(x.shape) < 0.3, -1.0, rng.uniform(0.2, 3, x.shape)))
    lows = rec.arr(lo * rng.uniform(0.5, 1.0, x.shape))
    want = O.powerlaw(x, als, lows.astype(float), hi)
    c2 = (1 + 1 / (np.abs(als.astype(float) + 1) + (als == -1)) / np.log(hi / lows.astype(float))) * (1 + 3 * np.log(max(hi, 2 / lo, 2)))
    rec.close(rec.call(D.powerlaw_pdf, x, als, lows, hi), want, "truncated power law with array parameters", 60 * rec.eps * c2, rec.tol(1e-33, 1e-280))
    g = rec.arr(np.geomspace(lo, hi, 4001))
    g[0], g[-1] = lo, hi
    v = np.asarray(rec.call(D.powerlaw_pdf, g, al, lo, hi), float)
    quad = abs(O.trapz(O.powerlaw(g, al, lo, hi), g) - 1)
    rec.close(O.trapz(v, g), 1.0, "power law: integral", 0, 2 * quad + tol + 1e-5)


def truncnorm(rec):
    rng = rec.rng
    lo = float(rng.choice([0.0, -1.0, 2.0, 5.0, 0.1, rng.uniform(-30, 30), rng.uniform(-2, 6)]))
    hi = lo + float(rng.choice([1.0, 2.0, 20.0, 95.0, 10 ** rng.uniform(-0.5, 2.3)]))
    lo, hi = float(rec.ft(lo)), float(rec.ft(hi))
    span = hi - lo
    mu = float(rec.ft(rng.choice([lo, hi, lo + span * rng.random(), hi + 0.3 * span, lo - 0.2 * span])))
    sig = float(rec.ft(span * 10 ** rng.uniform(-1.3, 0.7)))
    den = O.special.ndtr((hi - mu) / sig) - O.special.ndtr((lo - mu) / sig)
    if den < 1e-3:
        sig = float(rec.ft(span))
        den = O.special.ndtr((hi - mu) / sig) - O.special.ndtr((lo - mu) / sig)
    x = shape_pts(rec, edges(rec, lo, hi, False, rng.uniform(lo, hi, 16)))
    rec.note(mu=mu, sig=sig, lo=lo, hi=hi, shape=x.shape)
    z = np.abs((x.astype(float) - mu) / sig)
    tol = 40 * rec.eps * (1 + z * (z + (np.abs(x.astype(float)) + abs(mu)) / sig)) + 20 * rec.eps / den
    want = O.truncnorm(x, mu, sig, lo, hi)
    rec.close(rec.call(D.truncnorm_pdf, x, mu, sig, lo, hi), want, "truncated normal", tol, rec.tol(1e-33, 1e-280))
    mus, sigs = rec.arr(mu + 0.05 * span * rng.normal(size=x.shape)), rec.arr(sig * rng.uniform(0.8, 1.3, x.shape))
    want = O.truncnorm(x, mus.astype(float), sigs.astype(float), lo, hi)
    den2 = O.special.ndtr((hi - mus.astype(float)) / sigs) - O.special.ndtr((lo - mus.astype(float)) / sigs)
    z = np.abs((x.astype(float) - mus) / sigs)
    tol2 = 40 * rec.eps * (1 + z * (z + (np.abs(x.astype(float)) + np.abs(mus)) / sigs)) + 20 * rec.eps / np.maximum(den2, 1e-4)
    rec.close(rec.call(D.truncnorm_pdf, x, mus, sigs, lo, hi), want, "truncated normal with array parameters", np.where(den2 > 5e-4, tol2, 1e9), rec.tol(1e-33, 1e-280))
    g = rec.arr(np.linspace(lo, hi, 4001))
    v = np.asarray(rec.call(D.truncnorm_pdf, g, mu, sig, lo, hi), float)
    quad = abs(O.trapz(O.truncnorm(g, mu, sig, lo, hi), g) - 1)
    rec.close(O.trapz(v, g), 1.0, "truncated normal: integral", 0, 2 * quad + 100 * rec.eps / den + 300 * rec.eps * (span + abs(mu)) / sig + 1e-5)


def lognorm(rec):
    rng = rec.rng
    lo = float(rec.ft(rng.choice([0.05, 1.0, 2.0, 5.0, 10 ** rng.uniform(-2, 1.5)])))
    hi = float(rec.ft(lo * rng.choice([3.0, 20.0, 50.0, 10 ** rng.uniform(0.2, 2.5)])))
    L = np.log(hi / lo)
    mu = float(rec.ft(np.log(lo) + L * rng.uniform(-0.2, 1.2)))
    sig = float(rec.ft(L * rng.uniform(0.1, 2.0)))
    den = O.special.ndtr((np.log(hi) - mu) / sig) - O.special.ndtr((np.log(lo) - mu) / sig)
    if den < 1e-3:
        sig = float(rec.ft(L))
        den = O.special.ndtr((np.log(hi) - mu) / sig) - O.special.ndtr((np.log(lo) - mu) / sig)
    x = shape_pts(rec, edges(rec, lo, hi, True, lo * (hi / lo) ** rng.random(16)))
    rec.note(mu=mu, sig=sig, lo=lo, hi=hi, shape=x.shape)
    z = np.abs((np.log(x.astype(float)) - mu) / sig)
    tol = 60 * rec.eps * (1 + z * (z + (np.abs(np.log(x.astype(float))) + abs(mu)) / sig)) + 20 * rec.eps / den
    rec.close(rec.call(D.truncnorm_pdf, x, mu, sig, lo, hi, log=True), O.trunclognorm(x, mu, sig, lo, hi), "truncated log-normal", tol, rec.tol(1e-33, 1e-280))
    g = rec.arr(np.geomspace(lo, hi, 4001))
    g[0], g[-1] = lo, hi
    v = np.asarray(rec.call(D.truncnorm_pdf, g, mu, sig, lo, hi, log=True), float)
    quad = abs(O.trapz(O.trunclognorm(g, mu, sig, lo, hi), g) - 1)
    rec.close(O.trapz(v, g), 1.0, "truncated log-normal: integral", 0, 2 * quad + 100 * rec.eps / den + 300 * rec.eps * (L + abs(mu)) / sig + 1e-5)


def beta(rec):
    rng = rec.rng
    sing = rng.random() < 0.25
    a = float(rec.ft(rng.choice([1.0, 1.0, 2.0, 1 + 10 ** rng.uniform(-2, 1.3), 1 + 10 ** rng.uniform(1, 2.0), 0.5 if sing else 3.0])))
    b = float(rec.ft(rng.choice([1.0, 1.0, 2.0, 1 + 10 ** rng.uniform(-2, 1.3), 1 + 10 ** rng.uniform(1, 2.0), 0.7 if sing else 6.0])))
    sc = float(rec.ft(rng.choice([1.0, 1.0, 0.5, 0.99, 2.0, 0.8, rng.uniform(0.2, 5)])))
    floor = float(rec.ft(rng.choice([0.0, 0.0, 1e-5, 0.05])))
    inner = sc * rng.uniform(1e-3, 1 - 1e-3, 16)
    ed = [] if a < 1 else [0.0, 0.0]
    ed += [] if b < 1 else [sc, sc]
    x = np.concatenate([inner, ed, [-1e-3, -0.5, sc * 1.001, sc * 1.5, sc + 3, -7.0]])
    x = shape_pts(rec, rec.arr(rng.permutation(x)))
    rec.note(a=a, b=b, scale=sc, floor=floor, shape=x.shape)
    want = O.beta_pdf(x, a, b, sc, floor)
    xf = x.astype(float)
    with np.errstate(all="ignore"):
        edge = np.where((xf > 0) & (xf < sc), 1 / np.maximum(1e-12, 1 - xf / sc), 1.0)
    tol = 60 * rec.eps * (a + b + 1) * (3 + np.abs(np.log(np.maximum(1e-6, np.abs(xf)))) + np.log(edge)) + 20 * rec.eps * b * edge + 3e-6  # betaln of JAX
    kw = {} if sc == 1 and rng.random() < 0.5 else {"scale": sc}
    if floor:
        kw["floor"] = floor
    rec.close(rec.call(D.betadist, x, a, b, **kw), want, "Beta density", tol, rec.tol(1e-35, 1e-280))
    al, be = rec.arr(rng.uniform(1, 6, x.shape)), rec.arr(rng.uniform(1, 6, x.shape))
    inside = (xf > 0.005 * sc) & (xf < 0.995 * sc) | (xf < 0) | (xf > sc)
    got = np.asarray(rec.call(D.betadist, x, al, be, scale=sc))
    rec.close(got[inside], O.beta_pdf(x, al, be, sc)[inside], "Beta density with array parameters", 20000 * rec.eps, 1e-30)
    if a >= 1 and b >= 1:
        g = rec.arr(np.linspace(0, sc, 4001))
        g[-1] = sc
        v = np.asarray(rec.call(D.betadist, g, a, b, scale=sc), float)
        rec.true(np.isfinite(v), "Beta density not finite on its support")
        quad = abs(O.trapz(O.beta_pdf(g, a, b, sc), g) - 1)
        rec.close(O.trapz(v, g), 1.0, "Beta density: integral", 0, 2 * quad + 3000 * rec.eps * (a + b) + 1e-5)


def window(rec):
    rng = rec.rng
    mmin = float(rec.ft(rng.choice([2.0, 3.0, 4.6, 5.0, rng.uniform(2, 8)])))
    dx = float(rec.ft(rng.choice([0.5, 1.0, 3.0, 4.8, rng.uniform(0.05, 10)])))
    y = np.concatenate([rng.uniform(0, 1, 40), [0.0, 0.02, 0.1, 0.5, 0.9, 0.98]])
    x = np.concatenate([mmin + dx * y, [mmin * 0.9, 0.1, mmin - 1e-2, mmin + 1.001 * dx + 1e-3, mmin + 2 * dx, mmin + 50 * dx, 300.0, mmin - 1.0]])
    x = rec.arr(np.sort(x))
    rec.note(mmin=mmin, dx=dx)
    got = np.asarray(rec.call(D.smooth, dx, x, mmin), float)
    want = O.window(dx, x, mmin)
    xf = x.astype(float)
    d = np.minimum(np.abs(xf - mmin), np.abs(xf - mmin - dx))
    with np.errstate(all="ignore"):
        slope = np.nan_to_num(dx * rec.eps * 4 * (xf + mmin + dx) / np.maximum(d, 1e-30) ** 2, posinf=1e3)
    tol = np.minimum(slope, 1.0) * np.where((want > 1e-3) & (want < 1 - 1e-3), 1.0, 0.02) + 20 * rec.eps
    rec.close(got, want, "smoothing window", 0, np.minimum(tol, 0.05) + 1e-12)
    rec.true((got >= 0) & (got <= 1), "smoothing window outside [0, 1]")
    rec.true(np.diff(got) >= -2e-6, "smoothing window not monotone", min_step=float(np.diff(got).min()))
    rec.true(got[xf < mmin - 1e-4] == 0, "window not zero below the minimum")
    rec.true(got[xf > mmin + dx * (1 + 1e-5) + 1e-4] == 1, "window not one above its width")
    # exactly on the upper end of the window (all three numbers exact in binary)
    m0, d0 = float(rng.integers(2, 40)) / 4, float(rng.integers(1, 40)) / 4
    ends = np.asarray(rec.call(D.smooth, d0, rec.arr([m0, m0 + d0, m0 + d0]), m0), float)
    rec.close(ends, np.array([0.0, 1.0, 1.0]), "smoothing window exactly on its ends", 0, 0, mmin=m0, dx=d0)
    # broadcast over parameters
    got2 = np.asarray(rec.call(D.smooth, rec.arr(np.full(x.shape, dx)), x, rec.arr(np.full(x.shape, mmin))), float)
    rec.close(got2, got, "window with array parameters", 0, 1e-6)


def logistic(rec):
    rng = rec.rng
    x0 = float(rec.ft(rng.choice([0.0, 5.0, 80.0, -1.0, rng.uniform(-50, 120)])))
    sgn = float(rng.choice([1, -1]))
    sc = float(rec.ft(rng.choice([0.5, 1.0, 4.0, 10.0, 10 ** rng.uniform(-1, 1.5), 10 ** rng.uniform(1, 2.5)])))
    d = np.concatenate([rng.uniform(-1, 1, 12), rng.uniform(-6, 6, 12), rng.uniform(-20, 20, 8) / sc, [0.0, 8.0, -8.0, 15.0, -15.0, 60.0, -60.0]])
    x = rec.arr(x0 + d)
    rec.note(x0=x0, sgn=sgn, sc=sc)
    xf = x.astype(float)
    abs_arg = np.abs(sc * (xf - x0))
    err = 8 * rec.eps * (1 + sc * (np.abs(xf) + abs(x0)) + abs_arg)
    tiny = rec.tol(1e-36, 1e-300)
    rec.close(rec.call(D.logistic_unit, x, x0, sgn=sgn, sc=sc), O.logistic(x, x0, sgn, sc), "logistic truncation", err, tiny)
    lo = np.asarray(rec.call(D.log_logistic_unit, x, x0, sgn=sgn, sc=sc), float)
    want = O.log_logistic(x, x0, sgn, sc)
    ok = abs_arg < rec.tol(80, 650)
    rec.close(lo[ok], want[ok], "log of the logistic truncation", 20 * rec.eps, err[ok] + 20 * rec.eps)
    rec.true(np.isfinite(lo[ok]) & (lo[ok] <= 1e-6), "log logistic truncation not finite or positive")
    Lc, k = float(rec.ft(rng.uniform(0.1, 5))), float(rec.ft(rng.uniform(-3, 3)))
    rec.close(rec.call(D.logistic_function, x, Lc, k, x0), Lc * O.special.expit(k * (xf - x0)), "logistic curve", 8 * rec.eps * (2 + abs(k) * (np.abs(xf) + abs(x0)) * 2), tiny)
    if sc == 4.0 or rng.random() < 0.3:
        rec.close(rec.call(D.logistic_unit, x, x0), O.logistic(x, x0, 1, 4), "default logistic truncation", 8 * rec.eps * (1 + 8 * (np.abs(xf) + abs(x0))), tiny)


def logitpl(rec):
    rng = rec.rng
    al = float(rec.ft(rng.uniform(-5, 4)))
    lo = [None, float(rec.ft(rng.uniform(2, 8)))][int(rng.random() < 0.7)]
    hi = [None, float(rec.ft(rng.uniform(30, 90)))][int(rng.random() < 0.7)]
    x = rec.arr(np.concatenate([rng.uniform(1, 100, 30), rng.uniform(2, 10, 10), [lo or 5.0, hi or 50.0]]))
    rec.note(alpha=al, lo=lo, hi=hi)
    f1, f2 = float(rec.ft(rng.uniform(0.3, 6))), float(rec.ft(rng.uniform(0.3, 6)))
    xf = x.astype(float)
    want = xf**al
    kw = {}
    if lo is not None:
        want = want * O.logistic(x, lo, -1, f1)
        kw["low"] = lo
    if hi is not None:
        want = want * O.logistic(x, hi, 1, f2)
        kw["high"] = hi
    got = rec.call(D.powerlaw_logit_pdf, x, al, low_fall_off=f1, high_fall_off=f2, **kw)
    rec.close(got, want, "softly truncated power law", 40 * rec.eps * (1 + abs(al) * 5 + (f1 + f2) * (xf + 100)), rec.tol(1e-27, 1e-200))


KINDS = {"powerlaw": (powerlaw, 200, 2400), "truncnorm": (truncnorm, 120, 1600), "lognorm": (lognorm, 70, 900), "beta": (beta, 150, 1600), "window": (window, 100, 1000), "logistic": (logistic, 90, 900), "logitpl": (logitpl, 60, 600)}
