"""Shared generators for the spline properties."""
import numpy as np

from gwinferno import interpolation as I

from .. import oracles as O

FAMS = ["BasisSpline", "BSpline", "LogXBSpline", "LogYBSpline", "LogXLogYBSpline"]


def is_logx(f):
    return f in ("LogXBSpline", "LogXLogYBSpline")


def is_logy(f):
    return f in ("LogYBSpline", "LogXLogYBSpline")


def domain(rng, logx, narrow=False):
    if rng.random() < 0.12:
        return (0.01, 1.0) if logx else (0.0, 1.0)  # the documented defaults
    if rng.random() < 0.4:  # anything, not only familiar ranges
        if logx:
            lo = float(np.round(10 ** rng.uniform(-4, 2), 6)) or 1e-4
            return lo, float(np.round(lo * 10 ** rng.uniform(0.15, 3.5), 5))
        span = 10 ** rng.uniform(-1.5, 2.5)
        lo = float(np.round(span * rng.uniform(-2.5, 1.5), 6))
        return lo, float(np.round(lo + span, 6))
    if logx:
        return [(0.01, 1.0), (2.0, 100.0), (1e-4, 2.3), (0.001, 1.0), (5.0, 87.5), (0.3, 40.0), (30.0, 30.9), (1e-3, 1.3e-3)][rng.integers(6 if not narrow else 8)]
    return [(0.0, 1.0), (-1.0, 1.0), (0.02, 1.0), (2.0, 100.0), (-3.5, -0.25), (0.0, 2.3), (0.03, 0.97), (0.0, 0.01), (-2e-3, 3e-3), (0.0, 2e4)][rng.integers(7 if not narrow else 10)]


def knots_for(rng, style, n, k, a, b):
    """(kwargs in the spline's own u-space, full reference knot vector)"""
    if style == "uniform":
        return {}, O.uniform_knots(n, k, a, b)
    m = n - k + 2
    w = 0.25 + rng.random(m - 1)
    inner = a + (b - a) * np.concatenate([[0], np.cumsum(w) / w.sum()])
    inner[-1] = b
    if style == "interior":
        return {"interior_knots": inner}, O.extend_knots(inner, k)
    if style == "full":
        d = (b - a) / (m - 1)
        lo = a - np.cumsum(d * (0.3 + rng.random(k - 1)))[::-1] if k > 1 else np.array([])
        hi = b + np.cumsum(d * (0.3 + rng.random(k - 1))) if k > 1 else np.array([])
        t = np.concatenate([lo, inner, hi])
        return {"knots": t}, t
    if style == "clamped":
        t = np.concatenate([np.repeat(a, k - 1), inner, np.repeat(b, k - 1)])
        return {"knots": t}, t
    raise ValueError(style)


def points(rec, rng, lo, hi, t, k, logx, size, edges=True, clamped=False):
    """points inside, outside, on the edges and near knots, all representable in the working precision"""
    span = hi - lo
    if logx:
        u = np.concatenate([rng.uniform(np.log(lo), np.log(hi), size), t[(t > np.log(lo)) & (t < np.log(hi))]])
        x = np.exp(u)
        x = x[(x > lo * (1 + 1e-5)) & (x < hi * (1 - 1e-5))]
        out = np.array([lo * 0.5, lo * (1 - 1e-3), hi * (1 + 1e-3), hi * 2, hi * 10])
    else:
        x = np.concatenate([rng.uniform(lo, hi, size), t[(t > lo) & (t < hi)], lo + span * np.array([1e-6, 1e-3]), hi - span * np.array([1e-4, 1e-3])])
        out = np.array([lo - span, lo - 1e-3 * span, hi + 1e-3 * span, hi + span, hi + 10 * span])
        if edges:
            x = np.concatenate([x, [lo] if clamped else [lo, hi]])
    x = rec.arr(np.concatenate([x, out]))
    if k == 1:
        u = np.log(x.astype(float)) if logx else x.astype(float)
        near = (np.abs(u[:, None] - t[None, :]) < 200 * rec.eps * (1 + np.abs(t).max())).any(1)
        x = x[~near]
    if clamped and not logx:
        x = x[np.abs(x - hi) > 1e-6 * span]
    return x[rng.permutation(len(x))]


def build(rec, fam, n, k, lo, hi, kw, normalize=None):
    """Real spline object; kw holds knots in u-space (the log families take them in x-space)."""
    kw = dict(kw)
    if is_logx(fam):
        kw = {a: np.exp(v) for a, v in kw.items()}
    if kw and rec.rng.random() < 0.3:
        kw = {a: list(map(float, v)) if rec.rng.random() < 0.5 else tuple(map(float, v)) for a, v in kw.items()}
    if normalize is not None:
        kw["normalize"] = normalize
    documented = {"xrange": {"LogXBSpline": (0.01, 1.0), "LogXLogYBSpline": None}.get(fam, (0.0, 1.0)), "k": 4, "normalize": fam != "BSpline"}
    return rec.call(getattr(I, fam), n, **rec.omit(dict(kw, xrange=(lo, hi), k=k), **documented))


def spline_atol(rec, t, k, mspl):
    t = np.asarray(t, float)
    gaps = np.diff(t)
    h = gaps[gaps > 1e-9].min()
    umax = np.abs(t).max()
    scale = max(k / (t[i + k] - t[i]) for i in range(len(t) - k)) if mspl else 1.0
    return 100 * rec.eps * k * (1 + umax / h) * scale


def coefs_any(rng, fam, n):
    """coefficients of any size: linear ones are a scale, logarithmic ones a shift away from the usual"""
    c = coefs_for(rng, fam, n)
    if rng.random() < 0.4:
        return c
    return c + rng.uniform(-60, 60) if is_logy(fam) else c * 10 ** rng.uniform(-9, 6)


def coefs_for(rng, fam, n, sigma=None):
    if is_logy(fam):
        s = float(rng.choice([0.3, 1.0, 2.0, 4.0])) if sigma is None else sigma
        return rng.normal(0, s, n) + float(rng.choice([0, 0, 1.5, -2]))
    c = rng.gamma(float(rng.choice([0.7, 1.0, 3.0])), 1.0, n) * float(rng.choice([1, 1, 10.0, 0.05])) + 1e-3
    if rng.random() < 0.3:
        c[rng.integers(n)] = 0.0
        if c.sum() == 0:
            c[0] = 1.0
    return c


def density_tol(rec, ref, c, disc):
    """(rtol, atol) for values of a spline density: discretisation + end points of the log-x grids + rounding"""
    c = np.asarray(c, float)
    a = spline_atol(rec, ref.t, ref.k, ref.mspl)
    if ref.logy:
        rt = 2 * a * np.abs(c).sum() + 30 * rec.eps * (1 + np.abs(c).max())
        at = 0.0
    else:
        rt = 50 * rec.eps
        at = a * np.abs(c).sum() / (c.sum() if ref.mspl else 1.0)
    if ref.normalize:
        norm = ref.norms(c)[1]
        rt = rt + 2 * disc
        if not ref.logy:
            rt = rt + at * (ref.hi - ref.lo) / norm if not ref.mspl else rt + at
            at = at / norm
        at = at + 4e-38 / norm  # float32 underflow before the normalisation
        if ref.logx:
            h = (ref.hi - ref.lo) / (1499 if ref.logy else 999)
            e = ref.raw(np.array([ref.lo * (1 + 1e-9), ref.hi * (1 - 1e-9)]), c)
            rt = rt + 0.5 * h * e.sum() / norm
    return rt, at + 1e-30


def sample_set(rec, lo, hi, shape, logx, frac_out=0.3, edges=True):
    """samples inside and outside [lo, hi]; for log-x splines never within 1e-5 of an edge"""
    rng = rec.rng
    x = rng.uniform(lo, hi, shape)
    if logx:
        x = np.exp(rng.uniform(np.log(lo) + 2e-5, np.log(hi) - 2e-5, shape))
    out = rng.random(shape) < frac_out
    span = hi - lo
    xo = np.where(rng.random(shape) < 0.5, hi + span * 10 ** rng.uniform(-2, 0.5, shape), lo * rng.uniform(0.3, 0.98, shape) if lo > 0 else lo - span * 10 ** rng.uniform(-2, 0.5, shape))
    x = np.where(out, xo, x)
    if edges and not logx and x.size > 4:
        f = x.reshape(-1)
        f[rng.integers(f.size, size=2)] = [lo, hi]
        x = f.reshape(shape)
    x = rec.arr(x)
    # edges must be exactly representable comparisons
    x[(x < lo) & (x > lo - 1e-6 * max(1.0, abs(lo)))] = rec.ft(lo + 1e-3 * span)
    x[(x > hi) & (x < hi + 1e-6 * max(1.0, abs(hi)))] = rec.ft(hi - 1e-3 * span)
    return x


def model_pdf(rec, fam, n, k, lo, hi, normalize, x, c, knots=None):
    """reference value of a one-dimensional spline population model with tolerances"""
    ref = O.SplineDensity(fam, n, k, lo, hi, knots=knots, normalize=normalize)
    x = np.asarray(x).astype(float)
    p, disc = ref.pdf(np.clip(x, lo, hi), c)
    p = np.where((x >= float(rec.ft(lo))) & (x <= float(rec.ft(hi))), p, 0.0)
    rt, at = density_tol(rec, ref, c, disc)
    return p, rt, at


def maybe_jax(rec, *xs):
    import jax.numpy as jnp

    if rec.rng.random() < 0.5:
        return tuple(jnp.asarray(x) for x in xs)
    return xs


