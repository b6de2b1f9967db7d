import numpy as np

from gwinferno import interpolation as I

from .. import oracles as O
from . import spl

RULE = ("random spline family x number of basis functions x order 1-6 x domain x knot placement (uniform, interior, full, clamped) x point set "
        "(inside, on knots, on edges, outside; 1-3 dimensional); non-trivial = at least one design matrix compared entry by entry with SciPy's B-spline basis on "
        "independently built knots; distinct by parameters and observed values")
ASSUMPTIONS = ["log-x families are not judged within 1e-5 (relative) of the domain edges, where log rounding decides membership",
               "order-1 (piecewise constant) splines are not judged within rounding of a knot",
               "knot spacing above 1e-6 or exactly repeated end knots; at repeated end knots the right end point itself is not judged"]


def judge_matrix(rec, spline, fam, t, k, lo, hi, x, what, atol=None):
    a, b = (np.log(lo), np.log(hi)) if spl.is_logx(fam) else (lo, hi)
    u = np.log(x.astype(float)) if spl.is_logx(fam) else x.astype(float)
    ref = (O.mspline_matrix if fam == "BasisSpline" else O.bspline_matrix)(u, t, k, a, b)
    inside = (x.astype(float) >= rec.ft(lo)) & (x.astype(float) <= rec.ft(hi))
    # membership at rounded edges follows the code's own precision
    edge = (x == rec.ft(lo)) | (x == rec.ft(hi))
    if edge.any():
        uc = np.clip(u, a, b)
        ref = np.where(edge, (O.mspline_matrix if fam == "BasisSpline" else O.bspline_matrix)(uc, t, k, a, b), ref)
    if spl.is_logy(fam):
        ref = np.where(inside, ref, -np.inf)
    atol = spl.spline_atol(rec, t, k, fam == "BasisSpline") if atol is None else atol
    got = np.asarray(rec.call(spline.bases, x))
    ok = rec.close(got, ref, f"{fam} {what}: basis values", 0.0, atol, fam=fam, k=k)
    if ok:
        gi = got[:, inside]
        rec.true(gi >= -atol, f"{fam}: negative basis value", min=gi.min() if gi.size else 0)
        if fam != "BasisSpline" and inside.any() and len(t) - k > 0:
            tt = t
            full = (u >= tt[k - 1]) & (u <= tt[len(tt) - k]) & inside
            s = got[:, full].sum(0)
            rec.close(s, np.ones_like(s), f"{fam} {what}: basis functions sum to one", 0, atol * 4)
    return got, atol


def one(rec, fam, style):
    rng = rec.rng
    k = int(rng.choice([1, 2, 3, 4, 4, 5, 6] if style == "uniform" else [1, 2, 3, 4, 4, 5, 6, 6]))
    n = int(k + rng.integers(0 if style == "uniform" else 1, 14 if k < 6 else 6))
    if k <= 4 and rng.random() < 0.08:
        n = int(rng.integers(30, 61))
    lo, hi = spl.domain(rng, spl.is_logx(fam), narrow=True)
    a, b = (np.log(lo), np.log(hi)) if spl.is_logx(fam) else (lo, hi)
    kw, t = spl.knots_for(rng, style, n, k, a, b)
    norm = bool(rng.random() < 0.3)
    rec.note(fam=fam, style=style, n=n, k=k, lo=lo, hi=hi, normalize=norm)
    s = spl.build(rec, fam, n, k, lo, hi, kw, normalize=norm)
    x = spl.points(rec, rng, lo, hi, t, k, spl.is_logx(fam), 25, clamped=style == "clamped")
    got, atol = judge_matrix(rec, s, fam, t, k, lo, hi, x, style)
    # batching, shape, order
    m = (len(x) // 6) * 6
    y = x[:m]
    shp = [(m,), (2, m // 2), (3, m // 3), (2, 3, m // 6), (1, m), (m, 1)][rng.integers(6)]
    g2 = np.asarray(rec.call(s.bases, y.reshape(shp)))
    rec.close(g2, got[:, :m].reshape((n,) + shp), f"{fam}: result depends on the shape of the input", 0, atol)
    perm = rng.permutation(len(x))
    rec.close(np.asarray(rec.call(s.bases, x[perm])), got[:, perm], f"{fam}: result depends on the order of the input", 0, atol)
    j = int(rng.integers(len(x)))
    rec.close(np.asarray(rec.call(s.bases, x[j : j + 1])), got[:, j : j + 1], f"{fam}: single point differs from batch", 0, atol)
    if rng.random() < 0.5:
        import jax.numpy as jnp

        rec.close(np.asarray(rec.call(s.bases, jnp.asarray(x))), got, f"{fam}: JAX input differs from NumPy input", 0, atol)
    if rng.random() < 0.12:
        # many points: block sizes must not show
        N = int(rng.choice([1000, 1025, 2049, 4097, 5003, 10007]))
        ids = rng.integers(0, len(x), N)
        big = x[ids]
        rec.close(np.asarray(rec.call(s.bases, big)), got[:, ids], f"{fam}: many points differ from few", 0, atol)
    if rng.random() < 0.3:
        e = np.asarray(rec.call(s.bases, x[:0]))
        rec.true(e.shape == (n, 0), f"{fam}: empty input", shape=e.shape)


def mk(fam, style):
    return lambda rec: one(rec, fam, style)


def tensor(rec):
    rng = rec.rng
    fx, fy = rng.choice(["BSpline", "BSpline", "LogXBSpline", "LogYBSpline", "BasisSpline"], 2)
    if not (spl.is_logy(fx) and spl.is_logy(fy)) and (spl.is_logy(fx) or spl.is_logy(fy)):
        fx = fy = "LogYBSpline"
    kx, ky = int(rng.integers(2, 5)), int(rng.integers(2, 5))
    nx, ny = int(kx + rng.integers(0, 5)), int(ky + rng.integers(0, 5))
    (ax, bx), (ay, by) = spl.domain(rng, spl.is_logx(fx)), spl.domain(rng, spl.is_logx(fy))
    rec.note(fx=str(fx), fy=str(fy), nx=nx, ny=ny, kx=kx, ky=ky, xr=(ax, bx), yr=(ay, by))
    s = rec.call(I.RectBivariateBasisSpline, nx, ny, **rec.omit(dict(xrange=(ax, bx), yrange=(ay, by), kx=kx, ky=ky), xrange=(0.0, 1.0), yrange=(0.0, 1.0), kx=4, ky=4), xbasis=getattr(I, fx), ybasis=getattr(I, fy), normalize=False)

    def mat(f, x, n, k, lo, hi):
        lg = spl.is_logx(f)
        a, b = (np.log(lo), np.log(hi)) if lg else (lo, hi)
        t = O.uniform_knots(n, k, a, b)
        u = np.log(x.astype(float)) if lg else x.astype(float)
        return (O.mspline_matrix if f == "BasisSpline" else O.bspline_matrix)(u, t, k, a, b), spl.spline_atol(rec, t, k, f == "BasisSpline"), t

    shp = [(24,), (4, 6), (2, 3, 4)][rng.integers(3)]
    def pts(f, lo, hi):
        if spl.is_logx(f):
            return np.exp(rng.uniform(np.log(lo) + 1e-3, np.log(hi) - 1e-3, shp))
        return rng.uniform(lo, hi, shp) + 0.0
    x, y = rec.arr(pts(fx, ax, bx)), rec.arr(pts(fy, ay, by))
    if not spl.is_logy(fx):
        x.flat[0] = rec.ft(bx * 1.5 if bx > 0 else bx + 1)  # outside
        y.flat[1] = rec.ft(by * 1.5 if by > 0 else by + 1)
    mx, tx, _ = mat(fx, x, nx, kx, ax, bx)
    my, ty, _ = mat(fy, y, ny, ky, ay, by)
    ref = np.einsum("i...,j...->ij...", mx, my)
    got = np.asarray(rec.call(s.bases, x, y))
    rec.close(got, ref, "tensor-product basis values", 0, tx * (1 + np.abs(my).max()) + ty * (1 + np.abs(mx).max()))
    got2 = np.asarray(rec.call(s.bases, x[::-1], y[::-1]))
    rec.close(got2, got[:, :, ::-1], "tensor-product: order of the input matters", 0, tx + ty)


def history(rec):
    """Several splines of one family alive at once: evaluating one does not disturb another."""
    rng = rec.rng
    fam = str(rng.choice(spl.FAMS))
    objs = []
    for _ in range(3):
        k = int(rng.integers(2, 5))
        n = int(k + rng.integers(1, 8))
        lo, hi = spl.domain(rng, spl.is_logx(fam))
        a, b = (np.log(lo), np.log(hi)) if spl.is_logx(fam) else (lo, hi)
        style = str(rng.choice(["uniform", "interior", "full"]))
        kw, t = spl.knots_for(rng, style, n, k, a, b)
        objs.append((spl.build(rec, fam, n, k, lo, hi, kw), t, k, lo, hi))
    rec.note(fam=fam, objs=[(o[2], len(o[1]) - o[2], o[3], o[4]) for o in objs])
    for i in rng.integers(0, 3, 5):
        s, t, k, lo, hi = objs[i]
        x = spl.points(rec, rng, lo, hi, t, k, spl.is_logx(fam), 10)
        judge_matrix(rec, s, fam, t, k, lo, hi, x, f"in a history of {len(objs)} splines")


def integers(rec):
    """Whole-number abscissae given as integers are the same points as floating-point ones."""
    rng = rec.rng
    fam = str(rng.choice(spl.FAMS))
    k = int(rng.integers(1, 6))
    n = int(k + rng.integers(0, 9))
    lo = float(rng.integers(1, 9)) + (0.5 if rng.random() < 0.5 else 0.0)
    hi = lo + float(rng.integers(8, 90)) + 0.25
    a, b = (np.log(lo), np.log(hi)) if spl.is_logx(fam) else (lo, hi)
    kw, t = spl.knots_for(rng, str(rng.choice(["uniform", "interior", "full"])), n, k, a, b) if k > 1 else spl.knots_for(rng, "uniform", n, k, a, b)
    x = rng.integers(int(lo) + 1, int(hi) + 1, 20)
    u = np.log(x) if spl.is_logx(fam) else x.astype(float)
    if k == 1:
        x = x[(np.abs(u[:, None] - t[None, :]) > 1e-4).all(1)]
    if spl.is_logx(fam):
        x = x[(x > lo * (1 + 1e-5)) & (x < hi * (1 - 1e-5))]
    rec.note(fam=fam, n=n, k=k, lo=lo, hi=hi, x=x)
    if not len(x):
        rec.skip("no whole-number points away from the knots")
    s = spl.build(rec, fam, n, k, lo, hi, kw)
    got, atol = judge_matrix(rec, s, fam, t, k, lo, hi, x, "whole-number points")
    rec.close(np.asarray(rec.call(s.bases, rec.arr(x))), got, f"{fam}: integer input differs from floating-point input", 0, atol)


KINDS = {}
for _f in spl.FAMS:
    KINDS[f"{_f}-uniform"] = (mk(_f, "uniform"), 22, 260)
    KINDS[f"{_f}-interior"] = (mk(_f, "interior"), 12 if _f == "BasisSpline" else 8, 100)
    KINDS[f"{_f}-full"] = (mk(_f, "full"), 8, 100)
KINDS["BSpline-clamped"] = (mk("BSpline", "clamped"), 6, 80)
KINDS["BasisSpline-clamped"] = (mk("BasisSpline", "clamped"), 6, 80)
KINDS["LogYBSpline-clamped"] = (mk("LogYBSpline", "clamped"), 6, 60)
KINDS["tensor"] = (tensor, 16, 200)
KINDS["integers"] = (integers, 12, 120)
KINDS["history"] = (history, 8, 100)
