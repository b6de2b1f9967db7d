import numpy as np

from gwinferno import interpolation as I

from .. import oracles as O
from . import spl

RULE = ("random spline family x size x order x domain x knots x normalisation x coefficient vector (wide, near-degenerate, scaled and shifted) x points; non-trivial = the "
        "projected function compared point by point with an independent float64 B-spline reference and integrated; distinct by parameters and observed values")
ASSUMPTIONS = ["normalisation is judged to the accuracy of the documented 1000-1500 point trapezoid rule (difference to a 20001 point rule, measured per case)",
               "order >= 2 for normalised splines (piecewise constant functions have no meaningful trapezoid accuracy)",
               "least-squares fits are judged on well-conditioned problems (at least 15 points per basis function)"]


def setup(rec, fam, style=None, normalize=None):
    rng = rec.rng
    normalize = bool(rng.random() < 0.7) if normalize is None else normalize
    k = int(rng.choice([2, 3, 4, 4, 4, 5]))
    n = int(k + rng.integers(1, 9)) if rng.random() < 0.85 else int(rng.integers(16, 61))
    style = style or str(rng.choice(["uniform", "uniform", "interior", "full"]))
    lo, hi = spl.domain(rng, spl.is_logx(fam), narrow=True)
    a, b = (np.log(lo), np.log(hi)) if spl.is_logx(fam) else (lo, hi)
    kw, t = spl.knots_for(rng, style, n, k, a, b)
    c = rec.arr(spl.coefs_any(rng, fam, n))
    rec.note(fam=fam, style=style, n=n, k=k, lo=lo, hi=hi, normalize=normalize, coefs=c)
    s = spl.build(rec, fam, n, k, lo, hi, kw, normalize=normalize)
    ref = O.SplineDensity(fam, n, k, lo, hi, knots=t, normalize=normalize)
    return s, ref, c


def judge(rec, s, ref, c, x, what):
    fam = ref.family
    p, disc = ref.pdf(x, c)
    rt, at = spl.density_tol(rec, ref, c, disc)
    # points within rounding of the domain edge follow the code's precision
    near = (np.abs(x.astype(float) - ref.lo) < 1e-5 * abs(ref.hi - ref.lo)) | (np.abs(x.astype(float) - ref.hi) < 1e-5 * abs(ref.hi - ref.lo))
    x, p = x[~near], p[~near]
    B = rec.call(s.bases, x)
    got = np.asarray(rec.call(s.project, B, c))
    rec.close(got, p, f"{fam} {what}: projected function", rt, at)
    rec.close(rec.call(s, x, c), got, f"{fam}: calling the spline differs from projecting its design matrix", 20 * rec.eps, at * 1e-2)
    rec.close(rec.call(s.eval, x, c), got, f"{fam}: eval differs from projecting its design matrix", 20 * rec.eps, at * 1e-2)
    out = (x.astype(float) < ref.lo) | (x.astype(float) > ref.hi)
    rec.true(got[out] == 0.0, f"{fam}: non-zero outside the domain", values=got[out])
    rec.true(got >= -at, f"{fam}: negative density")
    return x, got, rt, at


def project(rec, fam):
    rng = rec.rng
    s, ref, c = setup(rec, fam)
    if not ref.normalize and not ref.logy and fam != "BasisSpline" and rng.random() < 0.5:
        c = rec.arr(rng.normal(0, 2, ref.n))
        x = spl.points(rec, rng, ref.lo, ref.hi, ref.t, ref.k, ref.logx, 20)
        near = (np.abs(x.astype(float) - ref.lo) < 1e-5 * abs(ref.hi - ref.lo)) | (np.abs(x.astype(float) - ref.hi) < 1e-5 * abs(ref.hi - ref.lo))
        x = x[~near]
        rec.close(rec.call(s, x, c), ref.raw(x, c), f"{fam}: linear combination", 50 * rec.eps, spl.spline_atol(rec, ref.t, ref.k, False) * np.abs(c).sum())
        return
    if not ref.normalize and fam == "BasisSpline" and rng.random() < 0.5:
        # the combination is defined for any coefficients with a non-zero sum, of either sign
        c = rng.normal(0, 1, ref.n)
        c = rec.arr(c + float(rng.choice([-1, 1])) * rng.uniform(0.7, 3.0))
        if abs(c.sum()) < 0.3 * np.abs(c).sum():
            c = rec.arr(np.abs(c))
        x = spl.points(rec, rng, ref.lo, ref.hi, ref.t, ref.k, ref.logx, 20)
        x = x[(np.abs(x.astype(float) - ref.lo) > 1e-5 * (ref.hi - ref.lo)) & (np.abs(x.astype(float) - ref.hi) > 1e-5 * (ref.hi - ref.lo))]
        w = np.abs(c.astype(float)).sum() / abs(c.astype(float).sum())
        rec.close(rec.call(s, x, c), ref.raw(x, c), "BasisSpline: unit-sum combination", 100 * rec.eps * w * ref.n, 2 * spl.spline_atol(rec, ref.t, ref.k, True) * w)
        return
    x = spl.points(rec, rng, ref.lo, ref.hi, ref.t, ref.k, ref.logx, 20)
    x, got, rt, at = judge(rec, s, ref, c, x, "normalised" if ref.normalize else "not normalised")
    m = (len(x) // 4) * 4
    rec.close(rec.call(s, x[:m].reshape(4, -1), c), got[:m].reshape(4, -1), f"{fam}: result depends on the shape of the input", 20 * rec.eps, at * 1e-2)
    if ref.normalize:
        if ref.logy:
            c2 = rec.arr(c + rec.ft(rng.choice([-1.7, 0.6, 3.0])))
            what = "shift of the coefficients"
        else:
            c2 = rec.arr(c * rec.ft(rng.choice([0.02, 3.7, 250.0])))
            what = "scale of the coefficients"
        # B-splines sum to one, so a shift multiplies by a constant (exactly the normalisation)
        rec.close(rec.call(s, x, c2), got, f"{fam}: {what} changes the normalised function", 2 * rt + 100 * rec.eps * (1 + np.abs(c2).max()), 2 * at)
        if fam == "BasisSpline" or fam != "BasisSpline":
            n = np.asarray(rec.call(s.norm, _j(c / c.sum() if fam == "BasisSpline" else c)))
            rec.close(n, np.float64(1 / ref.norms(c)[1]), f"{fam}: norm()", rt + 1e-4, 0)
    elif fam == "BasisSpline":
        c2 = rec.arr(c * 7.3)
        rec.close(rec.call(s, x, c2), got, "BasisSpline: scale of the coefficients changes the unit-sum combination", 2 * rt, 2 * at)


def _j(x):
    import jax.numpy as jnp

    return jnp.asarray(x)


def integral(rec, fam):
    rng = rec.rng
    s, ref, c = setup(rec, fam, normalize=True)
    span = ref.hi - ref.lo
    if ref.logx:
        g = np.exp(np.linspace(np.log(ref.lo) + 1e-5, np.log(ref.hi) - 1e-5, 3001))
    else:
        g = np.linspace(ref.lo, ref.hi, 3001)
    g = rec.arr(g)
    v = np.asarray(rec.call(s, g, c)).astype(float)
    _, disc = ref.pdf(g[:2], c)
    rt, at = spl.density_tol(rec, ref, c, disc)
    # my own quadrature error, measured on the reference
    quad = abs(O.trapz(ref.raw(g, c), g) / ref.norms(c)[1] - 1)
    rec.close(O.trapz(v, g), 1.0, f"{fam}: integral over the domain", 0, rt + at * span + 2 * quad + 1e-5)
    rec.true(np.isfinite(v), f"{fam}: density not finite")
    rec.true(v >= -at, f"{fam}: negative density", low=v.min())


def fit(rec):
    rng = rec.rng
    fam = str(rng.choice(["BasisSpline", "BSpline", "LogXBSpline", "LogYBSpline", "LogXLogYBSpline"]))
    k = int(rng.integers(2, 5))
    n = int(k + rng.integers(1, 6))
    lo, hi = spl.domain(rng, spl.is_logx(fam))
    a, b = (np.log(lo), np.log(hi)) if spl.is_logx(fam) else (lo, hi)
    kw, t = spl.knots_for(rng, "uniform", n, k, a, b)
    s = spl.build(rec, fam, n, k, lo, hi, kw, normalize=bool(rng.random() < 0.5))
    N = 300
    x = np.linspace(a, b, N + 2)[1:-1] + rng.uniform(-0.3, 0.3, N) * (b - a) / (N + 1)
    x = rec.arr(np.exp(x) if spl.is_logx(fam) else x)
    u = np.log(x.astype(float)) if spl.is_logx(fam) else x.astype(float)
    M = (O.mspline_matrix if fam == "BasisSpline" else O.bspline_matrix)(u, t, k, a, b)
    c = rng.normal(0, 1, n)
    y = np.einsum("ij,i->j", M, c)
    cond = np.linalg.cond(M @ M.T)
    rec.note(fam=fam, n=n, k=k, lo=lo, hi=hi, cond=float(cond))
    if cond * rec.eps > 2e-3:
        rec.skip("ill-conditioned fit")
    co, yi, dm = rec.call(s.get_coefficients, x, rec.arr(y))
    tol = 50 * cond * rec.eps
    rec.close(yi, y, f"{fam}: fitted values do not reproduce a function of the spline space", 0, tol * (1 + np.abs(y).max()))
    rec.close(co, c, f"{fam}: fitted coefficients", 0, tol * (1 + np.abs(c).max()))
    # noisy data: the least-squares solution
    y2 = y + rng.normal(0, 0.3, N)
    co2, yi2, dm2 = rec.call(s.get_coefficients, x, rec.arr(y2))
    ref = np.linalg.lstsq(M.T, rec.arr(y2).astype(float), rcond=None)[0]
    rec.close(co2, ref, f"{fam}: least-squares coefficients", 0, tol * (1 + np.abs(ref).max()))
    rec.close(yi2, M.T @ ref, f"{fam}: least-squares fitted values", 0, tol * (1 + np.abs(y2).max()))


def rect(rec):
    rng = rec.rng
    fx, fy = [("BSpline", "BSpline"), ("LogXBSpline", "BSpline"), ("BSpline", "LogXBSpline"), ("BasisSpline", "BSpline")][rng.integers(4)]
    kx, ky = int(rng.integers(2, 5)), int(rng.integers(2, 5))
    nx, ny = int(kx + rng.integers(0, 3)), int(ky + rng.integers(0, 3))
    (ax, bx), (ay, by) = [(0.0, 1.0), (0.1, 0.9), (2.0, 5.0)][rng.integers(3)], [(0.0, 1.0), (0.2, 3.0)][rng.integers(2)]
    if fx == "LogXBSpline":
        ax, bx = 0.4, 6.0
    if fy == "LogXBSpline":
        ay, by = 0.5, 3.0
    norm = bool(rng.random() < 0.7)
    rec.note(fx=fx, fy=fy, nx=nx, ny=ny, kx=kx, ky=ky, xr=(ax, bx), yr=(ay, by), normalize=norm)
    s = rec.call(I.RectBivariateBasisSpline, nx, ny, **rec.omit(dict(xrange=(ax, bx), yrange=(ay, by), kx=kx, ky=ky, xbasis=getattr(I, fx), ybasis=getattr(I, fy), normalize=norm), xrange=(0.0, 1.0), yrange=(0.0, 1.0), kx=4, ky=4, xbasis=I.BSpline, ybasis=I.BSpline, normalize=True))
    c = rec.arr(rng.normal(0, 1.0, (nx, ny)))

    def mat(f, x, n, k, lo, hi):
        lg = spl.is_logx(f)
        a, b = (np.log(lo), np.log(hi)) if lg else (lo, hi)
        t = O.uniform_knots(n, k, a, b)
        u = np.log(x) if lg else x
        return (O.mspline_matrix if f == "BasisSpline" else O.bspline_matrix)(np.clip(u, a, b), t, k, a, b), spl.spline_atol(rec, t, k, f == "BasisSpline")

    x, y = rec.arr(rng.uniform(ax + 1e-3, bx - 1e-3, 24)), rec.arr(rng.uniform(ay + 1e-3, by - 1e-3, 24))
    mx, tx = mat(fx, x.astype(float), nx, kx, ax, bx)
    my, ty = mat(fy, y.astype(float), ny, ky, ay, by)
    cc = c.astype(float)
    v = np.exp(np.einsum("ij,kj,ik->j", mx, my, cc))
    rt = 4 * (tx * (1 + my.max()) + ty * (1 + mx.max())) * np.abs(cc).sum() + 50 * rec.eps
    if norm:
        ints = []
        for m in (750, 1501):
            gx, gy = np.linspace(ax, bx, m), np.linspace(ay, by, m)
            f = np.exp(np.einsum("ij,ik,kl->jl", mat(fx, gx, nx, kx, ax, bx)[0], cc, mat(fy, gy, ny, ky, ay, by)[0]))
            ints.append(np.trapz(np.trapz(f, gy, axis=1), gx))
        disc = abs(ints[0] / ints[1] - 1)
        v = v / ints[1]
        # log-x grids may lose their end columns to rounding: half a cell of the edge
        rt = rt + 2 * disc + 1e-5
        if "LogXBSpline" in (fx, fy):
            rt = rt + 0.5 / 749 * 3 * np.exp(2 * np.abs(cc).max()) * 0.2
    got = rec.call(s.project, rec.call(s.bases, x, y), c)
    rec.close(got, v, "two-dimensional projection", rt, 1e-30)
    if norm:
        rec.close(rec.call(s.project, s.bases(x, y), rec.arr(c + 0.8)), got, "two-dimensional projection: shift of the coefficients", (2 * rt + 1e-4) if fx != "BasisSpline" else 1e9, 0)


def mk(f, fam):
    return lambda rec: f(rec, fam)


KINDS = {}
for _f in spl.FAMS:
    KINDS["project-" + _f] = (mk(project, _f), 22, 300)
    KINDS["integral-" + _f] = (mk(integral, _f), 10, 120)
KINDS["fit"] = (fit, 16, 200)
KINDS["rect"] = (rect, 8, 60)
