import numpy as np

from gwinferno import interpolation as I
from gwinferno.models.bsplines import single as S

from .. import oracles as O
from . import spl

RULE = ("random one-dimensional spline population model x basis x degree x range x number of splines x normalisation x coefficients x sample sets (1-3 dimensional; all in, some out, "
        "all out of range); non-trivial = model values on samples and injections compared entry by entry with an independent float64 spline density")
ASSUMPTIONS = ["log-x bases are not judged within 2e-5 of the range edges", "normalisation judged to the accuracy of the 1000-1500 point trapezoid rule, measured per case"]

#          default basis, default range, default normalisation by basis
MODELS = {
    "BSplineSpinMagnitude": ("LogYBSpline", (0.0, 1.0)),
    "BSplineSpinTilt": ("LogYBSpline", (-1.0, 1.0)),
    "BSplineChiEffective": ("BSpline", (-1.0, 1.0)),
    "BSplineSymmetricChiEffective": ("BSpline", (0.0, 1.0)),
    "BSplineChiPrecess": ("BSpline", (0.0, 1.0)),
    "BSplineRatio": ("LogYBSpline", (0.0, 1.0)),
    "BSplineMass": ("LogXLogYBSpline", (2.0, 100.0)),
    "Base1DBSplineModel": ("BSpline", (0.0, 1.0)),
}
NORM_DEFAULT = {"BasisSpline": True, "BSpline": False, "LogXBSpline": True, "LogYBSpline": True, "LogXLogYBSpline": True}


def build(rec, name):
    rng = rec.rng
    fam, (lo, hi) = MODELS[name]
    kw = {}
    if rng.random() < 0.4:
        fam = str(rng.choice(["BSpline", "LogYBSpline", "BasisSpline"] if name != "BSplineMass" else ["LogXLogYBSpline", "LogXBSpline", "LogYBSpline", "BSpline"]))
        kw["basis"] = getattr(I, fam)
    norm = NORM_DEFAULT[fam]
    if rng.random() < 0.5:
        norm = bool(rng.random() < 0.7)
        kw["normalize"] = norm
    deg = 3
    if rng.random() < 0.5:
        deg = int(rng.choice([1, 2, 3, 4, 5, 6]))
        kw["degree"] = deg
    r = rng.random()
    if name == "BSplineMass" and r < 0.5:
        lo, hi = float(rng.choice([2.0, 3.0, 5.0, 20.0])), float(rng.choice([50.0, 100.0, 87.0, 250.0]))
        if rng.random() < 0.5:
            lo, hi = float(np.round(rng.uniform(0.8, 12), 4)), float(np.round(rng.uniform(25, 300), 4))
        kw.update(mmin=lo, mmax=hi) if r < 0.3 else kw.update(xrange=(lo, hi))
    elif name == "BSplineRatio" and r < 0.5:
        lo = float(rng.choice([0.02, 0.0625, 0.1, 0.35, 0.62, np.round(rng.uniform(0.005, 0.8), 5)]))
        kw.update(qmin=lo)
    elif r < 0.35 and name != "BSplineMass":
        lo, hi = [(0.1, 0.9), (0.0, 0.5), (0.25, 1.0), (0.0, 1.5), (0.625, 0.75)][rng.integers(5)]
        if rng.random() < 0.5:
            lo = float(np.round(rng.uniform(0, 0.7), 4))
            hi = float(np.round(lo + rng.uniform(0.1, 1.2), 4))
        kw.update(xrange=(lo, hi))
    n = int(deg + 1 + (rng.integers(1, 14) if rng.random() < 0.85 else rng.integers(14, 60)))
    return fam, norm, deg, lo, hi, n, kw


def model(rec, name):
    rng = rec.rng
    fam, norm, deg, lo, hi, n, kw = build(rec, name)
    pe_shape = [(3, 16), (2, 4, 6), (1, 20), (5, 8)][rng.integers(4)]
    inj_shape = [(40,), (1,), (24,)][rng.integers(3)]
    if rng.random() < 0.1:
        pe_shape, inj_shape = [(1, 1), (70, 16), (2, 1100)][rng.integers(3)], [(1025,), (3000,), (4100,)][rng.integers(3)]
    sym = name == "BSplineSymmetricChiEffective"
    fo = float(rng.choice([0.0, 0.3, 0.3, 1.0]))
    pe = spl.sample_set(rec, lo, hi, pe_shape, spl.is_logx(fam), fo, edges=fo < 1)
    inj = spl.sample_set(rec, lo, hi, inj_shape, spl.is_logx(fam), float(rng.choice([0.0, 0.3, 0.3, 1.0])), edges=True)
    if sym:
        pe, inj = pe * rng.choice([-1, 1], pe_shape).astype(rec.ft), inj * rng.choice([-1, 1], inj_shape).astype(rec.ft)
    c = rec.arr(spl.coefs_for(rng, fam, n))
    rec.note(model=name, fam=fam, n=n, deg=deg, lo=lo, hi=hi, normalize=norm, pe=pe_shape, inj=inj_shape, kw=sorted(kw), coefs=c)
    pj, ij, cj = spl.maybe_jax(rec, pe, inj, c)
    m = rec.call(getattr(S, name), n, pj, ij, **kw)
    fac = 0.5 if sym else 1.0
    for what, x, flag in (("posterior samples", pe, True), ("injections", inj, False)):
        xs = np.abs(x) if sym else x
        p, rt, at = spl.model_pdf(rec, fam, n, deg + 1, lo, hi, norm, xs, c)
        got = np.asarray(rec.call(m, cj, pe_samples=flag))
        rec.close(got, fac * p, f"{name} on {what}", rt, at)
        out = (xs < lo) | (xs > hi)
        rec.true(got[out] == 0, f"{name}: non-zero outside the range on {what}")
        rec.ev("out-of-range", int(out.sum()))
        rec.ev("in-range", int((~out).sum()))
    rec.close(rec.call(m, cj), rec.call(m, cj, True), f"{name}: default sample set", 0, 0)
    # same value -> same density in both sets
    y = spl.sample_set(rec, lo, hi, (12,), spl.is_logx(fam), 0.2, edges=True)
    m2 = rec.call(getattr(S, name), n, y.reshape(3, 4), y[::-1].copy(), **kw)
    a, b = np.asarray(rec.call(m2, cj, pe_samples=True)).reshape(-1), np.asarray(rec.call(m2, cj, pe_samples=False))[::-1]
    rec.close(a, b, f"{name}: the same value gets different densities as sample and as injection", 100 * rec.eps, 1e-30)
    # and a second coefficient vector on the same object
    c2 = rec.arr(spl.coefs_for(rng, fam, n))
    p, rt, at = spl.model_pdf(rec, fam, n, deg + 1, lo, hi, norm, np.abs(pe) if sym else pe, c2)
    rec.close(rec.call(m, c2), fac * p, f"{name}: second coefficient vector", rt, at)


def mk(name):
    return lambda rec: model(rec, name)


KINDS = {n: (mk(n), 14 if n != "BSplineMass" else 20, 220) for n in MODELS}
