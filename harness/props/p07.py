import numpy as np

from gwinferno import interpolation as I
from gwinferno.models.bsplines import separable as S
from gwinferno.pipeline import utils as U

from .. import oracles as O
from . import spl
from .p04 import near_minus_one
from .p05 import p_q, pq_tol

RULE = ("random joint spline model x per-component spline counts, degrees, bases and normalisation x sample sets x coefficients x pairing exponents, and the pipeline set-up helpers; "
        "non-trivial = joint densities on samples and on injections compared entry by entry with the product of independent float64 one-dimensional references")
ASSUMPTIONS = ["same domain limits as P05/P06; mass-ratio power laws judged for primary masses at least 2% above the minimum mass"]

SH = [((3, 12), (30,)), ((2, 8), (12,)), ((1, 10), (50,)), ((4, 4), (16,)), ((1, 1), (1,)), ((5, 1), (7,)), ((12, 30), (1500,)), ((2, 1030), (40,))]


def shapes(rec):
    return SH[rec.rng.choice(len(SH), p=[0.3, 0.25, 0.2, 0.1, 0.03, 0.04, 0.04, 0.04])]


def frac(rec, f):
    """share of samples outside the range; sometimes none at all"""
    return 0.0 if rec.rng.random() < 0.3 else f


def mass_range(rec):
    rng = rec.rng
    if rng.random() < 0.5:
        return float(rng.choice([2.0, 3.0, 5.0])), float(rng.choice([60.0, 100.0]))
    return float(np.round(rng.uniform(1, 9), 4)), float(np.round(rng.uniform(30, 220), 4))


def ks(rec, allow_basis=None):
    """(kwargs, reference options) of one component"""
    rng = rec.rng
    kw, ref = {}, {}
    if rng.random() < 0.5:
        kw["degree"] = ref["deg"] = int(rng.choice([1, 2, 3, 4, 5]))
    if allow_basis and rng.random() < 0.4:
        ref["fam"] = str(rng.choice(allow_basis))
        kw["basis"] = getattr(I, ref["fam"])
    if rng.random() < 0.3:
        kw["normalize"] = ref["norm"] = bool(rng.random() < 0.6)
    return kw, ref


ND = {"BasisSpline": True, "BSpline": False, "LogXBSpline": True, "LogYBSpline": True, "LogXLogYBSpline": True}


def f1(rec, fam0, n, lo, hi, x, c, ref):
    fam = ref.get("fam", fam0)
    return spl.model_pdf(rec, fam, n, ref.get("deg", 3) + 1, lo, hi, ref.get("norm", ND[fam]), x, c)


def judge(rec, got, facs, what, extra=0.0):
    want, rt, at = 1.0, extra, 1e-30
    for p, r, a in facs:
        at = at * np.max(p) + a * np.max(want) + a * at
        want = want * p
        rt = rt + r
    return rec.close(got, want, what, rt + 30 * rec.eps, at)


def spin(rec, tilt):
    rng = rec.rng
    lo, hi = (-1.0, 1.0) if tilt else (0.0, 1.0)
    ps, js = shapes(rec)
    d = {k: spl.sample_set(rec, lo, hi, s, False, frac(rec, 0.15)) for k, s in (("p1", ps), ("p2", ps), ("i1", js), ("i2", js))}
    n1, n2 = int(6 + rng.integers(0, 12)), int(6 + rng.integers(0, 12))
    bases = ["LogYBSpline", "BSpline"]
    # IID
    kw, ref = ks(rec, bases)
    c = rec.arr(spl.coefs_for(rng, ref.get("fam", "LogYBSpline"), n1))
    rec.note(n1=n1, n2=n2, kw=str(ref), shapes=[ps, js], coefs=c)
    cls = S.BSplineIIDSpinTilts if tilt else S.BSplineIIDSpinMagnitudes
    m = rec.call(cls, n1, *spl.maybe_jax(rec, d["p1"], d["p2"], d["i1"], d["i2"]), **kw)
    sw = rec.call(cls, n1, d["p2"], d["p1"], d["i2"], d["i1"], **kw)
    nm = cls.__name__
    for flag, a, b in ((True, "p1", "p2"), (False, "i1", "i2")):
        got = rec.call(m, c, pe_samples=flag)
        judge(rec, got, [f1(rec, "LogYBSpline", n1, lo, hi, d[k], c, ref) for k in (a, b)], f"{nm} {'samples' if flag else 'injections'}")
        rec.close(rec.call(sw, c, pe_samples=flag), got, f"{nm}: exchange of components", 100 * rec.eps, 1e-30)
    # independent, different options per component
    kw1, r1 = ks(rec, bases)
    kw2, r2 = ks(rec, bases)
    both = {}
    if rng.random() < 0.4 and "normalize" not in kw1 and "normalize" not in kw2:
        both["normalize"] = bool(rng.random() < 0.5)
        r1, r2 = dict(r1, norm=both["normalize"]), dict(r2, norm=both["normalize"])
    c1, c2 = rec.arr(spl.coefs_for(rng, r1.get("fam", "LogYBSpline"), n1)), rec.arr(spl.coefs_for(rng, r2.get("fam", "LogYBSpline"), n2))
    cls = S.BSplineIndependentSpinTilts if tilt else S.BSplineIndependentSpinMagnitudes
    a = {}
    if kw1 or rng.random() < 0.5:
        a["kwargs1"] = kw1
    if kw2 or rng.random() < 0.5:
        a["kwargs2"] = kw2
    m = rec.call(cls, n1, n2, d["p1"], d["p2"], d["i1"], d["i2"], **a, **both)
    for flag, x, y in ((True, "p1", "p2"), (False, "i1", "i2")):
        got = rec.call(m, c1, c2, pe_samples=flag)
        judge(rec, got, [f1(rec, "LogYBSpline", n1, lo, hi, d[x], c1, r1), f1(rec, "LogYBSpline", n2, lo, hi, d[y], c2, r2)], f"{cls.__name__} {'samples' if flag else 'injections'}")


def mass_samples(rec, lo, hi, shape):
    return spl.sample_set(rec, lo, hi, shape, True, frac(rec, 0.15), edges=False)


def masses(rec):
    rng = rec.rng
    ps, js = shapes(rec)
    mmin, mmax = mass_range(rec)
    n1, n2 = int(6 + rng.integers(0, 14)), int(6 + rng.integers(0, 10))
    m1 = {True: mass_samples(rec, mmin, mmax, ps), False: mass_samples(rec, mmin, mmax, js)}
    m2 = {True: mass_samples(rec, mmin, mmax, ps), False: mass_samples(rec, mmin, mmax, js)}
    for f in (True, False):  # some binaries of exactly equal masses
        m2[f] = np.where(rng.random(m2[f].shape) < 0.15, m1[f], m2[f])
    which = int(rng.integers(5))
    rec.note(which=which, mmin=mmin, mmax=mmax, n1=n1, n2=n2, shapes=[ps, js])
    rng_kw = {} if (mmin, mmax) == (2.0, 100.0) and rng.random() < 0.5 else dict(mmin=mmin, mmax=mmax)
    fl = ("injections", "samples")
    if which == 0:  # IID component masses
        kw, ref = ks(rec)
        c = rec.arr(spl.coefs_for(rng, "LogXLogYBSpline", n1, 1.0))
        m = rec.call(S.BSplineIIDComponentMasses, n1, m1[True], m2[True], m1[False], m2[False], **rng_kw, **kw)
        beta = float(rec.ft(rng.choice([0.0, rng.uniform(-3, 5), rng.uniform(-6, 12), -1.0])))
        for f in (True, False):
            q = m2[f].astype(float) / m1[f].astype(float)
            fac = np.where(q > 1, 0.0, q**beta)
            near = (np.abs(q - 1) < 1e-6) & (m1[f] != m2[f])
            fs = [f1(rec, "LogXLogYBSpline", n1, mmin, mmax, x[f], c, ref) for x in (m1, m2)] + [(np.where(near, 0, fac), 40 * rec.eps * (1 + abs(beta) * 5), 0.0)]
            args = {} if beta == 0 and rng.random() < 0.5 else {"beta": beta}
            got = np.asarray(rec.call(m, c, pe_samples=f, **args))
            judge(rec, np.where(near, 0, got), fs, f"IID component masses, {fl[f]}")
            rec.true(got[q > 1 + 1e-5] == 0, "IID component masses: mass ratio above one has support")
    elif which == 1:  # independent component masses
        kw1, r1 = ks(rec)
        kw2, r2 = ks(rec)
        lo2, hi2 = float(rng.choice([2.0, mmin, np.round(rng.uniform(1, 6), 3)])), float(rng.choice([mmax, 45.0, np.round(rng.uniform(20, 90), 3)]))
        c1, c2 = rec.arr(spl.coefs_for(rng, "LogXLogYBSpline", n1, 1.0)), rec.arr(spl.coefs_for(rng, "LogXLogYBSpline", n2, 1.0))
        m2 = {f: mass_samples(rec, lo2, hi2, s) for f, s in ((True, ps), (False, js))}
        m = rec.call(S.BSplineIndependentComponentMasses, n1, n2, m1[True], m2[True], m1[False], m2[False], mmin1=mmin, mmax1=mmax, mmin2=lo2, mmax2=hi2, kwargs1=kw1, kwargs2=kw2)
        beta = float(rec.ft(rng.choice([0.0, rng.uniform(-3, 5), rng.uniform(-6, 12), -1.0])))
        for f in (True, False):
            q = m2[f].astype(float) / m1[f].astype(float)
            fs = [f1(rec, "LogXLogYBSpline", n1, mmin, mmax, m1[f], c1, r1), f1(rec, "LogXLogYBSpline", n2, lo2, hi2, m2[f], c2, r2), (q**beta, 40 * rec.eps * (1 + abs(beta) * 5), 0.0)]
            judge(rec, rec.call(m, c1, c2, beta=beta, pe_samples=f), fs, f"independent component masses, {fl[f]}")
    elif which == 2:  # spline primary, spline ratio
        kwm, rm = ks(rec)
        kwq, rq = ks(rec, ["LogYBSpline", "BSpline"])
        m1min, m2min = float(rng.choice([3.0, 5.0, np.round(rng.uniform(2, 9), 3)])), float(rng.choice([2.0, 3.0, np.round(rng.uniform(1, 6), 3)]))
        m1 = {f: mass_samples(rec, m1min, mmax, s) for f, s in ((True, ps), (False, js))}
        qlo = m2min / mmax
        q = {f: spl.sample_set(rec, qlo, 1.0, s, False, frac(rec, 0.2)) for f, s in ((True, ps), (False, js))}
        cm, cq = rec.arr(spl.coefs_for(rng, "LogXLogYBSpline", n1, 1.0)), rec.arr(spl.coefs_for(rng, rq.get("fam", "LogYBSpline"), n2))
        args = dict(m1min=m1min, m2min=m2min, mmax=mmax)
        if (m1min, m2min) == (3.0, 3.0) and rng.random() < 0.5:
            args = dict(mmax=mmax)
        m = rec.call(S.BSplinePrimaryBSplineRatio, n1, n2, m1[True], m1[False], q[True], q[False], kwargs_m=kwm, kwargs_q=kwq, **args)
        for f in (True, False):
            fs = [f1(rec, "LogXLogYBSpline", n1, m1min, mmax, m1[f], cm, rm), f1(rec, "LogYBSpline", n2, qlo, 1.0, q[f], cq, rq)]
            judge(rec, rec.call(m, cm, cq, pe_samples=f), fs, f"spline primary and ratio, {fl[f]}")
    elif which == 3:  # spline primary, power-law ratio
        kw, ref = ks(rec)
        c = rec.arr(spl.coefs_for(rng, "LogXLogYBSpline", n1, 1.0))
        m = rec.call(S.BSplinePrimaryPowerlawRatio, n1, m1[True], m1[False], **rng_kw, **kw)
        beta = float(rec.ft(rng.choice([-1.0, 0.0, rng.uniform(0.2, 5), rng.uniform(-5, -1.1), near_minus_one(rec), rng.uniform(-0.9, 12)])))
        built = mmin
        if rng.random() < 0.4:  # the minimum of the ratio is the caller's, not the one the primary was built with
            mmin = float(np.round(mmin * rng.uniform(0.4, 1.6), 4))
        rec.note(call_mmin=mmin)
        for f in (True, False):
            x = np.maximum(m1[f], rec.ft(mmin * 0.5))
            qv = rng.uniform(np.minimum(0.7 * mmin / x.astype(float), 1.0), 1.05)
            qv = rec.arr(np.where(np.abs(qv * x / mmin - 1) < 1e-3, 1.0, qv))
            ok = x > mmin * 1.02
            p, rt, at = f1(rec, "LogXLogYBSpline", n1, built, mmax, m1[f], c, ref)
            got = np.asarray(rec.call(m, m1[f], qv, beta, mmin, c, pe_samples=f))
            want = p * p_q(qv, x, beta, mmin)
            rec.close(got[ok], want[ok], f"spline primary and power-law ratio, {fl[f]}", rt + pq_tol(rec, x, qv, beta, mmin)[ok] if beta != -1 else rt + 2000 * rec.eps, at * 100 + 1e-30)
            rec.true(got[(m1[f] < built) | (m1[f] > mmax)] == 0, "spline primary: support outside the mass range")
    else:  # parametric primary, spline ratio
        kw, ref = ks(rec, ["LogYBSpline", "BSpline"])
        q = {f: spl.sample_set(rec, 0.0, 1.0, s, False, frac(rec, 0.2)) for f, s in ((True, ps), (False, js))}
        cq = rec.arr(spl.coefs_for(rng, ref.get("fam", "LogYBSpline"), n2))
        m = rec.call(S.PLPeakPrimaryBSplineRatio, n2, q[True], q[False], **kw)
        al, mu, sg, lam = (float(rec.ft(v)) for v in (rng.choice([-1.0, rng.uniform(-4, -1.3), rng.uniform(-0.8, 2), rng.uniform(-8, -1.1)]), rng.uniform(20, 40), rng.uniform(2, 8), rng.choice([0, 1, rng.random()])))
        for f in (True, False):
            x = m1[f].astype(float)
            pm = (1 - lam) * O.powerlaw(m1[f], al, mmin, mmax) + lam * O.truncnorm(m1[f], mu, sg, mmin, mmax)
            z = np.abs(x - mu) / sg
            fs = [f1(rec, "LogYBSpline", n2, 0.0, 1.0, q[f], cq, ref), (pm, 2000 * rec.eps + 60 * rec.eps * z * (z + x / sg), rec.tol(1e-33, 1e-200))]
            judge(rec, rec.call(m, m1[f], al, mmin, mmax, mu, sg, lam, cq, pe_samples=f), fs, f"power law plus peak with spline ratio, {fl[f]}")


def effective(rec):
    rng = rec.rng
    ps, js = shapes(rec)
    e = {f: spl.sample_set(rec, -1.0, 1.0, s, False, frac(rec, 0.1)) for f, s in ((True, ps), (False, js))}
    p = {f: spl.sample_set(rec, 0.0, 1.0, s, False, frac(rec, 0.1)) for f, s in ((True, ps), (False, js))}
    n1, n2 = int(6 + rng.integers(0, 12)), int(6 + rng.integers(0, 12))
    ke, re_ = ks(rec, ["LogYBSpline", "BSpline"])
    kp, rp = ks(rec, ["LogYBSpline", "BSpline"])
    both = {}
    if not ke and not kp and rng.random() < 0.5:
        both, re_, rp = dict(basis=I.LogYBSpline, normalize=True), dict(fam="LogYBSpline", norm=True), dict(fam="LogYBSpline", norm=True)
    c1, c2 = rec.arr(spl.coefs_for(rng, re_.get("fam", "BSpline"), n1)), rec.arr(spl.coefs_for(rng, rp.get("fam", "BSpline"), n2))
    rec.note(n1=n1, n2=n2, ke=str(re_), kp=str(rp), shapes=[ps, js], c1=c1)
    m = rec.call(S.BSplineEffectiveSpinDims, n1, n2, e[True], p[True], e[False], p[False], kwargs_e=ke, kwargs_p=kp, **both)
    for f in (True, False):
        judge(rec, rec.call(m, c1, c2, pe_samples=f), [f1(rec, "BSpline", n1, -1.0, 1.0, e[f], c1, re_), f1(rec, "BSpline", n2, 0.0, 1.0, p[f], c2, rp)], f"effective spin dimensions, {'samples' if f else 'injections'}")


def helpers(rec):
    import jax.numpy as jnp

    rng = rec.rng
    ps, js = shapes(rec)
    mmin, mmax = mass_range(rec)
    nm, nq, na, nt, na2, nt2 = [int(6 + rng.integers(0, 10)) for _ in range(6)]
    mk = lambda s: {k: jnp.asarray(v) for k, v in dict(mass_1=mass_samples(rec, mmin, mmax, s), mass_ratio=spl.sample_set(rec, mmin / mmax, 1.0, s, False, frac(rec, 0.2)), a_1=spl.sample_set(rec, 0.0, 1.0, s, False, frac(rec, 0.1)),
         a_2=spl.sample_set(rec, 0.0, 1.0, s, False, frac(rec, 0.1)), cos_tilt_1=spl.sample_set(rec, -1.0, 1.0, s, False, frac(rec, 0.1)), cos_tilt_2=spl.sample_set(rec, -1.0, 1.0, s, False, frac(rec, 0.1))).items()}  # noqa: E731
    pe, inj = mk(ps), mk(js)
    D = {True: pe, False: inj}
    rec.note(mmin=mmin, mmax=mmax, ns=[nm, nq, na, nt, na2, nt2], shapes=[ps, js])
    m = rec.call(U.setup_bspline_mass_models, pe, inj, nm, nq, mmin, mmax)
    cm, cq = rec.arr(spl.coefs_for(rng, "LogXLogYBSpline", nm, 1.0)), rec.arr(spl.coefs_for(rng, "LogYBSpline", nq))
    for f in (True, False):
        judge(rec, rec.call(m, cm, cq, pe_samples=f), [f1(rec, "LogXLogYBSpline", nm, mmin, mmax, D[f]["mass_1"], cm, {}), f1(rec, "LogYBSpline", nq, mmin / mmax, 1.0, D[f]["mass_ratio"], cq, {})], f"mass set-up helper, {'samples' if f else 'injections'}")
    iid = bool(rng.random() < 0.5)
    if iid:
        mag, tilt = rec.call(U.setup_bspline_spin_models, pe, inj, na, nt, IID=True)
        na2, nt2 = na, nt
    else:
        mag, tilt = rec.call(U.setup_bspline_spin_models, pe, inj, na, nt, IID=False, a2_nsplines=na2, ct2_nsplines=nt2)
    ca, ct = [rec.arr(spl.coefs_for(rng, "LogYBSpline", n)) for n in (na, na2)], [rec.arr(spl.coefs_for(rng, "LogYBSpline", n)) for n in (nt, nt2)]
    if iid:
        ca[1], ct[1] = ca[0], ct[0]
    for f in (True, False):
        w = "samples" if f else "injections"
        judge(rec, rec.call(mag, *(ca[:1] if iid else ca), pe_samples=f), [f1(rec, "LogYBSpline", n, 0.0, 1.0, D[f][k], c, {}) for n, k, c in ((na, "a_1", ca[0]), (na2, "a_2", ca[1]))], f"spin magnitude set-up helper, {w}")
        judge(rec, rec.call(tilt, *(ct[:1] if iid else ct), pe_samples=f), [f1(rec, "LogYBSpline", n, -1.0, 1.0, D[f][k], c, {}) for n, k, c in ((nt, "cos_tilt_1", ct[0]), (nt2, "cos_tilt_2", ct[1]))], f"spin tilt set-up helper, {w}")


KINDS = {"magnitudes": (lambda r: spin(r, False), 14, 240), "tilts": (lambda r: spin(r, True), 14, 240), "masses": (masses, 44, 800), "effective": (effective, 10, 160), "helpers": (helpers, 10, 140)}
