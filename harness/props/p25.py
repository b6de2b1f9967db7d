import jax.numpy as jnp
import numpy as np
from scipy import stats
from math import comb

from gwinferno.models.bsplines.smoothing import apply_difference_prior
from gwinferno.pipeline import utils as U

from . import lik

RULE = ("random coefficient vectors, strengths, difference orders, counts, widths and labels through every coefficient-prior helper; "
        "non-trivial = each traced site's density compared with the declared normal, each factor with the penalty of that very vector, the total log density with the sum of both")
ASSUMPTIONS = ["difference order smaller than the number of coefficients", "polynomial null space tested with exactly representable integer coefficients"]


def penalty(c, iv, deg):
    c = np.asarray(c, float)
    w = np.array([(-1) ** (deg - j) * comb(deg, j) for j in range(deg + 1)], float)
    d = np.array([np.dot(w, c[i:i + deg + 1]) for i in range(len(c) - deg)])
    return -0.5 * float(iv) * float(np.sum(d * d)), float(np.sum(np.abs(c))) ** 2 * 4**deg


def direct(rec):
    rng = rec.rng
    rec.purity = True
    n, deg = int(rng.choice([5, 8, 20, int(rng.integers(5, 12)), int(rng.integers(12, 300))])), int(rng.integers(1, 5))
    c = rec.arr(rng.normal(0, float(rng.choice([0.1, 1, 15])), n))
    iv = float(rec.ft(10 ** rng.uniform(-3, 3)))
    rec.note(n=n, deg=deg, c=c, iv=iv)
    cin = jnp.asarray(c) if rng.random() < 0.7 else c
    iin = jnp.asarray(rec.ft(iv)) if rng.random() < 0.5 else iv
    got = np.asarray(rec.call(apply_difference_prior, cin, iin, degree=deg))
    want, scale = penalty(c, iv, deg)
    rec.close(got, want, "difference penalty", 30 * rec.eps, 30 * rec.eps * iv * scale * 0.02)
    rec.true(got <= 0, "never positive", value=got)
    if deg == 1:
        rec.close(np.asarray(rec.call(apply_difference_prior, cin, iin)), got, "first differences by default", 2 * rec.eps, 1e-30)
    rec.close(np.asarray(rec.call(apply_difference_prior, cin, 2 * iin, degree=deg)), 2 * got, "linear in the inverse variance", 8 * rec.eps)
    # exact null space: integer polynomials of lower degree
    x = np.arange(n)
    p = np.zeros(n)
    for j in range(deg):
        p = p + int(rng.integers(-3, 4)) * x**j
    rec.true(np.asarray(rec.call(apply_difference_prior, jnp.asarray(rec.arr(p)), iin, degree=deg)) == 0, "zero for polynomials below the order", p=p)
    p = p + int(rng.integers(1, 4)) * x**deg
    rec.true(np.asarray(rec.call(apply_difference_prior, jnp.asarray(rec.arr(p)), iin, degree=deg)) < 0, "negative for polynomials of the order", p=p)


def sites(rec, tr, expect, what):
    """expect: list of (site, n, sigma, factor, tau, degree, lead) in sampling order"""
    sm = {k: s for k, s in tr.items() if s["type"] == "sample" and not s["is_observed"]}
    fa = {k: s for k, s in tr.items() if s["type"] == "sample" and s["is_observed"]}
    rec.true(set(sm) == {e[0] for e in expect}, f"{what}: sampled names", got=sorted(sm), want=[e[0] for e in expect])
    rec.true(set(fa) == {e[3] for e in expect}, f"{what}: one smoothing penalty per vector", got=sorted(fa), want=[e[3] for e in expect])
    for name, n, sig, f, tau, deg, lead in expect:
        if name not in sm or f not in fa:
            continue
        v = np.asarray(sm[name]["value"])
        rec.true(v.shape == (n - lead,), f"{what}: number of coefficients", site=name, shape=v.shape, want=n - lead)
        lp = np.sum(np.asarray(sm[name]["fn"].log_prob(sm[name]["value"])))
        rec.close(lp, stats.norm(0, sig).logpdf(v.astype(float)).sum(), f"{what}: independent zero-mean normals", 40 * rec.eps, 40 * rec.eps * n, site=name)
        # density elsewhere
        w = rec.arr(rec.rng.normal(0.3, 2, v.shape))
        lp = np.sum(np.asarray(sm[name]["fn"].log_prob(jnp.asarray(w))))
        rec.close(lp, stats.norm(0, sig).logpdf(w.astype(float)).sum(), f"{what}: independent zero-mean normals", 40 * rec.eps, 40 * rec.eps * n, site=name)
        c = np.concatenate([np.zeros(lead), v.astype(float)])
        want, scale = penalty(c, tau, deg)
        rec.close(np.sum(lik.factor_value(fa[f])), want, f"{what}: penalty of that vector with its own strength and order", 40 * rec.eps, rec.eps * abs(tau) * scale, site=f, tau=tau, deg=deg)


def label(rng):
    nm = [None, "pop1", "x_2", ""][int(rng.integers(4))]
    return nm, "" if nm is None else "_" + nm


def mass(rec):
    rng = rec.rng
    nm, suf = label(rng)
    m, q = [(8, 6), (12, None), (None, 9), (5, 5), (int(rng.integers(4, 120)), int(rng.integers(4, 90)))][int(rng.integers(5))]
    o = dict(m_tau=float(rng.uniform(0.1, 30)), q_tau=float(rng.uniform(0.1, 30)), m_cs_sig=float(rng.uniform(0.5, 20)), q_cs_sig=float(rng.uniform(0.5, 20)), m_deg=int(rng.integers(1, 4)), q_deg=int(rng.integers(1, 4)))
    kw = {k: v for k, v in o.items() if rng.random() < 0.6}
    full = dict(dict(m_tau=1, q_tau=1, m_cs_sig=15, q_cs_sig=5, m_deg=1, q_deg=1), **kw)
    if m is not None:
        kw["m_nsplines"] = m
    if q is not None:
        kw["q_nsplines"] = q
    if nm is not None:
        kw["name"] = nm
    rec.note(kw=kw)
    out = {}

    def model():
        out["r"] = rec.call(U.bspline_mass_prior, **kw)

    tr = lik.run(model, seed=int(rng.integers(1 << 20)))
    exp = []
    if m is not None:
        exp.append(("mass_cs" + suf, m, full["m_cs_sig"], "mass_smoothing_prior" + suf, full["m_tau"], full["m_deg"], 0))
    if q is not None:
        exp.append(("q_cs" + suf, q, full["q_cs_sig"], "q_smoothing_prior" + suf, full["q_tau"], full["q_deg"], 0))
    sites(rec, tr, exp, "mass prior")
    r = out["r"] if isinstance(out["r"], tuple) else (out["r"],)
    rec.true(len(r) == len(exp), "mass prior: returns the vectors asked for")
    for a, e in zip(r, exp):
        rec.true(np.array_equal(np.asarray(a), lik.val(tr, e[0])), "mass prior: coefficients in the documented order", site=e[0])
    rec.raises(AssertionError, U.bspline_mass_prior, what="no mass spline at all")


def spin(rec):
    rng = rec.rng
    nm, suf = label(rng)
    iid = bool(rng.random() < 0.5)
    na, nt = [(8, 6), (10, 12), (7, 7), (int(rng.integers(4, 120)), int(rng.integers(4, 90)))][int(rng.integers(4))]
    ta, tt = float(rng.uniform(0.1, 30)), float(rng.uniform(0.1, 30))
    o = dict(a_cs_sig=float(rng.uniform(0.5, 20)), ct_cs_sig=float(rng.uniform(0.5, 20)), a_deg=int(rng.integers(1, 4)), ct_deg=int(rng.integers(1, 4)))
    kw = {k: v for k, v in o.items() if rng.random() < 0.6}
    full = dict(dict(a_cs_sig=5, ct_cs_sig=5, a_deg=2, ct_deg=2), **kw)
    kw.update(a_nsplines=na, ct_nsplines=nt, a_tau=ta, ct_tau=tt)
    if iid or rng.random() < 0.5:
        kw["IID"] = iid
    if nm is not None:
        kw["name"] = nm
    rec.note(kw=kw)
    out = {}

    def model():
        out["r"] = rec.call(U.bspline_spin_prior, **kw)

    tr = lik.run(model, seed=int(rng.integers(1 << 20)))
    comps = [""] if iid else ["1", "2"]
    exp, order = [], []
    for c in comps:
        exp.append((f"a{c}_cs" + suf, na, full["a_cs_sig"], f"a{c}_smoothing_prior" + suf, ta, full["a_deg"], 0))
        exp.append((f"tilt{c}_cs" + suf, nt, full["ct_cs_sig"], f"ct{c}_smoothing_prior" + suf, tt, full["ct_deg"], 0))
    sites(rec, tr, exp, "spin prior")
    rec.true(len(out["r"]) == len(exp), "spin prior: returns every vector")
    for a, e in zip(out["r"], exp):
        rec.true(np.array_equal(np.asarray(a), lik.val(tr, e[0])), "spin prior: coefficients in the documented order", site=e[0])
    if not iid:
        rec.true(not np.array_equal(lik.val(tr, exp[0][0]), lik.val(tr, exp[2][0])) and not np.array_equal(lik.val(tr, exp[1][0]), lik.val(tr, exp[3][0])), "spin prior: components drawn independently")


def redshift(rec):
    rng = rec.rng
    nm, suf = label(rng)
    n = int(rng.choice([6, 10, 16, int(rng.integers(5, 120))]))
    tau = float(rng.uniform(0.1, 30))
    o = dict(z_cs_sig=float(rng.uniform(0.2, 10)), z_deg=int(rng.integers(1, 4)))
    kw = {k: v for k, v in o.items() if rng.random() < 0.6}
    full = dict(dict(z_cs_sig=1, z_deg=2), **kw)
    kw.update(z_nsplines=n, z_tau=tau)
    if nm is not None:
        kw["name"] = nm
    rec.note(kw=kw)
    out = {}

    def model():
        out["r"] = rec.call(U.bspline_redshift_prior, **kw)

    tr = lik.run(model, seed=int(rng.integers(1 << 20)))
    sites(rec, tr, [("z_cs" + suf, n, full["z_cs_sig"], "z_smoothing_prior" + suf, tau, full["z_deg"], 1)], "redshift prior")
    r = np.asarray(out["r"])
    rec.true(r.shape == (n,) and r[0] == 0 and np.array_equal(r[1:], lik.val(tr, "z_cs" + suf)), "redshift prior: leading zero then the sampled coefficients", shape=r.shape)


def both(rec):
    """two labelled populations in one model do not interfere"""
    rng = rec.rng
    ns = [int(v) for v in rng.choice([5, 6, 9], 2)]
    taus = rng.uniform(0.2, 20, 4)
    rec.note(ns=ns, taus=taus)

    def model():
        rec.call(U.bspline_mass_prior, ns[0], ns[1], taus[0], taus[1], "one")
        rec.call(U.bspline_mass_prior, ns[1], ns[0], taus[2], taus[3], "two", 3.0, 4.0, 2, 3)

    tr = lik.run(model, seed=int(rng.integers(1 << 20)))
    sites(rec, tr, [("mass_cs_one", ns[0], 15, "mass_smoothing_prior_one", taus[0], 1, 0), ("q_cs_one", ns[1], 5, "q_smoothing_prior_one", taus[1], 1, 0),
                    ("mass_cs_two", ns[1], 3, "mass_smoothing_prior_two", taus[2], 2, 0), ("q_cs_two", ns[0], 4, "q_smoothing_prior_two", taus[3], 3, 0)], "two populations")


KINDS = {"direct": (direct, 80, 1500), "mass": (mass, 30, 400), "spin": (spin, 30, 400), "redshift": (redshift, 30, 400), "both": (both, 10, 80)}
