import numpy as np

from gwinferno.models.parametric import parametric as M

from .. import oracles as O
from .p04 import near_minus_one

RULE = ("random hyper-parameters (incl. mixture fractions exactly 0 and 1, index -1, smoothing on/off) x samples (1-D injections and 2-D events x draws; inside, outside, beyond "
        "bounds); non-trivial = model values compared entry by entry with the documented product/mixture of float64 closed forms, plus integrals, symmetry and limits")
ASSUMPTIONS = ["mass-ratio densities are judged for primary masses at least 2% above the minimum mass (below, the exact density diverges)",
               "truncated Gaussians keep at least 1e-3 of their mass inside the bounds", "power-law indices not within 0.01 of -1 except -1 itself",
               "the fall-off scale of the soft power law applies to its lower edge (as coded); the upper edge uses the default scale"]


def idx(rec, lo, hi):
    rng = rec.rng
    a = float(rng.choice([-1.0, rng.uniform(lo, hi), rng.uniform(lo, hi), near_minus_one(rec), rng.uniform(2.2 * lo, 2 * hi)]))
    if a != -1 and abs(a + 1) < rec.tol(0.01, 9e-7):
        a = -1.0
    return float(rec.ft(a))


def masses(rec, mmin, mmax, shape):
    rng = rec.rng
    m1 = np.exp(rng.uniform(np.log(mmin * 1.03), np.log(mmax), shape))
    q = rng.uniform(mmin / m1, 1.0)
    r = rng.random(shape)
    m1 = np.where(r < 0.08, mmax * rng.uniform(1.001, 3, shape), m1)
    m1 = np.where((r > 0.08) & (r < 0.14), mmin * rng.uniform(0.3, 0.99, shape), m1)
    q = np.where((r > 0.14) & (r < 0.2), mmin / m1 * rng.uniform(0.3, 0.99, shape), q)
    q = np.where((r > 0.2) & (r < 0.26), rng.uniform(1.0001, 1.5, shape), q)
    q = np.where((r > 0.26) & (r < 0.3), 1.0, q)
    m1, q = rec.arr(m1), rec.arr(q)
    near = np.abs(q.astype(float) * m1.astype(float) / mmin - 1) < 1e-4
    q = np.where(near & (q < 1), np.minimum(q * 1.01, 1), q).astype(rec.ft)
    m1 = np.where(np.abs(m1 / mmax - 1) < 1e-6, m1 * rec.ft(0.99), m1).astype(rec.ft)
    return m1, q


SHAPES = [(40,), (3, 20), (2, 5, 6)]


def hyper(rec):
    rng = rec.rng
    mmin, mmax = float(rec.ft(rng.uniform(2, 7))), float(rec.ft(rng.uniform(40, 110)))
    if rng.random() < 0.3:
        mmin = float(rec.ft(rng.uniform(0.8, 10)))
        mmax = float(rec.ft(mmin * rng.uniform(1.5, 30)))
    return dict(alpha=idx(rec, -5, 2), beta=idx(rec, -3, 6), mmin=mmin, mmax=mmax)


def pq_tol(rec, m1, q, beta, mmin):
    m1 = m1.astype(float)
    L = np.abs(np.log(np.minimum(mmin / m1, 0.999999)))
    return 100 * rec.eps * (1 + 1 / (abs(beta + 1) * L) if beta != -1 else 1 + 1 / L) * (1 + abs(beta) * (1 + L)) + 50 * rec.eps / np.maximum(L, 1e-3)


def pm_tol(rec, alpha, mmin, mmax):
    L = np.log(mmax / mmin)
    return 100 * rec.eps * (1 + (1 / (abs(alpha + 1) * L) if alpha != -1 else 1)) * (1 + abs(alpha) * np.log(mmax))


def tn_tol(rec, x, mu, sig, lo, hi):
    x = np.asarray(x).astype(float)
    z = np.abs((x - mu) / sig)
    den = O.special.ndtr((hi - mu) / sig) - O.special.ndtr((lo - mu) / sig)
    return 40 * rec.eps * (1 + z * (z + (np.abs(x) + abs(mu)) / sig)) + 20 * rec.eps / den, den


def p_q(q, m1, beta, mmin):
    m1 = m1.astype(float)
    low = mmin / m1
    with np.errstate(all="ignore"):
        p = O.powerlaw(q, beta, np.minimum(low, 0.9999999), 1.0)
    return np.where((q.astype(float) < low) | (q > 1) | (low >= 1), 0.0, p)


def plain(rec):
    h = hyper(rec)
    m1, q = masses(rec, h["mmin"], h["mmax"], SHAPES[rec.rng.integers(3)])
    rec.note(**h, shape=m1.shape)
    want = p_q(q, m1, h["beta"], h["mmin"]) * O.powerlaw(m1, h["alpha"], h["mmin"], h["mmax"])
    got = rec.call(M.powerlaw_primary_ratio_pdf, m1, q, h["alpha"], h["beta"], h["mmin"], h["mmax"])
    rec.close(got, want, "power-law mass model", pq_tol(rec, m1, q, h["beta"], h["mmin"]) + pm_tol(rec, h["alpha"], h["mmin"], h["mmax"]), 1e-36)


def falloff(rec):
    h = hyper(rec)
    fo = float(rec.ft(10 ** rec.rng.uniform(-0.5, 1.7)))
    m1, q = masses(rec, h["mmin"], h["mmax"], SHAPES[rec.rng.integers(3)])
    rec.note(**h, fall_off=fo, shape=m1.shape)
    x = m1.astype(float)
    soft = x ** h["alpha"] * O.logistic(x, h["mmin"], -1, fo) * O.logistic(x, h["mmax"], 1, 4.0)
    want = p_q(q, m1, h["beta"], h["mmin"]) * soft
    got = rec.call(M.powerlaw_primary_ratio_falloff_pdf, m1, q, h["alpha"], h["beta"], h["mmin"], h["mmax"], fo)
    rec.close(got, want, "power-law mass model with smooth fall-off", pq_tol(rec, m1, q, h["beta"], h["mmin"]) + 40 * rec.eps * (1 + abs(h["alpha"]) * 5 + (fo + 4) * (x + 100)), rec.tol(1e-29, 1e-200))


def peak_pars(rec, h):
    rng = rec.rng
    mpp, sig = float(rec.ft(rng.uniform(20, 50))), float(rec.ft(rng.uniform(1, 10)))
    if rng.random() < 0.3:
        mpp = float(rec.ft(rng.uniform(h["mmin"], h["mmax"])))
        sig = float(rec.ft((h["mmax"] - h["mmin"]) * 10 ** rng.uniform(-2, 0)))
    if rng.random() < 0.2:
        mpp = float(rec.ft(h["mmax"] * 1.05))
    lam = float(rec.ft(rng.choice([0.0, 1.0, rng.random(), rng.random() * 0.1])))
    delta = [None, float(rec.ft(rng.uniform(0.3, 9)))][int(rng.random() < 0.5)]
    if delta is not None and rng.random() < 0.3:  # a peak inside the smoothing region
        mpp = float(rec.ft(h["mmin"] + rng.uniform(-0.5, 1.5) * delta))
        sig = float(rec.ft(delta * 10 ** rng.uniform(-0.5, 0.5)))
    return mpp, sig, lam, delta


def plpeak(rec):
    rng = rec.rng
    h = hyper(rec)
    mpp, sig, lam, delta = peak_pars(rec, h)
    shape = SHAPES[rng.integers(3)]
    m1, q = masses(rec, h["mmin"], h["mmax"], shape)
    rec.note(**h, mpp=mpp, sig=sig, lam=lam, delta=delta, shape=shape)
    x = m1.astype(float)
    tt, den = tn_tol(rec, x, mpp, sig, h["mmin"], h["mmax"])
    if den < 1e-3:
        rec.skip("peak outside the mass range")
    pl = O.powerlaw(m1, h["alpha"], h["mmin"], h["mmax"])
    pk = O.truncnorm(m1, mpp, sig, h["mmin"], h["mmax"])
    wt = 0.0
    w1 = w2 = 1.0
    if delta is not None:
        w1, w2 = O.window(delta, x, h["mmin"]), O.window(delta, x * q.astype(float), h["mmin"])
        pl = pl * w1
        for m in (x, x * q.astype(float)):
            d = np.minimum(np.abs(m - h["mmin"]), np.abs(m - h["mmin"] - delta))
            with np.errstate(all="ignore"):
                wt = wt + np.minimum(1e3, np.nan_to_num(delta * rec.eps * 8 * (m + h["mmin"]) / np.maximum(d, 1e-30) ** 2, posinf=1e3))
    want = (1 - lam) * pl + lam * pk
    got = rec.call(M.plpeak_primary_pdf, m1, h["alpha"], h["mmin"], h["mmax"], mpp, sig, lam, **({} if delta is None else {"delta": delta}))
    tol = pm_tol(rec, h["alpha"], h["mmin"], h["mmax"]) + tt + wt
    big = np.where(np.asarray(tol) > 0.5, 1e6, tol)
    rec.close(got, want, "power law plus peak", big, rec.tol(1e-33, 1e-200) + 1e-9 * (delta is not None))
    want2 = want * p_q(q, m1, h["beta"], h["mmin"]) * w2
    got2 = rec.call(M.plpeak_primary_ratio_pdf, m1, q, h["alpha"], h["beta"], h["mmin"], h["mmax"], mpp, sig, lam, **({} if delta is None else {"delta": delta}))
    tol2 = tol + pq_tol(rec, m1, q, h["beta"], h["mmin"])
    rec.close(got2, want2, "power law plus peak with mass ratio", np.where(tol2 > 0.5, 1e6, tol2), rec.tol(1e-33, 1e-200) + 1e-8 * (delta is not None))
    if delta is None:
        e = rec.arr([h["mmin"], h["mmax"]])
        we = (1 - lam) * O.powerlaw(e, h["alpha"], h["mmin"], h["mmax"]) + lam * O.truncnorm(e, mpp, sig, h["mmin"], h["mmax"])
        te, _ = tn_tol(rec, e, mpp, sig, h["mmin"], h["mmax"])
        rec.close(rec.call(M.plpeak_primary_pdf, e, h["alpha"], h["mmin"], h["mmax"], mpp, sig, lam), we, "power law plus peak exactly on the mass bounds", pm_tol(rec, h["alpha"], h["mmin"], h["mmax"]) + te, rec.tol(1e-33, 1e-200))
    outside = (x < h["mmin"]) | (x > h["mmax"])
    rec.true(np.asarray(got)[outside] == 0, "support outside the mass bounds")
    bad = outside | (q > 1) | (x * q.astype(float) < h["mmin"] * (1 - 1e-5))
    rec.true(np.asarray(got2)[bad] == 0, "support outside the mass and ratio bounds")
    if lam in (0.0, 1.0) and delta is None:
        pure = rec.call(M.powerlaw_primary_ratio_pdf, m1, q, h["alpha"], h["beta"], h["mmin"], h["mmax"]) if lam == 0 else None
        if pure is not None:
            rec.close(got2, pure, "fraction 0 does not reduce to the power law", 20 * rec.eps, 1e-36)


def mass_norm(rec):
    rng = rec.rng
    h = hyper(rec)
    mpp, sig, lam, _ = peak_pars(rec, h)
    _, den = tn_tol(rec, 1.0, mpp, sig, h["mmin"], h["mmax"])
    if den < 1e-3:
        rec.skip("peak outside the mass range")
    rec.note(**h, mpp=mpp, sig=sig, lam=lam)
    m = np.geomspace(h["mmin"] * 1.0000001, h["mmax"] * 0.9999999, 2001)
    mr = rec.arr(m)
    v = np.asarray(rec.call(M.plpeak_primary_pdf, mr, h["alpha"], h["mmin"], h["mmax"], mpp, sig, lam), float)
    ref = (1 - lam) * O.powerlaw(mr, h["alpha"], h["mmin"], h["mmax"]) + lam * O.truncnorm(mr, mpp, sig, h["mmin"], h["mmax"])
    quad = abs(O.trapz(ref, mr) - 1)
    rec.close(O.trapz(v, mr), 1.0, "primary mass density: integral", 0, 2 * quad + 2e-3 * (not rec.x64) + 1e-6)
    # integral over q at fixed m1
    m0 = rec.ft(rng.uniform(h["mmin"] * 1.5, h["mmax"]))
    q = rec.arr(np.linspace(h["mmin"] / float(m0), 1, 1501))
    v = np.asarray(rec.call(M.powerlaw_primary_ratio_pdf, np.full_like(q, m0), q, h["alpha"], h["beta"], h["mmin"], h["mmax"]), float)
    p1 = O.powerlaw(m0, h["alpha"], h["mmin"], h["mmax"])
    L = np.log(float(m0) / h["mmin"])
    ref = O.powerlaw(np.clip(q.astype(float), h["mmin"] / float(m0), 1), h["beta"], h["mmin"] / float(m0), 1.0)
    quad = abs(O.trapz(ref, q) - 1)
    edge = 0.5 * ref[:1].max() * (q[1] - q[0])
    rec.close(O.trapz(v, q) / p1, 1.0, "mass-ratio density: integral", 0, 2 * quad + edge + 500 * rec.eps / L + pm_tol(rec, h["alpha"], h["mmin"], h["mmax"]) + 1e-6)


def spins(rec):
    rng = rec.rng
    shape = SHAPES[rng.integers(3)]
    amax = float(rec.ft(rng.choice([1.0, 1.0, 0.8, 0.99, rng.uniform(0.3, 1)])))
    pars = [float(rec.ft(rng.choice([1.0, rng.uniform(1, 8), rng.uniform(1, 40)]))) for _ in range(4)]
    a = [rec.arr(np.where(rng.random(shape) < 0.15, rng.choice([-0.2, 1.3, amax * 1.01 + 0.001], shape), amax * rng.uniform(1e-3, 0.999, shape))) for _ in range(2)]
    if pars[0] >= 1 and pars[1] >= 1:
        a[0].flat[0], a[1].flat[1] = 0.0, rec.ft(amax)
    rec.note(pars=pars, amax=amax, shape=shape)
    tol = 60 * rec.eps * sum(pars) * 12 + 40 * rec.eps * max(pars) * 1e3 + 6e-6
    b = O.beta_pdf
    kw = {} if amax == 1.0 and rng.random() < 0.5 else {"amax": amax}
    rec.close(rec.call(M.beta_spin_magnitude, a[0], pars[0], pars[1], **kw), b(a[0], pars[0], pars[1], amax), "Beta spin magnitude", tol, 1e-30)
    got = rec.call(M.iid_spin_magnitude, a[0], a[1], pars[0], pars[1], **({} if not kw else {"amax": amax}))
    rec.close(got, b(a[0], pars[0], pars[1], amax) * b(a[1], pars[0], pars[1], amax), "IID spin magnitudes", 2 * tol, 1e-30)
    rec.close(rec.call(M.iid_spin_magnitude, a[1], a[0], pars[0], pars[1], amax=amax), got, "IID spin magnitudes: exchange of components", 20 * rec.eps, 1e-30)
    amax2 = float(rec.ft(rng.choice([1.0, 0.9, rng.uniform(0.3, 1)])))
    rec.close(rec.call(M.independent_spin_magnitude_beta_dist, a[0], a[1], *pars, amax1=amax, amax2=amax2),
              b(a[0], pars[0], pars[1], amax) * b(a[1], pars[2], pars[3], amax2), "independent spin magnitudes", 2 * tol + (40 * rec.eps * max(pars) * 1e5 if amax2 != amax else 0), 1e-30)
    xi = [float(rec.ft(rng.choice([0.0, 1.0, rng.random()]))) for _ in range(2)]
    sg = [float(rec.ft(10 ** (rng.uniform(-0.7, 0.7) if rng.random() < 0.7 else rng.uniform(-2, 1)))) for _ in range(2)]
    ct = [rec.arr(np.where(rng.random(shape) < 0.1, rng.choice([-1.2, 1.1, 2.0], shape), rng.uniform(-1, 1, shape))) for _ in range(2)]
    ct[0].flat[0], ct[1].flat[1], ct[0].flat[2] = 1.0, -1.0, -1.0
    rec.note(xi=xi, sg=sg)
    for c, s in zip(ct, sg):  # some tilts close to alignment on the scale of the peak
        near = rng.random(shape) < 0.4
        c[near] = np.maximum(-1.0, 1 - s * np.abs(rng.normal(size=int(near.sum())))).astype(rec.ft)

    def ttol(c, s):
        z = np.abs(c.astype(float) - 1) / s
        return 60 * rec.eps * (1 + z * (z + 2 / s))

    tt = ttol(ct[0], sg[0])
    tt2 = ttol(ct[1], sg[0])

    def mix(c, x, s):
        return np.where(np.abs(c) > 1, 0, (1 - x) / 2) + x * O.truncnorm(c, 1, s, -1, 1)

    tiny = rec.tol(1e-35, 1e-290)
    rec.close(rec.call(M.mixture_isoalign_spin_tilt, ct[0], xi[0], sg[0]), mix(ct[0], xi[0], sg[0]), "isotropic-plus-aligned tilt", tt, tiny)
    got = rec.call(M.iid_spin_tilt, ct[0], ct[1], xi[0], sg[0])
    rec.close(got, mix(ct[0], xi[0], sg[0]) * mix(ct[1], xi[0], sg[0]), "IID tilts", tt + tt2, tiny)
    rec.close(rec.call(M.iid_spin_tilt, ct[1], ct[0], xi[0], sg[0]), got, "IID tilts: exchange of components", 20 * rec.eps, tiny)
    rec.close(rec.call(M.independent_spin_tilt, ct[0], ct[1], xi[0], xi[1], sg[0], sg[1]), mix(ct[0], xi[0], sg[0]) * mix(ct[1], xi[1], sg[1]), "independent tilts", tt + ttol(ct[1], sg[1]), tiny)
    iso = np.where((np.abs(ct[0]) > 1) | (np.abs(ct[1]) > 1), 0, 0.25)
    want = (1 - xi[0]) * iso + xi[0] * O.truncnorm(ct[0], 1, sg[0], -1, 1) * O.truncnorm(ct[1], 1, sg[0], -1, 1)
    got = rec.call(M.default_spin_tilt, ct[0], ct[1], xi[0], sg[0])
    rec.close(got, want, "default tilt model", tt + tt2, tiny)
    rec.close(rec.call(M.default_spin_tilt, ct[1], ct[0], xi[0], sg[0]), got, "default tilt model: exchange of components", 20 * rec.eps, tiny)
    g = rec.arr(np.linspace(-1, 1, 3001))
    v = np.asarray(rec.call(M.mixture_isoalign_spin_tilt, g, xi[0], sg[0]), float)
    quad = abs(O.trapz(mix(g, xi[0], sg[0]), g) - 1)
    rec.close(O.trapz(v, g), 1.0, "tilt density: integral", 0, 2 * quad + 1e-4)


def arrays(rec):
    """hyper-parameters as arrays broadcast against samples (vectorised over draws)"""
    rng = rec.rng
    n = 12
    mmin, mmax = float(rec.ft(rng.uniform(2, 7))), float(rec.ft(rng.uniform(40, 110)))
    m1, q = masses(rec, mmin, mmax, (n,))
    al, be = rec.arr(rng.uniform(-4, -1.3, (4, 1))), rec.arr(rng.uniform(0.2, 4, (4, 1)))
    al[0] = -1
    lam = rec.arr(rng.random((4, 1)))
    mpp, sig = rec.arr(rng.uniform(20, 40, (4, 1))), rec.arr(rng.uniform(3, 8, (4, 1)))
    rec.note(mmin=mmin, mmax=mmax, al=al, be=be, lam=lam)
    got = rec.call(M.plpeak_primary_ratio_pdf, m1, q, al, be, mmin, mmax, mpp, sig, lam)
    want = ((1 - lam.astype(float)) * O.powerlaw(m1, al.astype(float), mmin, mmax) + lam.astype(float) * O.truncnorm(m1, mpp.astype(float), sig.astype(float), mmin, mmax))
    pq = np.stack([p_q(q, m1, float(b), mmin) for b in be[:, 0]])
    L = np.abs(np.log(np.minimum(mmin / m1.astype(float), 0.999)))
    rec.close(got, want * pq, "power law plus peak with array hyper-parameters", rec.eps * (3e4 + 1e3 / L), rec.tol(1e-33, 1e-200))


KINDS = {"plain": (plain, 120, 1400), "falloff": (falloff, 60, 700), "plpeak": (plpeak, 180, 2000), "mass_norm": (mass_norm, 80, 800), "spins": (spins, 140, 1500), "arrays": (arrays, 30, 300)}
