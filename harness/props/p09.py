import jax.numpy as jnp
import numpy as np

from gwinferno import interpolation as I
from gwinferno.models import spline_perturbation as P

from .. import oracles as O
from . import spl
from .p04 import near_minus_one
from .p05 import p_q, pq_tol

RULE = ("random perturbed power-law mass models (spline counts, orders 3-5, mass ranges, bases) x slopes x coefficients (zero, constant, random) x samples in and outside the cut-offs; "
        "non-trivial = densities and norms compared with float64 references integrated on much finer grids")
ASSUMPTIONS = ["judged to the accuracy of the documented 1000 (x500) point trapezoid rule, measured per case", "masses not within 1e-5 of a cut-off; ratios judged for primary masses at least 2% above the minimum mass"]
SH = [((3, 12), (30,)), ((2, 8), (12,)), ((1, 10), (40,)), ((4, 5), (20,)), ((1, 1), (1,)), ((6, 200), (1300,))]


def msamples(rec, mmin, mmax, shape):
    m = spl.sample_set(rec, mmin, mmax, shape, True, 0.15, edges=False)
    return np.where((m > mmin * 0.98) & (m < mmin * 1.03), rec.ft(mmin * 1.5), m).astype(rec.ft)


def ratios(rec, m1, mmin):
    rng = rec.rng
    q = rng.uniform(0.7 * mmin / np.maximum(m1.astype(float), mmin), 1.06)
    q = np.where(np.abs(q * m1 / mmin - 1) < 2e-3, 1.0, q)
    return rec.arr(np.where(np.abs(q - 1) < 1e-4, 1.0, q))


def coefs(rec, n):
    rng = rec.rng
    s = rng.choice(["zero", "const", "rand", "rand", "rand", "rand"])
    c = dict(zero=np.zeros(n), const=np.full(n, float(rng.normal(0, 2))), rand=rng.normal(0, float(rng.choice([0.3, 1.0, 2.0])), n))[str(s)]
    return str(s), rec.arr(c)


class Pert:
    def __init__(self, n, k, a, b):
        self.t = O.uniform_knots(n, k, a, b)
        self.k, self.a, self.b = k, a, b

    def __call__(self, u, c):
        return np.exp(np.einsum("i...,i->...", O.bspline_matrix(np.clip(u, self.a, self.b), self.t, self.k, self.a, self.b), np.asarray(c, float)))


def primary(rec):
    rng = rec.rng
    mmin, mmax = float(rng.choice([3.0, 2.0, 5.0])), float(rng.choice([100.0, 60.0]))
    if rng.random() < 0.5:
        mmin, mmax = float(np.round(rng.uniform(1.0, 9), 4)), float(np.round(rng.uniform(30, 300), 4))
    m2min = float(rng.choice([mmin, 2.0, np.round(rng.uniform(1, mmin), 4)]))
    k = int(rng.choice([2, 3, 4, 4, 4, 5, 6]))
    n = int(k + rng.integers(1, 12))
    ps, js = SH[rng.choice(6, p=[0.3, 0.3, 0.15, 0.15, 0.05, 0.05])]
    D = {True: msamples(rec, mmin, mmax, ps), False: msamples(rec, mmin, mmax, js)}
    style, c = coefs(rec, n)
    alpha = float(rec.ft(rng.choice([1.0, rng.uniform(1.2, 5), rng.uniform(-2, 0.8), -near_minus_one(rec)])))
    beta = float(rec.ft(rng.choice([-1.0, 0.0, rng.uniform(0.2, 5), rng.uniform(-3, -1.1), near_minus_one(rec)])))
    rec.note(mmin=mmin, mmax=mmax, m2min=m2min, k=k, n=n, style=style, alpha=alpha, beta=beta, coefs=c)
    kw = {} if k == 4 and rng.random() < 0.5 else {"k": k}
    m = rec.call(P.PowerlawBasisSplinePrimaryPowerlawRatio, n, *spl.maybe_jax(rec, D[True], D[False]), **rec.omit(dict(mmin=mmin, m2min=m2min, mmax=mmax), mmin=3.0, m2min=3.0, mmax=100.0), **kw)
    pert = Pert(n, k, np.log(mmin), np.log(mmax))
    # cut-offs passed at call time: the construction range, or tighter
    lo, hi = (mmin, mmax) if rng.random() < 0.6 else (float(rec.ft(mmin * 1.7)), float(rec.ft(mmax * 0.8)))
    f = lambda x: O.powerlaw(x, -alpha, lo, hi) * pert(np.log(x), c)  # noqa: E731
    ints = []
    g1 = np.linspace(mmin, mmax, 1000)
    ints = [O.trapz(f(g1), g1), O.trapz(f(np.geomspace(lo, hi, 20001)), np.geomspace(lo, hi, 20001))]
    disc = abs(ints[0] / ints[1] - 1) + (0 if (lo, hi) == (mmin, mmax) else 0.5 * (g1[1] - g1[0]) * (f(np.array([lo]))[0] + f(np.array([hi]))[0]) / ints[1])
    edge = 0.5 * (g1[1] - g1[0]) * (f(np.array([lo]))[0] + f(np.array([hi]))[0]) / ints[1]  # grid ends decided by rounding
    L = np.log(hi / lo)
    num = 100 * rec.eps * (1 + (1 / (abs(1 - alpha) * L) if alpha != 1 else 1)) * (1 + abs(alpha) * 5) + 3 * spl.spline_atol(rec, pert.t, k, False) * np.abs(c).sum()
    tol = 2 * disc + edge + 2 * num
    if tol > 0.3:
        rec.skip("too steep for the documented grid")
    rec.close(rec.call(m.norm_p_m1, alpha=alpha, mmin=lo, mmax=hi, cs=c), ints[1], "norm of the perturbed primary mass", tol)
    for flag, what in ((True, "samples"), (False, "injections")):
        x = D[flag]
        edge_pt = (np.abs(x / lo - 1) < 1e-5) | (np.abs(x / hi - 1) < 1e-5)
        xf = x.astype(float)
        want = np.where((xf < lo) | (xf > hi), 0, f(np.clip(xf, lo, hi)) / ints[1])
        got = np.asarray(rec.call(m.p_m1, jnp.asarray(x), alpha=alpha, mmin=lo, mmax=hi, cs=c))
        rec.close(got[~edge_pt], want[~edge_pt], f"perturbed primary mass on {what}", tol, 1e-35)
        if style in ("zero", "const"):
            rec.close(got[~edge_pt], O.powerlaw(x, -alpha, lo, hi)[~edge_pt], f"{style} coefficients do not reduce to the power law on {what}", tol, 1e-35)
        q = ratios(rec, x, m2min)
        pq = p_q(q, x, beta, m2min)
        qt = pq_tol(rec, x, q, beta, m2min)
        ok = (xf > m2min * 1.02) & ~edge_pt
        rec.close(np.asarray(rec.call(m.p_q, q, jnp.asarray(x), beta=beta))[ok], pq[ok], f"mass-ratio factor on {what}", qt[ok], 1e-35)
        full = np.asarray(rec.call(m, jnp.asarray(x), q, alpha=alpha, beta=beta, mmin=lo, mmax=hi, cs=c))
        rec.close(full[ok], (want * pq)[ok], f"perturbed mass model on {what}", tol + qt[ok], 1e-35)
        rec.true(full[((xf < lo * 0.9999) | (xf > hi * 1.0001) | (q > 1)) & (xf > m2min * 1.001)] == 0, f"perturbed mass model: support outside the cut-offs on {what}")


def both(rec):
    rng = rec.rng
    mmin, mmax = float(rng.choice([3.0, 2.0, 5.0])), float(rng.choice([100.0, 60.0]))
    if rng.random() < 0.5:
        mmin, mmax = float(np.round(rng.uniform(1.0, 9), 4)), float(np.round(rng.uniform(30, 300), 4))
    k = int(rng.choice([2, 3, 4, 4, 5]))
    n, nq = int(k + rng.integers(1, 8)), int(k + rng.integers(1, 6))
    ps, js = SH[rng.choice(6, p=[0.3, 0.3, 0.15, 0.15, 0.05, 0.05])]
    D = {True: msamples(rec, mmin, mmax, ps), False: msamples(rec, mmin, mmax, js)}
    # cut-offs passed at call time: the construction range, or tighter
    lo, hi = (mmin, mmax) if rng.random() < 0.6 else (float(rec.ft(mmin * rng.uniform(1.05, 2.5))), float(rec.ft(mmax * rng.uniform(0.6, 1))))
    Q = {f: ratios(rec, x, lo) for f, x in D.items()}
    style, c = coefs(rec, n)
    qstyle, v = coefs(rec, nq)
    alpha = float(rec.ft(rng.choice([1.0, rng.uniform(1.2, 4), rng.uniform(-1, 0.8), -near_minus_one(rec)])))
    beta = float(rec.ft(rng.choice([-1.0, 0.0, rng.uniform(0.2, 3), rng.uniform(-3, -1.1)])))
    rec.note(mmin=mmin, mmax=mmax, lo=lo, hi=hi, k=k, n=n, nq=nq, style=style, qstyle=qstyle, alpha=alpha, beta=beta, cs=c, vs=v)
    kw = {} if k == 4 and rng.random() < 0.5 else {"k": k}
    m = rec.call(P.PowerlawBasisSplinePrimaryRatio, n, nq, D[True], Q[True], D[False], Q[False], **rec.omit(dict(mmin=mmin, mmax=mmax), mmin=2.0, mmax=100.0), **kw)
    pm, pqs = Pert(n, k, np.log(mmin), np.log(mmax)), Pert(nq, k, 0.0, 1.0)

    def fm(x):
        return O.powerlaw(x, -alpha, lo, hi) * pm(np.log(x), c)

    def plane(ms, qs):
        mm, qq = np.meshgrid(ms, qs)
        with np.errstate(all="ignore"):
            w = np.where(qq < lo / mm, 0, O.powerlaw(qq, beta, np.minimum(lo / mm, 0.9999999), 1.0))
        return np.trapz(np.trapz(w * pqs(qs, v)[:, None] * fm(ms)[None], qs, axis=0), ms)

    # exact (substitution q = mmin/m + (1 - mmin/m) s) versus the documented grid
    ms = np.geomspace(lo * (1 + 1e-9), hi * (1 - 1e-9), 3001)
    s = np.linspace(0, 1, 401)
    ql = lo / ms
    qq = ql[:, None] + (1 - ql[:, None]) * s[None]
    a1 = beta + 1
    with np.errstate(all="ignore"):
        dens = O.powerlaw(np.clip(qq, ql[:, None], 1), beta, np.minimum(ql, 0.9999999)[:, None], 1.0)
    inner = np.trapz(dens * pqs(qq, v) * (1 - ql)[:, None], s, axis=1)
    inner[0] = pqs(np.array([1.0]), v)[0]
    exact = np.trapz(fm(ms) * inner, ms)
    g = plane(np.linspace(mmin, mmax, 1000)[1:], np.linspace(mmin / mmax, 1, 500))
    disc = abs(g / exact - 1)
    h = (mmax - mmin) / 999
    edge = h * (fm(np.array([lo * (1 + 1e-9)]))[0] * inner[:30].max() * 1.5 + (fm(np.array([hi * (1 - 1e-9)]))[0] * inner[-30:].max() if hi < mmax else 0)) / exact
    num = 3e3 * rec.eps * (1 + abs(alpha)) + 4 * (spl.spline_atol(rec, pm.t, k, False) * np.abs(c).sum() + spl.spline_atol(rec, pqs.t, k, False) * np.abs(v).sum())
    tol = 2 * disc + edge + num + 5e-3
    if tol > 0.25:
        rec.skip("too steep for the documented grid")
    args = dict(alpha=alpha, mmax=hi, cs=c)
    rec.close(rec.call(m.norm_pm1q, alpha=alpha, mmin=lo, mmax=hi, cs=c, beta=beta, vs=v), exact, "norm over the mass and ratio plane", tol)
    for flag, what in ((True, "samples"), (False, "injections")):
        x, q = D[flag], Q[flag]
        xf = x.astype(float)
        base_m = np.where((xf < lo) | (xf > hi), 0, fm(np.clip(xf, lo, hi)))
        base_q = p_q(q, x, beta, lo) * pqs(q.astype(float), v)
        ok = (xf > lo * 1.02) & (np.abs(x / hi - 1) > 1e-5)
        qt = pq_tol(rec, x, q, beta, lo)
        rec.close(np.asarray(rec.call(m.p_m1, jnp.asarray(x), alpha, lo, hi, c))[ok], base_m[ok], f"perturbed primary factor on {what}", num + 1e-4, 1e-35)
        rec.close(np.asarray(rec.call(m.p_q, jnp.asarray(q), jnp.asarray(x), beta, lo, v))[ok], base_q[ok], f"perturbed ratio factor on {what}", num + qt[ok], 1e-35)
        kw2 = dict(args, mmin=lo) if lo != mmin or rng.random() < 0.5 else args
        got = np.asarray(rec.call(m, jnp.asarray(x), jnp.asarray(q), beta=beta, vs=v, **kw2))
        rec.close(got[ok], (base_m * base_q / exact)[ok], f"perturbed mass and ratio model on {what}", tol + qt[ok], 1e-35)
        rec.true(got[((xf > hi * 1.0001) | (q > 1)) & ok] == 0, f"support outside the cut-offs on {what}")
        rec.true(got[xf < lo * 0.999] == 0, f"support below the minimum mass on {what}")
        if style != "rand" and qstyle != "rand":
            plain = O.powerlaw(x, -alpha, lo, hi) * p_q(q, x, beta, lo)
            rec.close(got[ok], plain[ok], f"constant coefficients do not reduce to the power laws on {what}", tol + qt[ok], 1e-35)


def window(rec):
    rng = rec.rng
    ps, js = SH[1]
    m = rec.call(P.PowerlawBasisSplinePrimaryPowerlawRatio, 6, msamples(rec, 3.0, 100.0, ps), msamples(rec, 3.0, 100.0, js))
    for _ in range(4):
        mmin = float(rec.ft(rng.uniform(2, 8)))
        dx = float(rec.ft(rng.uniform(0.05, 10)))
        y = np.concatenate([rng.uniform(0, 1, 40), [0.02, 0.1, 0.5, 0.9, 0.98]])
        x = rec.arr(np.sort(np.concatenate([mmin + dx * y, [mmin * 0.9, 0.1, mmin - 1e-2, mmin + 1.001 * dx + 1e-3, mmin + 2 * dx, 300.0, mmin - 1.0]])))
        rec.note(mmin=mmin, dx=dx)
        got = np.asarray(rec.call(m.smoothing, jnp.asarray(x), mmin, dx), float)
        want = O.window(dx, x, mmin)
        xf = x.astype(float)
        d = np.minimum(np.abs(xf - mmin), np.abs(xf - mmin - dx))
        with np.errstate(all="ignore"):
            slope = np.nan_to_num(dx * rec.eps * 4 * (xf + mmin + dx) / np.maximum(d, 1e-30) ** 2, posinf=1e3)
        tol = np.minimum(slope, 1.0) * np.where((want > 1e-3) & (want < 1 - 1e-3), 1.0, 0.02) + 20 * rec.eps
        rec.close(got, want, "low-mass smoothing window", 0, np.minimum(tol, 0.05) + 1e-12)
        rec.true(np.diff(got) >= -2e-6, "low-mass smoothing window not monotone")


KINDS = {"primary": (primary, 90, 900), "both": (both, 26, 240), "window": (window, 6, 80)}
