import numpy as np

from gwinferno.preprocess import priors as P

from .. import oracles as O

RULE = ("random mass ratios, maximum spins, effective spins and precessions (interior, at and next to every internal case boundary, at zero, at and beyond the maximum spin) as scalars, arrays and broadcast combinations; "
        "non-trivial = densities compared with tanh-sinh integration of the component-spin density; conditional precession compared with an independent Monte Carlo distribution")
ASSUMPTIONS = ["q in [1e-3, 1], a_max in [0.02, 1]", "double precision inputs; within 1e-9 of an internal boundary the formulas lose digits and only finiteness and a factor of three is demanded, exactly on it 1e-4",
               "conditional precession: |chi_eff| < 0.7 a_max, q >= 0.3 (kernel density estimate: distribution function within 0.035)"]
TECHNIQUE = "runtime monitoring: densities returned by the real code judged online against numerical integration of the component-spin distribution, plus distribution-function monitor for the Monte Carlo density"


def draws(rec, n):
    rng = rec.rng
    am = float(rng.choice([1.0, 1.0, 0.8, 0.3, rng.uniform(0.02, 1)]))
    q = np.where(rng.random(n) < 0.25, rng.choice([1.0, 0.5, 1 / 3, 0.25, 0.1], n), rng.choice([1.0, 0.05], n) * rng.uniform(0.02, 1, n))
    return am, q


def shapes(rec, fn, ref, x, q, am, what, tol):
    """the same numbers as scalars, matrices and broadcast combinations"""
    rng = rec.rng
    i = int(rng.integers(len(x)))
    got = np.asarray(rec.call(fn, float(x[i]), float(q[i]), a_max=am))
    k = int(rng.choice([1, 2, 3, 17, 1500, 6000], p=[0.3, 0.2, 0.15, 0.15, 0.15, 0.05]))
    j = rng.integers(0, len(x), k)
    j = (j, j[:, None], j[None, :])[rng.integers(3)]
    rec.close(rec.call(fn, x[j], q[j], a_max=am), ref(x[j], q[j], am), f"{what}: {k} values", 0, tol / am)
    rec.close(rec.call(fn, x[j], 1, a_max=am), ref(x[j], np.ones(np.shape(j)), am), f"{what}: {k} values of equal-mass binaries", 0, tol / am)
    rec.close(np.asarray(rec.call(fn, float(x[i]), q[j], a_max=am)), ref(x[i] + 0 * q[j], q[j], am), f"{what}: one spin for {k} mass ratios", 0, tol / am)
    rec.true(got.size == 1, f"{what}: scalar gives one value", shape=got.shape)
    rec.close(got.reshape(-1)[0], ref(x[i], q[i], am), f"{what}: scalar", 0, tol / am)
    m = x[:12].reshape(3, 4)
    rec.close(rec.call(fn, m, q[:12].reshape(3, 4), a_max=am), ref(m, q[:12].reshape(3, 4), am), f"{what}: matrix", 0, tol / am)
    rec.close(rec.call(fn, x[:20], float(q[0]), a_max=am), ref(x[:20], q[0], am), f"{what}: array with scalar mass ratio", 0, tol / am)
    rec.close(rec.call(fn, m[:, :1], q[:5][None, :], a_max=am), ref(m[:, :1], q[:5][None, :], am), f"{what}: broadcast", 0, tol / am)


def judge(rec, got, want, am, b, x, what):
    d = np.min([np.abs(np.abs(x) - v) for v in b], axis=0) / am if b else np.ones_like(x)
    near = d < 1e-9
    rec.ev("boundary-points", int(near.sum()))
    rec.finite(got, what)
    tol = 1e-9 + 3e-15 / np.maximum(d, 1e-9)
    rec.close(np.where(near, want, got), want, what, 0, tol * 10 / am)
    rec.true(got >= -1e-9 / am, f"{what}: non-negative", lowest=np.min(got))
    if near.any():
        ratio = got[near] / np.maximum(want[near], 1e-12)
        rec.true((ratio > 0.3) & (ratio < 3) | (want[near] < 1e-6 / am), f"{what}: continuous at the case boundaries", got=got[near], want=want[near])


def iso(rec):
    rng = rec.rng
    n = 400
    am, q = draws(rec, n)
    bs = [am * (1 - q) / (1 + q), q * am / (1 + q), am / (1 + q)]
    x = rng.uniform(-1.05, 1.05, n) * am
    x[:40] = rng.uniform(-0.02, 0.02, 40) * am
    for j, b in enumerate(bs):
        s = slice(50 + 60 * j, 110 + 60 * j)
        x[s] = (b * (1 + rng.choice([0, 0, 1e-16, -1e-16, 1e-12, -1e-12, 1e-7, -1e-7, 1e-4, -1e-4, 0.01, -0.01], n)))[s] * rng.choice([-1, 1], 60)
    x[240:246] = [0, am, -am, am * 1.001, -2 * am, am * 0.999999]
    rec.note(am=am, q=q, x=x)
    got = np.asarray(rec.call(P.chi_effective_prior_from_isotropic_spins, x, q, a_max=am))
    want = O.chieff_iso(x, q, am)
    rec.true(got.shape == x.shape, "shape", shape=got.shape)
    want[240] = (1 + q[240]) / (2 * am) * (2 - np.log(q[240]))
    judge(rec, got, want, am, bs, x, "isotropic effective spin density")
    rec.true(got[np.abs(x) >= am] == 0, "zero beyond the maximum spin")
    rec.close(rec.call(P.chi_effective_prior_from_isotropic_spins, -x, q, a_max=am), got, "symmetric in effective spin", 1e-12, 1e-12)
    y = rng.uniform(-1.02, 1.02, 40) * am
    shapes(rec, P.chi_effective_prior_from_isotropic_spins, O.chieff_iso, y, q[300:340], am, "isotropic effective spin density", 3e-7)
    one = float(q[int(rng.integers(n))])
    g = np.unique(np.concatenate([np.linspace(-1, 1, 3001), np.array([1, -1]) * 1e-4, np.linspace(-0.02, 0.02, 401)])) * am
    p = np.asarray(rec.call(P.chi_effective_prior_from_isotropic_spins, g, one, a_max=am))
    rec.close(np.trapz(p, g), 1.0, "integrates to one", 0, 2e-3 if one > 0.02 else 1.5e-2)
    if am == 1.0:
        rec.close(rec.call(P.chi_effective_prior_from_isotropic_spins, x[:9], q[:9]), got[:9], "default maximum spin is one", 1e-12, 1e-12)


def aligned(rec):
    rng = rec.rng
    n = 300
    am, q = draws(rec, n)
    b = am * (1 - q) / (1 + q)
    x = rng.uniform(-1.05, 1.05, n) * am
    x[:100] = (b * (1 + rng.choice([0, 1e-16, -1e-16, 1e-9, -1e-9, 1e-4, -1e-4], n)))[:100] * rng.choice([-1, 1], 100)
    x[100:106] = [0, am * (1 - 1e-12), -am * (1 - 1e-12), am * 1.001, -2 * am, am * 0.999999]
    rec.note(am=am, q=q, x=x)
    got = np.asarray(rec.call(P.chi_effective_prior_from_aligned_spins, x, q, a_max=am))
    rec.close(got, O.chieff_aligned(x, q, am), "aligned effective spin density", 1e-9, 1e-9 / am)
    rec.true(got >= 0, "non-negative")
    rec.true(got[np.abs(x) > am] == 0, "zero beyond the maximum spin")
    y = rng.uniform(-1.02, 1.02, 40) * am
    shapes(rec, P.chi_effective_prior_from_aligned_spins, O.chieff_aligned, y, q[200:240], am, "aligned effective spin density", 1e-9)
    if am == 1.0:
        rec.close(rec.call(P.chi_effective_prior_from_aligned_spins, x[:9], q[:9]), got[:9], "default maximum spin is one", 1e-12, 1e-12)


def precession(rec):
    rng = rec.rng
    n = 300
    am, q = draws(rec, n)
    k = q * (3 + 4 * q) / (4 + 3 * q)
    x = rng.uniform(0, 1.05, n) * am
    x[:100] = (am * k * (1 + rng.choice([0, 1e-16, -1e-16, 1e-9, -1e-9, 1e-4, -1e-4, -0.1], n)))[:100]
    x[100:106] = [0, am, am * (1 - 1e-12), am * 1.001, 2 * am, 1e-9]
    rec.note(am=am, q=q, x=x)
    got = np.asarray(rec.call(P.chi_p_prior_from_isotropic_spins, x, q, a_max=am))
    rec.finite(got, "precession density")
    rec.close(got, O.chip_iso(x, q, am), "precession density", 1e-8, 3e-7 / am)
    rec.true(got >= -1e-12 / am, "non-negative", lowest=got.min())
    rec.true(got[x > am] == 0, "zero beyond the maximum spin")
    y = rng.uniform(0, 1.02, 40) * am
    shapes(rec, P.chi_p_prior_from_isotropic_spins, O.chip_iso, y, q[200:240], am, "precession density", 3e-7)
    if am == 1.0:
        rec.close(rec.call(P.chi_p_prior_from_isotropic_spins, x[:9], q[:9]), got[:9], "default maximum spin is one", 1e-12, 1e-12)


def mc_chip(rng, chi, q, am, n=60000):
    a2, c2 = rng.random(n) * am, rng.uniform(-1, 1, n)
    x1 = chi * (1 + q) - q * a2 * c2
    ok = np.abs(x1) < am
    a2, c2, x1 = a2[ok], c2[ok], x1[ok]
    L = np.log(am / np.abs(x1))  # integral of 1/a1 over the magnitudes that allow this aligned spin
    a1 = np.abs(x1) * np.exp(rng.random(len(x1)) * L)
    s1 = np.sqrt(np.maximum(a1**2 - x1**2, 0))
    v = np.maximum(s1, q * (3 + 4 * q) / (4 + 3 * q) * a2 * np.sqrt(1 - c2**2))
    o = np.argsort(v)
    return v[o], np.cumsum(L[o]) / L.sum()


def conditional(rec):
    rng = rec.rng
    am = float(rng.choice([1.0, 1.0, 0.8, 0.4]))
    q = float(rng.choice([1.0, rng.uniform(0.3, 1)]))
    chi = float(rng.choice([-1, 1]) * rng.uniform(0.12, 0.7) * am)
    rec.note(am=am, q=q, chi=chi)
    np.random.seed(int(rng.integers(1 << 31)))
    g = np.linspace(0, am * 1.05, 421)
    S = abs(chi) * (1 + q)
    top = am if S < q * am else np.sqrt(am**2 - (S - q * am) ** 2)
    ps = []
    for j in range(3):
        p = np.asarray(rec.call(P.chi_p_prior_given_chi_eff_q, g, chi, q, a_max=am, ndraws=20000))
        rec.finite(p, "conditional precession density")
        rec.true(p >= 0, "conditional precession density non-negative")
        rec.close(np.trapz(p, g), 1.0, "conditional precession density integrates to one", 0, 2e-3)
        rec.true(p[g > top * (1 + 1e-9)] == 0, "no support beyond the attainable precession", top=top)
        ps.append(p)
    p = np.mean(ps, axis=0)
    c = np.concatenate([[0], np.cumsum((p[1:] + p[:-1]) / 2 * np.diff(g))])
    v, F = mc_chip(rng, chi, q, am)
    ks = np.max(np.abs(c - np.interp(g, v, F, left=0.0, right=1.0)))
    rec.ev("distribution-tests")
    rec.params["ks"] = float(ks)
    rec.true(ks < 0.035, "conditional precession follows the component-spin distribution", ks=ks)
    s = float(rec.call(P.chi_p_prior_given_chi_eff_q, float(0.5 * top), chi, q, a_max=am, ndraws=int(rng.choice([5000, 20000])), bw_method=str(rng.choice(["scott", "silverman"]))))
    i = int(np.argmin(np.abs(g - 0.5 * top)))
    rec.true(abs(s - p[i]) < 0.25 * p.max(), "scalar conditional density", got=s, want=p[i])


def joint(rec):
    rng = rec.rng
    am = float(rng.choice([1.0, 0.8]))
    n = 6
    q = rng.uniform(0.3, 1, n)
    chi = rng.choice([-1, 1], n) * rng.uniform(0.12, 0.6, n) * am
    cp = rng.uniform(0.2, 0.8, n) * am
    mode = str(rng.choice(["vector", "scalar", "oneq"]))
    if mode == "scalar":
        q, chi, cp = float(q[0]), float(chi[0]), float(cp[0])
    if mode == "oneq":
        q = float(q[0])
    rec.note(am=am, q=q, chi=chi, cp=cp, mode=mode)
    np.random.seed(int(rng.integers(1 << 31)))
    kw = {"ndraws": 20000} if rng.random() < 0.7 else {}
    if am != 1.0:
        kw["a_max"] = am
    got = np.asarray(rec.call(P.joint_prior_from_isotropic_spins, cp, chi, q, **kw))
    cq, cc, pp = np.broadcast_arrays(q, chi, cp)
    cq, cc, pp = np.atleast_1d(cq), np.atleast_1d(cc), np.atleast_1d(pp)
    rec.true(got.shape == cc.shape, "shape of the joint density", shape=got.shape)
    if got.shape != cc.shape:
        return
    want, top = [], []
    for a, b, c in zip(cq, cc, pp):
        g = np.linspace(0, am, 201)
        p = np.mean([P.chi_p_prior_given_chi_eff_q(g, b, a, a_max=am, ndraws=20000) for _ in range(2)], axis=0)
        e = float(O.chieff_iso(b, a, am))
        want.append(e * np.interp(c, g, p))
        top.append(e * p.max())
    rec.close(got, want, "joint density is the product of marginal and conditional", 0.12, 0.08 * np.array(top))


KINDS = {"iso": (iso, 60, 1200, "x64"), "aligned": (aligned, 30, 400, "x64"), "precession": (precession, 40, 600, "x64"), "conditional": (conditional, 32, 500, "x64"), "joint": (joint, 24, 300, "x64")}
