import jax.numpy as jnp
import numpy as np

from . import lik
from .lik import A, O

RULE = ("weights tuned so that the injections' effective number, the smallest per-event effective number or the total variance lies just below / just above / far from its threshold (ratios 0.2 to 5, closest 0.5%), linear and log, all cut combinations; "
        "non-trivial = acceptance or rejection compared with float64 estimates, and accepted values compared with the uncut likelihood")
ASSUMPTIONS = ["estimates at least 0.3% away from a threshold or exactly on it (between, rounding decides)", "fewer injections found than generated"]
RATIOS = [0.2, 0.8, 0.97, 0.995, 1.005, 1.03, 1.25, 5.0]


def tune(z, target):
    """log weights sigma * z with (sum w)^2 / sum w^2 = target (1 <= target < len(z))"""
    lo, hi = 0.0, 60.0
    for _ in range(80):
        s = 0.5 * (lo + hi)
        a = O.event_estimates((s * z)[None])[1][0]
        lo, hi = (s, hi) if a > np.log(target) else (lo, s)
    return lo * z - (lo * z).max()


def build(rec, E, log, r_event, r_inj, N_over=30):
    rng = rec.rng
    S, n = 64, 200
    j = int(rng.integers(E))
    lw = np.array([tune(rng.normal(size=S), min(S * 0.9, E * 6 if i != j else max(1.02, E * r_event))) for i in range(E)])
    N = n * N_over
    t = 4 * E * r_inj  # wanted 1/(s2/s1^2 - 1/N)
    z = rng.normal(size=n)
    li = tune(z, min(n * 0.98, 1 / (1 / t + 1 / N)))
    off = rng.normal(0, 2, (E, 1))
    x, back = lik.as_input(rec, lw + off, log)
    y, iback = lik.as_input(rec, li + float(rng.normal(0, 2)), log)
    return x, back, y, iback, N


def estimates(back, iback, N):
    bf, le, var = O.event_estimates(back)
    mu, lei, rel = O.selection_estimates(iback, N)
    return bf, np.exp(le), var, mu, np.exp(lei), rel


def ll(rec, x, y, N, E, log, qs=None, **kw):
    """the likelihood factor; with qs the events' weights are split over two subpopulations, the assignments being qs and the other subpopulation's weights junk"""
    if qs is not None:
        junk = rec.arr(rec.rng.permutation(np.asarray(x).ravel()).reshape(np.shape(x)))
        a, b = (np.where(qs[:, None] == k, x, junk) for k in (0, 1))
        xs, kw = jnp.stack([jnp.asarray(a), jnp.asarray(b)]), dict(kw, categorical=True, pop_frac=(0.3, 0.7))
    else:
        xs = jnp.asarray(x)

    def model():
        rec.call(A.hierarchical_likelihood, xs, jnp.asarray(y), N, E, 1.0, reconstruct_rate=False, log=log, **kw)

    tr = lik.run(model, data=None if qs is None else {"Qs": jnp.asarray(qs)})
    f = {k: s for k, s in lik.factors(tr).items() if k != "Qs"}
    rec.true(list(f) == ["log_likelihood"], "one likelihood factor", factors=list(f))
    return float(lik.factor_value(tr["log_likelihood"])), tr


def neff(rec):
    rng = rec.rng
    E = int(rng.choice([1, 2, 4, 7, 12]))
    log = bool(rng.random() < 0.5)
    marg = bool(rng.random() < 0.3)
    re, ri = (float(rng.choice(RATIOS)) for _ in range(2))
    if rng.random() < 0.4:
        re = 5.0
    elif rng.random() < 0.4:
        ri = 5.0
    x, back, y, iback, N = build(rec, E, log, re, ri)
    bf, ne, var, mu, nei, rel = estimates(back, iback, N)
    qs = rng.integers(0, 2, E) if rng.random() < 0.15 else None
    rec.note(E=E, log=log, marg=marg, categorical=qs is not None, neff_min=ne.min(), neff_inj=nei)
    if abs(ne.min() / E - 1) < 3e-3 or abs(nei / (4 * E) - 1) < 3e-3:
        rec.skip("too close to a threshold")
    reject = nei < 4 * E or ne.min() <= E
    rec.ev("rejected" if reject else "accepted")
    kw = {"marginalize_selection": marg} if marg else {}
    if qs is not None:
        kw["qs"] = qs
    on, tr = ll(rec, x, y, N, E, log, **kw, **({} if rng.random() < 0.5 else {"min_neff_cut": True}))
    off, _ = ll(rec, x, y, N, E, log, min_neff_cut=False, **kw)
    want = bf.sum() - E * (mu - (marg * (3 + E) / (2 * nei)))
    tol = 1e-4 * rec.tol(1, 1e-8) * (1 + np.abs(bf).sum() + E * abs(mu)) + marg * 1e-3 * rec.tol(1, 1e-8) * E * (3 + E) / nei
    rec.close(off, want, "likelihood without cuts", 0, tol)
    if reject:
        rec.true(lik.is_lowest(rec, on) and np.isfinite(on), "unconverged Monte Carlo integrals are rejected", value=on, inj=float(nei / (4 * E)), event=float(ne.min() / E))
    else:
        rec.close(on, off, "converged point unaffected by the cut", 4 * rec.eps, 1e-6)


def variance(rec):
    rng = rec.rng
    E = int(rng.choice([1, 2, 4, 7, 12]))
    log = bool(rng.random() < 0.5)
    S, n, Nx = 64, 200, 30
    N = n * Nx
    target = float(rng.choice([0.3, 0.8, 0.97, 0.99, 1.01, 1.03, 1.3, 4.0]))
    share = float(rng.choice([0.05, 0.5, 0.9, 0.995]))
    # events contribute target*(1-share), the selection term target*share where attainable
    zs = rng.normal(size=(E, S))
    scale_lo, scale_hi = 0.0, 30.0
    rel = min(target * share / E**2, 0.9)
    li = tune(rng.normal(size=n), min(max(1.02, 1 / (rel + 1 / N)), n * 0.98))
    relv = O.selection_estimates(li, N)[2]
    for _ in range(80):
        s = 0.5 * (scale_lo + scale_hi)
        v = O.event_estimates(s * zs)[2].sum() + E**2 * relv
        scale_lo, scale_hi = (s, scale_hi) if v < target else (scale_lo, s)
    x, back = lik.as_input(rec, scale_lo * zs - (scale_lo * zs).max(1, keepdims=True) + rng.normal(0, 2, (E, 1)), log)
    y, iback = lik.as_input(rec, li, log)
    bf, ne, var, mu, nei, rel = estimates(back, iback, N)
    tot = E**2 * rel + var.sum()
    cat = {"qs": rng.integers(0, 2, E)} if rng.random() < 0.25 else {}
    rec.note(E=E, log=log, total=tot, selection=E**2 * rel, categorical=bool(cat))
    if abs(tot - 1) < 3e-3:
        rec.skip("too close to a threshold")
    rec.ev("rejected" if tot > 1 else "accepted")
    on, tr = ll(rec, x, y, N, E, log, min_neff_cut=False, max_variance_cut=True, **cat)
    off, tr0 = ll(rec, x, y, N, E, log, min_neff_cut=False, max_variance_cut=False, **cat)
    rec.close(lik.val(tr, "variance_log_likelihood"), tot, "recorded total variance", 2e-4 * rec.tol(1, 1e-8))
    want = bf.sum() - E * mu
    rec.close(off, want, "likelihood without cuts", 0, 1e-4 * rec.tol(1, 1e-8) * (1 + np.abs(bf).sum() + E * abs(mu)))
    if tot > 1:
        rec.true(lik.is_lowest(rec, on) and np.isfinite(on), "too large a variance is rejected", value=on, variance=tot)
    else:
        rec.close(on, off, "small variance is unaffected by the cut", 4 * rec.eps, 1e-6)


def ties(rec):
    """estimates exactly on a threshold: an event's effective number equal to the number of events is rejected, an injection effective number equal to four times it is accepted"""
    rng = rec.rng
    log = bool(rng.random() < 0.5)
    one = bool(rng.random() < 0.5)
    S = int(rng.choice([3, 8, 20]))
    c, b = float(2.0 ** rng.integers(-6, 7)), float(2.0 ** rng.integers(-6, 7))
    pe = np.full((1, S), c)
    if one:
        pe[:] = 0
        pe[0, int(rng.integers(S))] = c
    inj = np.array([b, b])[: 2 if not one else 1]
    N = 4 if not one else 2
    if one:
        inj = np.full(40, b)
        N = 400
    with np.errstate(divide="ignore"):
        x, y = rec.arr(np.log(pe) if log else pe), rec.arr(np.log(inj) if log else inj)
    rec.note(log=log, one=one, S=S, c=c, b=b)
    on, tr = ll(rec, x, y, N, 1, log)
    le, lei = np.asarray(lik.val(tr, "log_nEffs")).ravel(), np.asarray(lik.val(tr, "log_nEff_inj"))
    if one:
        if not (float(np.exp(le[0])) == 1.0 and le[0] == 0):
            rec.skip("rounding decides")
        rec.true(lik.is_lowest(rec, on), "an event with exactly as many effective samples as there are events is rejected", value=on)
        rec.ev("tie-rejected")
    else:
        if not float(lei) == float(jnp.log(4 * 1)):
            rec.skip("rounding decides")
        off, _ = ll(rec, x, y, N, 1, log, min_neff_cut=False)
        rec.close(on, off, "exactly four times as many effective injections as events are enough", 4 * rec.eps, 1e-6)
        rec.ev("tie-accepted")


def degenerate(rec):
    """no effective number can be formed (no weight at all, or sums that overflow): never accepted, never undefined"""
    rng = rec.rng
    log = bool(rng.random() < 0.5)
    E = int(rng.choice([1, 2, 5, 20]))
    lw, li = rng.normal(0, 0.05, (E, 64)), rng.normal(0, 0.05, 900)
    what = str(rng.choice(["event-zero", "event-huge", "inj-zero", "inj-huge", "event-nan", "inj-nan"]))
    k = int(rng.integers(E))
    big = 60.0 if not rec.x64 else 400.0
    bad = {"zero": -np.inf, "huge": big, "nan": np.nan}[what.split("-")[1]]
    if what.startswith("event"):
        lw[k] = lw[k] + big if bad == big else bad
    else:
        li = li + big if bad == big else np.full(900, bad)
    x, _ = lik.as_input(rec, lw, log)
    y, _ = lik.as_input(rec, li, log)
    rec.note(E=E, log=log, what=what)
    on, tr = ll(rec, x, y, 90000, E, log, **({"marginalize_selection": True} if rng.random() < 0.3 else {}))
    undefined = not np.isfinite(lik.val(tr, "log_nEffs")).all() or not np.isfinite(lik.val(tr, "log_nEff_inj"))
    rec.ev("undefined" if undefined else "defined")
    rec.true(np.isfinite(on), "likelihood is a number", value=on)
    if "huge" not in what or undefined:
        rec.true(lik.is_lowest(rec, on), "an integral without an effective number is not accepted", value=on, which=what)
    else:
        off, _ = ll(rec, x, y, 90000, E, log, min_neff_cut=False)
        rec.true(not lik.is_lowest(rec, off), "defined point is kept", value=off)


def combos(rec):
    rng = rec.rng
    E = int(rng.choice([1, 3]))
    log = bool(rng.random() < 0.5)
    x, back, y, iback, N = build(rec, E, log, 5.0, 5.0)
    marg, nc = [(True, False), (False, True), (True, True)][rng.integers(3)]
    rec.note(marg=marg, nc=nc, log=log)

    def model(**kw):
        def m():
            A.hierarchical_likelihood(jnp.asarray(x), jnp.asarray(y), N, E, 1.0, reconstruct_rate=False, log=log, **kw)
        return lik.run(m)

    rec.raises(ValueError, model, max_variance_cut=True, marginalize_selection=marg, min_neff_cut=nc, what="variance cut combined with another option")
    rec.raises(ValueError, model, max_variance_cut=True, what="variance cut combined with the default cut")
    rec.calls += 2
    v, _ = ll(rec, x, y, N, E, log, max_variance_cut=False, marginalize_selection=marg, min_neff_cut=nc)
    rec.finite(v, "allowed combination")


KINDS = {"neff": (neff, 200, 2400), "variance": (variance, 160, 2000), "combos": (combos, 16, 200), "ties": (ties, 16, 100), "degenerate": (degenerate, 48, 500)}
