import jax
import jax.numpy as jnp
import numpy as np
import numpyro
import numpyro.distributions as dist
from numpyro.infer.util import log_density

from . import lik
from .lik import A, O

RULE = ("random weights (linear / log / categorical with two subpopulations) x numbers of observations, samples, injections x likelihood options, traced through numpyro; hostile weights (zero, overflowing, undefined sums); "
        "non-trivial = factor, recorded sites and total log density compared with float64 formulas")
ASSUMPTIONS = ["Monte Carlo sums representable in the working precision (except in the hostile workload, judged for NaN and +infinity only)", "two subpopulations in categorical mode, as implemented"]
SH = [(1, 40), (3, 60), (5, 120)]


def shape(rec):
    r = rec.rng
    k = r.random()
    if k < 0.6:
        return SH[r.integers(3)]
    if k < 0.9:
        a = int(r.integers(1, 30))
        return (a, a if r.random() < 0.25 else int(r.integers(1, 150)))
    return int(r.integers(40, 100)), int(r.integers(100, 600))


def setup(rec, log, nsub=1):
    rng = rec.rng
    E, S = shape(rec)
    n = int(rng.choice([300, 900])) if rng.random() < 0.6 else int(rng.integers(2, 5000))
    off = float(rng.choice([0, 0, -200, 50])) if log else float(rng.choice([0, 0, -6, 6]))
    pes = []
    for _ in range(nsub):
        lw, st = lik.weights(rec, (E, S), str(rng.choice(["lognormal", "equal", "sparse", "gamma"])), offset=off)
        pes.append(lik.as_input(rec, lw + rng.normal(0, 2, (E, 1)), log))
    lw, st2 = lik.weights(rec, (n,), str(rng.choice(["lognormal", "equal", "sparse"])), offset=float(rng.choice([0, -5, 3])))
    inj = lik.as_input(rec, lw, log)
    N = int(n * float(rng.choice([3, 70, 1000])))
    rec.note(E=E, S=S, n=n, N=N, log=log, off=off)
    return E, S, n, N, pes, inj


def expected(rec, E, back, iback, N, marg, log):
    bf, le, var = O.event_estimates(back)
    mu, lei, rel = O.selection_estimates(iback, N)
    ll = bf.sum() - E * (mu - (marg * (3 + E) / (2 * np.exp(lei))))
    t = lik.lw_tol(rec, back, log, back.shape[1]) * E + E * (lik.lw_tol(rec, iback, log, len(iback)) + 4 * rec.eps * np.log(N))
    t += 20 * rec.eps * (np.abs(bf).sum() + E * abs(mu)) + marg * E * (3 + E) / (2 * np.exp(lei)) * 1e-3 * rec.tol(1, 1e-8)
    return ll, t, dict(bf=bf, le=le, var=var, mu=mu, lei=lei, rel=rel)


def options(rec):
    rng = rec.rng
    marg = bool(rng.random() < 0.35)
    neff = bool(rng.random() < 0.4)
    vcut = bool(not marg and not neff and rng.random() < 0.4)
    rate = bool(rng.random() < 0.5)
    return dict(marginalize_selection=marg, min_neff_cut=neff, max_variance_cut=vcut, reconstruct_rate=rate)


def judge_sites(rec, tr, e, E, rate, tobs, hv):
    t = 60 * rec.eps * 20
    rec.close(lik.val(tr, "logBFs"), e["bf"], "recorded log evidences", 60 * rec.eps, t)
    rec.close(lik.val(tr, "log_nEffs"), e["le"], "recorded log effective samples", 1e-5 * rec.tol(1, 1e-8), 3 * t)
    rec.close(lik.val(tr, "sum_logBFs"), e["bf"].sum(), "recorded sum of log evidences", 0, 30 * rec.eps * (1 + np.abs(e["bf"]).sum()) + t)
    rec.close(lik.val(tr, "detection_efficiency"), np.exp(e["mu"]), "recorded detection efficiency", t * (1 + abs(e["mu"])))
    amp = 1 + e.get("amp", 0)
    rec.close(lik.val(tr, "log_nEff_inj"), e["lei"], "recorded log effective injections", 1e-5 * rec.tol(1, 1e-8), 5 * t * amp)
    rec.close(lik.val(tr, "variance_log_detection_efficiency"), e["rel"], "recorded variance of the efficiency", 6 * t * amp)
    rec.close(lik.val(tr, "variance_log_BFs"), e["var"], "recorded variances of the evidences", 0, 4 * t * np.exp(-e["le"]) + 1e-6 * rec.tol(1, 1e-8))
    rec.close(lik.val(tr, "variance_log_likelihood"), E**2 * e["rel"] + e["var"].sum(), "recorded variance of the log likelihood", 8 * t * amp, 1e-5 * rec.tol(1, 1e-8))


def value(rec):
    rng = rec.rng
    log = bool(rng.random() < 0.5)
    E, S, n, N, [(x, back)], (y, iback) = setup(rec, log)
    opt = options(rec)
    tobs, hv = float(rec.ft(rng.uniform(0.3, 3))), float(rec.ft(10 ** rng.uniform(9, 12)))
    kw = dict(opt, log=log)
    if opt["reconstruct_rate"]:
        kw["surveyed_hypervolume"] = hv
    # defaults are part of the interface
    for k, d in (("log", False), ("marginalize_selection", False), ("max_variance_cut", False)):
        if kw[k] == d and rng.random() < 0.5:
            del kw[k]
    rec.note(opt=opt, tobs=tobs)
    xs, ys = jnp.asarray(x), jnp.asarray(y)

    def model():
        rec.call(A.hierarchical_likelihood, xs, ys, N, E, tobs, **kw)

    compiled = rng.random() < 0.25
    tr = lik.run(model)
    ll, t, e = expected(rec, E, back, iback, N, opt["marginalize_selection"], log)
    e["amp"] = 1 / (N * e["rel"])
    fs = lik.factors(tr)
    rec.true(list(fs) == ["log_likelihood"], "exactly one likelihood factor", factors=list(fs))
    got = lik.factor_value(fs["log_likelihood"])
    rejected = (opt["min_neff_cut"] and (e["lei"] < np.log(4 * E) or np.exp(e["le"].min()) <= E)) or (opt["max_variance_cut"] and E**2 * e["rel"] + e["var"].sum() > 1)
    m1 = abs(e["lei"] - np.log(4 * E)) if opt["min_neff_cut"] else 1
    m2 = abs(e["le"].min() - np.log(E)) if opt["min_neff_cut"] else 1
    m3 = abs(E**2 * e["rel"] + e["var"].sum() - 1) if opt["max_variance_cut"] else 1
    if min(m1, m2, m3) < 5e-3:
        rec.skip("too close to a cut threshold")
    judge_sites(rec, tr, e, E, opt["reconstruct_rate"], tobs, hv)
    if rejected:
        rec.ev("rejected")
        rec.true(lik.is_lowest(rec, got), "rejected point has the lowest likelihood", value=got)
        rec.true(np.isfinite(got), "rejected point is finite", value=got)
    else:
        rec.close(got, ll, "log likelihood", 0, t)
        rec.close(lik.val(tr, "log_l"), ll, "recorded log likelihood", 0, t)
        sel = -E * (e["mu"] - opt["marginalize_selection"] * (3 + E) / (2 * np.exp(e["lei"])))
        rec.close(lik.val(tr, "selection_factor"), sel, "recorded selection factor", 0, t)
        # the total log density is the factor plus the prior of what is sampled
        ld, tr2 = log_density(model, (), {}, {k: s["value"] for k, s in tr.items() if s["type"] == "sample" and k != "log_likelihood"})
        prior = sum(float(np.sum(np.asarray(s["fn"].log_prob(s["value"])))) for k, s in tr.items() if s["type"] == "sample" and k != "log_likelihood")
        rec.close(np.asarray(ld), ll + prior, "log density of the whole model", 0, 2 * t + 50 * rec.eps * (1 + abs(prior)))
        latent = {k for k, s in tr.items() if s["type"] == "sample" and k != "log_likelihood"}
        rec.true(latent == ({"unscaled_rate"} if opt["reconstruct_rate"] else set()), "no other random variable is introduced", latent=sorted(latent))
        if compiled:
            rec.ev("compiled")

            def f(a, b):
                def m():
                    A.hierarchical_likelihood(a, b, N, E, tobs, **kw)
                return log_density(m, (), {}, {"unscaled_rate": jnp.asarray(2.0)})[0]

            rec.close(np.asarray(jax.jit(f)(xs, ys)), np.asarray(f(xs, ys)), "compiled and eager likelihood", 20 * rec.eps, t)


def categorical(rec):
    rng = rec.rng
    log = bool(rng.random() < 0.4)
    E, S, n, N, pes, (y, iback) = setup(rec, log, nsub=2)
    frac = rng.dirichlet([2, 2])
    frac = [float(f) for f in frac] if rng.random() < 0.5 else jnp.asarray(rec.arr(frac))
    Q = rng.integers(0, 2, E)
    rec.note(frac=np.asarray(frac), Q=Q)
    kw = dict(categorical=True, pop_frac=frac, reconstruct_rate=False, min_neff_cut=False, log=log)
    pw = tuple(jnp.asarray(p[0]) for p in pes)
    pw = list(pw) if rng.random() < 0.5 else pw
    key = jax.random.PRNGKey(3) if rng.random() < 0.5 else None

    def model():
        rec.call(A.hierarchical_likelihood, pw, jnp.asarray(y), N, E, 1.0, rngkey=key, **kw)

    tr = lik.run(model, data={"Qs": jnp.asarray(Q)})
    back = np.where(Q[:, None] == 0, pes[0][1], pes[1][1])
    ll, t, e = expected(rec, E, back, iback, N, 0, log)
    rec.close(lik.val(tr, "logBFs"), e["bf"], "each event's evidence comes from its own subpopulation", 60 * rec.eps, 100 * rec.eps * 20)
    rec.close(lik.factor_value(tr["log_likelihood"]), ll, "categorical log likelihood", 0, t)
    fn = tr["Qs"]["fn"]
    for k in (0, 1):
        pk = np.exp(np.asarray(fn.log_prob(jnp.full(lik.val(tr, "Qs").shape, k)), float)).reshape(-1)
        rec.close(pk, np.full(E, float(np.asarray(frac)[k])), "assignment probabilities are the population fractions", 60 * rec.eps)
    rec.true(lik.val(tr, "Qs").size == E, "one assignment per event")
    # drawn assignments are used as drawn
    tr = lik.run(model, seed=int(rng.integers(1000)))
    q = lik.val(tr, "Qs").reshape(-1)
    back = np.where(q[:, None] == 0, pes[0][1], pes[1][1])
    rec.close(lik.factor_value(tr["log_likelihood"]), expected(rec, E, back, iback, N, 0, log)[0], "categorical log likelihood of drawn assignments", 0, t + 1e-4 * rec.tol(1, 1e-6))


def hostile(rec):
    rng = rec.rng
    log = bool(rng.random() < 0.5)
    E, S = shape(rec)
    n, N = 300, 3000
    lw, _ = lik.weights(rec, (E, S), "lognormal")
    li, _ = lik.weights(rec, (n,), "lognormal")
    how = str(rng.choice(["event-zero", "inj-zero", "both-zero", "event-tiny", "inj-tiny", "event-huge", "all-tiny", "event-nan", "inj-nan", "event-inf", "inj-inf", "inj-huge", "all-nan"]))
    j = int(rng.integers(E))
    if how in ("event-zero", "both-zero"):
        lw[j] = -np.inf
    if how in ("inj-zero", "both-zero"):
        li[:] = -np.inf
    big = 1e4 if log else rec.tol(95, 730)
    if how in ("event-tiny", "all-tiny"):
        lw[j] -= big
    if how in ("inj-tiny", "all-tiny"):
        li -= big
    if how == "inj-huge":
        li += 5e3 if log else rec.tol(40, 350)
    if how == "event-inf":
        lw[j, 0] = np.inf
    if how == "inj-inf":
        li[0] = np.inf
    if how == "event-huge":
        lw[j] += 5e3 if log else rec.tol(40, 350)
    with np.errstate(over="ignore", divide="ignore"):
        x, y = (rec.arr(lw), rec.arr(li)) if log else (rec.arr(np.exp(lw)), rec.arr(np.exp(li)))
    if how in ("event-nan", "all-nan"):
        x[j, 0] = np.nan
    if how in ("inj-nan", "all-nan"):
        y[int(rng.integers(n))] = np.nan
    opt = options(rec)
    rec.note(how=how, log=log, E=E, opt=opt)

    def model():
        rec.call(A.hierarchical_likelihood, jnp.asarray(x), jnp.asarray(y), N, E, 1.0, surveyed_hypervolume=1e9, log=log, **opt)

    got = lik.factor_value(lik.run(model)["log_likelihood"])
    rec.true(np.isfinite(got), "the likelihood is a finite number for any weights", value=got, how=how)
    if how in ("event-zero", "inj-zero", "both-zero", "event-nan", "inj-nan", "inj-inf", "all-nan"):
        rec.true(lik.is_lowest(rec, got) or float(got) < -1e30, "a vanishing Monte Carlo sum gives the lowest likelihood", value=got, how=how)


KINDS = {"value": (value, 96, 2400), "categorical": (categorical, 40, 800), "hostile": (hostile, 60, 1200)}
