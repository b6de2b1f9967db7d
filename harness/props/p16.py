import jax.numpy as jnp
import numpy as np
from scipy import stats

from . import lik
from .lik import A, O

RULE = ("random weights and observing parameters for the rate; posterior-predictive draws over up to 64 events with unique parameter values per sample (so every drawn value identifies its sample), weights with zeros, uneven weights and samples outside the mass cuts; "
        "non-trivial = rate compared with its formula, every draw traced back to its sample, draws tested against the weights (Kolmogorov-Smirnov, p < 1e-7)")
ASSUMPTIONS = ["every event and the injection set keep at least one sample of positive weight inside the mass cuts", "log weights whose exponentials are representable in the working precision"]


def rate(rec):
    rng = rec.rng
    E, S, n = int(rng.choice([1, 3, 6])), 60, 300
    log = bool(rng.random() < 0.5)
    lw, _ = lik.weights(rec, (E, S), "lognormal")
    li, _ = lik.weights(rec, (n,), str(rng.choice(["lognormal", "sparse", "dominated"])), offset=float(rng.choice([0, -6, 4])))
    x, back = lik.as_input(rec, lw, log)
    y, iback = lik.as_input(rec, li, log)
    N = int(n * float(rng.choice([2, 80, 1e4])))
    tobs, hv = float(rec.ft(rng.uniform(0.1, 4))), float(rec.ft(10 ** rng.uniform(8, 12.5)))
    opt = [dict(), dict(min_neff_cut=False), dict(marginalize_selection=True), dict(min_neff_cut=False, max_variance_cut=True), dict(marginalize_selection=True, min_neff_cut=False)][rng.integers(5)]
    on = bool(rng.random() < 0.75)
    g = float(rec.ft(rng.gamma(E + 0.5) + 0.01))
    rec.note(E=E, N=N, log=log, tobs=tobs, hv=hv, opt=opt, on=on)
    out = {}
    hvi = jnp.asarray(rec.ft(hv)) if rng.random() < 0.5 else hv

    def model():
        kw = {} if on and rng.random() < 0.5 else {"reconstruct_rate": on}
        out["rate"] = rec.call(A.hierarchical_likelihood, jnp.asarray(x), jnp.asarray(y), N, E, tobs, surveyed_hypervolume=hvi, log=log, **opt, **kw)

    tr = lik.run(model, data={"unscaled_rate": jnp.asarray(rec.ft(g))} if on else None)
    if not on:
        rec.true(out["rate"] is None and "rate" not in tr and "unscaled_rate" not in tr, "no rate unless asked for", sites=[k for k in tr if "rate" in k])
        return
    mu = np.exp(O.selection_estimates(iback, N)[0])
    t = 200 * rec.eps * (1 + abs(np.log(mu))) + 40 * rec.eps * np.abs(iback[np.isfinite(iback)]).max()
    want = g / mu / (hv / 1e9 * tobs)
    rec.close(lik.val(tr, "rate"), want, "recorded merger rate", t)
    rec.close(np.asarray(out["rate"]), want, "returned merger rate", t)
    rec.close(lik.val(tr, "surveyed_hypervolume"), hv / 1e9 * tobs, "recorded hypervolume times time", 20 * rec.eps)
    fn = tr["unscaled_rate"]["fn"]
    v = rec.arr([0.3, 1.0, 2.5, 8.0])
    lp = np.array([float(fn.log_prob(jnp.asarray(u))) for u in v])
    rec.close(lp, stats.gamma(E).logpdf(v.astype(float)), "unscaled rate has a Gamma(number of observations) prior", 1e-4 * rec.tol(1, 1e-6), 1e-4 * rec.tol(1, 1e-6))
    # drawn, not substituted
    tr = lik.run(model, seed=int(rng.integers(10000)))
    rec.close(lik.val(tr, "rate"), float(lik.val(tr, "unscaled_rate")) / mu / (hv / 1e9 * tobs), "merger rate of a drawn unscaled rate", t)


def catalog(rec, E, S, n, names):
    rng = rec.rng

    def block(shape):
        d = {"mass_1": rng.uniform(2, 120, shape), "mass_ratio": rng.uniform(0.05, 1, shape)}
        for p in names:
            if p not in d:
                d[p] = rng.uniform(0, 1, shape)
        u = np.unique(rec.arr(d["mass_1"])).size
        if u != d["mass_1"].size:  # unique primary masses identify the sample
            d["mass_1"] = np.linspace(2, 120, d["mass_1"].size)[rng.permutation(d["mass_1"].size)].reshape(shape)
        return {k: rec.arr(v) for k, v in d.items()}

    return block((E, S)), block((n,))


def allowed(d, m1, m2, mx):
    a, q = d["mass_1"].astype(float), d["mass_ratio"].astype(float)
    near = (np.abs(a - m1) < 1e-3) | (np.abs(a - mx) < 1e-3) | (np.abs(a * q - m2) < 1e-3)
    return (a >= m1) & (a <= mx) & (a * q >= m2), near


def ppc(rec):
    rng = rec.rng
    E, S, n = [(64, 40, 120), (90, 40, 300), (1, 40, 120), (5, 25, 200)][rng.choice(4, p=[0.55, 0.2, 0.1, 0.15])]
    log = bool(rng.random() < 0.4)
    names = [["mass_1", "mass_ratio", "redshift"], ["mass_1", "a_1", "mass_ratio", "redshift"], ["redshift", "mass_1"]][rng.integers(3)]
    pe, inj = catalog(rec, E, S, n, names)
    cuts = [dict(), dict(m1min=2.0, m2min=2.0, mmax=100.0), dict(m1min=10.0, mmax=60.0), dict(m2min=8.0)][rng.integers(4)]
    m1, m2, mx = cuts.get("m1min", 5.0), cuts.get("m2min", 3.0), cuts.get("mmax", 100.0)
    ok_pe, near = allowed(pe, m1, m2, mx)
    ok_in, near_i = allowed(inj, m1, m2, mx)
    edge = E > 1 and rng.random() < 0.5
    if edge:  # a sample and an injection exactly on a mass cut are inside it
        for d, ok, nr, at in ((pe, ok_pe, near, (0, 0)), (inj, ok_in, near_i, 0)):
            d["mass_1"][at] = rec.ft(m1 if 0.9 * m1 > m2 and rng.random() < 0.5 else mx)
            d["mass_ratio"][at] = rec.ft(0.9)
            ok[at], nr[at] = True, False
        rec.ev("on-a-cut")
    spread = float(rng.choice([0.5, 2.0]))
    lw = np.where(near | (rng.random((E, S)) < 0.25), -np.inf, rng.normal(0, spread, (E, S)))
    li = np.where(near_i | (rng.random(n) < 0.25), -np.inf, rng.normal(0, spread, n))
    if edge:
        lw[0] = np.where(ok_pe[0], lw[0] - 40, lw[0])
        lw[0, 0], li[0] = 0.0, 4.0
    # forbidden samples carry large weights on purpose
    big = float(rng.choice([3, 3, 150])) if log else 3
    lw = np.where(~ok_pe & np.isfinite(lw), lw + big, lw)
    li = np.where(~ok_in & np.isfinite(li), li + big, li)
    for e in range(E):
        if not (np.isfinite(lw[e]) & ok_pe[e]).any():
            k = np.flatnonzero(ok_pe[e] & ~near[e])
            if len(k) == 0:
                rec.skip("no allowed sample")
            lw[e, k[0]] = 0.0
    if not (np.isfinite(li) & ok_in).any():
        rec.skip("no allowed injection")
    if log:  # log weights of any size, far beyond what their exponentials can represent
        lw = lw + float(rng.choice([0, -60, -300, 100, 500])) + float(rng.choice([0, 1])) * rng.normal(0, 60, (E, 1))
        li = li + float(rng.choice([0, -60, -300, 100, 500]))
    x, back = lik.as_input(rec, lw, log)
    y, iback = lik.as_input(rec, li, log)
    sub = bool(not log and rng.random() < 0.5)
    kw = dict(cuts)
    if sub:
        f = rng.uniform(0.05, 0.95, (E, S))
        indv = [rec.arr(x * f), rec.arr(x * (1 - f))]
        kw.update(marginal_qs=True, indv_weights=[jnp.asarray(v) for v in indv])
    rec.note(names=names, cuts=cuts, log=log, sub=sub, spread=spread)

    def model():
        rec.call(A.hierarchical_likelihood, jnp.asarray(x), jnp.asarray(y), n * 10, E, 1.0, reconstruct_rate=False, min_neff_cut=False, posterior_predictive_check=True,
                 param_names=names, pedata={k: jnp.asarray(v) for k, v in pe.items()}, injdata={k: jnp.asarray(v) for k, v in inj.items()}, log=log, **kw)

    tr = lik.run(model)
    rec.ev("draws", 2 * E)
    u_obs, u_pred, picked = [], [], []
    wi = np.where(ok_in, np.exp(iback - iback[ok_in].max()), 0)
    wi = wi / wi.sum()
    for e in range(E):
        o = {p: lik.val(tr, f"{p}_obs_event_{e}") for p in names}
        q = {p: lik.val(tr, f"{p}_pred_event_{e}") for p in names}
        i = np.flatnonzero(np.all([pe[p][e] == o[p] for p in names], axis=0))
        j = np.flatnonzero(np.all([inj[p] == q[p] for p in names], axis=0))
        if not rec.true(len(i) == 1, "all observed parameters of an event come from one sample of that event", event=e):
            return
        if not rec.true(len(j) == 1, "all predicted parameters of an event come from one injection", event=e):
            return
        i, j = int(i[0]), int(j[0])
        rec.true(np.isfinite(back[e, i]) and ok_pe[e, i], "a drawn sample has positive weight and passes the mass cuts", event=e, m1=pe["mass_1"][e, i], q=pe["mass_ratio"][e, i])
        rec.true(np.isfinite(iback[j]) and ok_in[j], "a drawn injection has positive weight and passes the mass cuts", event=e, m1=inj["mass_1"][j], q=inj["mass_ratio"][j])
        w = np.where(ok_pe[e], np.exp(back[e] - back[e][ok_pe[e]].max()), 0)
        w = w / w.sum()
        if edge and e == 0:
            rec.true(i == 0, "a sample exactly on a mass cut is inside it", drawn=i, m1=pe["mass_1"][0, 0])
            continue
        u_obs.append(w[:i].sum() + rng.random() * w[i])
        u_pred.append(wi[:j].sum() + rng.random() * wi[j])
        picked.append((i, j))
        if sub:
            for s in range(2):
                rec.close(lik.val(tr, f"cat_frac_subpop_{s + 1}_event_{e}"), indv[s][e, i].astype(float) / x[e, i].astype(float), "subpopulation fraction of the drawn sample", 40 * rec.eps)
    for u, what in ((u_obs, "observed draws follow the weights"), (u_pred, "predicted draws follow the weights")):
        ks = stats.kstest(u, "uniform")
        rec.ev("kstest")
        rec.true(ks.pvalue > 1e-7, what, p=ks.pvalue)
    if E >= 64:
        r = stats.spearmanr(u_obs, u_pred)
        rec.true(r.pvalue > 1e-7, "observed and predicted draws are independent", p=r.pvalue, r=r.statistic)
    rec.true(E < 64 or len({j for _, j in picked}) > 3, "predicted draws differ between events")
    extra = [k for k in tr if k.endswith("_obs_event_0") or k.endswith("_pred_event_0")]
    rec.true(set(extra) == {f"{p}_{w}_event_0" for p in names for w in ("obs", "pred")}, "draws are recorded for exactly the requested parameters", extra=extra)
    # the draws do not change the likelihood
    ll = O.event_estimates(back)[0].sum() - E * O.selection_estimates(iback, n * 10)[0]
    rec.close(lik.factor_value(tr["log_likelihood"]), ll, "likelihood with predictive draws", 0, 1e-4 * rec.tol(1, 1e-8) * (E * (1 + np.abs(back[np.isfinite(back)]).max() / 20 + np.abs(iback[np.isfinite(iback)]).max() / 20) + abs(ll)))


def ppc_off(rec):
    rng = rec.rng
    E, S, n = 4, 40, 120
    pe, inj = catalog(rec, E, S, n, ["mass_1", "mass_ratio"])
    x, y = rec.arr(rng.gamma(1, 1, (E, S))), rec.arr(rng.gamma(1, 1, n))
    how = int(rng.integers(3))
    kw = [dict(posterior_predictive_check=False, param_names=["mass_1"], pedata=pe, injdata=inj), dict(posterior_predictive_check=True), dict(param_names=["mass_1"], pedata=pe, injdata=inj)][how]
    rec.note(how=how, u=float(rng.random()))

    def model():
        rec.call(A.hierarchical_likelihood, jnp.asarray(x), jnp.asarray(y), n * 10, E, 1.0, reconstruct_rate=False, **kw)

    tr = lik.run(model)
    rec.true(not [k for k in tr if "_event_" in k], "no predictive draws unless asked for (with data)")


KINDS = {"rate": (rate, 60, 1500), "ppc": (ppc, 24, 300), "ppc_off": (ppc_off, 8, 60)}
