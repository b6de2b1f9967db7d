import jax
import jax.numpy as jnp
import numpy as np
from scipy import stats

from gwinferno.preprocess import selection as SE

RULE = ("random found-injection tables (every column unique) x new populations (uneven, sparse, near-equal weights, extra keyword parameters) x totals (int/float, to 1e9) x parameter orders x keys; "
        "non-trivial = every resampled column traced back to its source injection, stored density, count and effective number compared with float64 formulas, draws tested against the weights")
ASSUMPTIONS = ["effective number between 2 and the table size; counts within one of the floor where rounding decides", "statistical limits: p < 1e-8 for the draw test, 6.5 standard errors for re-estimated efficiencies"]


def setup(rec):
    rng = rec.rng
    n = int(rng.choice([80, 400, 3000, 12000], p=[0.4, 0.4, 0.12, 0.08]))
    names = ["mass_1", "mass_ratio", "redshift", "prior"]
    names = [names[i] for i in rng.permutation(4)]
    pm = {k: i for i, k in enumerate(names)}
    d = {"mass_1": np.sort(rng.uniform(5, 100, n))[rng.permutation(n)], "mass_ratio": rng.uniform(0.1, 1, n), "redshift": rng.uniform(0.01, 1.5, n), "prior": np.exp(rng.normal(-3, 1, n))}
    inj = rec.arr([d[k] for k in names])
    style = str(rng.choice(["power", "sparse", "close", "steep"]))
    a = {"power": 1.0, "sparse": 0.5, "close": 0.0, "steep": 3.0}[style]
    cut = 40.0 if style == "sparse" else 1e9

    def model(x, slope=0.0, top=1e9, xp=jnp):
        m = x[pm["mass_1"]]
        base = m ** (-slope) * (0.2 + x[pm["mass_ratio"]])
        if style == "close":
            base = base * 0 + x[pm["redshift"]] * 0 + 0.01 * (1 + 0.2 * x[pm["mass_ratio"]])
        return xp.where(m > top, 0.0, base)

    if style == "close":
        inj[pm["prior"]] = rec.arr(0.02 * (1 + 0.1 * rng.random(n)))
    N = int(min(n * float(rng.choice([3, 100, 2e5])), 2e9))
    Nin = {0: N, 1: float(N), 2: np.int64(N)}[int(rng.integers(3))]
    rec.note(n=n, names=names, style=style, N=N, total=type(Nin).__name__)
    kw = dict(slope=a, top=cut)
    return n, names, pm, inj, model, kw, N, Nin


def resample(rec):
    rng = rec.rng
    n, names, pm, inj, model, kw, N, Nin = setup(rec)
    key = jax.random.PRNGKey(int(rng.integers(1 << 30)))
    jin = jnp.asarray(inj)
    seen = []

    def probe(x, **k):
        seen.append(k)
        return model(x, **k)

    new, cnt, neff = rec.call(SE.resample_injections, key, probe, jin, Nin, pm, **kw)
    rec.true(all(k == kw for k in seen) and seen, "the population's own arguments are passed on", seen=seen[:2])
    new = np.asarray(new)
    f = inj.astype(float)
    p = model(f, xp=np, **kw)
    w = p / f[pm["prior"]]
    ess = w.sum() ** 2 / (w * w).sum()
    mu = w.sum() / N
    want = int(np.floor(ess))
    slack = 1 if abs(ess - round(ess)) < 60 * rec.eps * ess * np.sqrt(n) else 0
    rec.true(abs(int(cnt) - want) <= slack, "as many draws as the effective number of the reweighting", got=int(cnt), want=float(ess))
    rec.true(new.shape == (4, int(cnt)), "resampled table shape", shape=new.shape)
    rel = (w * w).sum() / w.sum() ** 2 - 1 / N
    rec.close(np.asarray(neff), 1 / rel, "effective number of the original estimate", 300 * rec.eps * (1 + 1 / (N * rel)))
    rec.true(np.array_equal(np.asarray(jin), inj), "input table unchanged")
    # trace every column back
    pos = {float(m): i for i, m in enumerate(inj[pm["mass_1"]])}
    if len(pos) != n:
        rec.skip("mass values not unique")
    src = np.array([pos.get(float(m), -1) for m in new[pm["mass_1"]]])
    if not rec.true(src >= 0, "resampled injections are injections of the input"):
        return
    rec.ev("draws", len(src))
    for k in names:
        if k != "prior":
            rec.true(np.array_equal(new[pm[k]], inj[pm[k]][src]), f"parameters of one injection stay together ({k})")
    rec.close(new[pm["prior"]], p[src] / mu, "stored draw density is the new density over the efficiency", 200 * rec.eps)
    rec.true(w[src] > 0, "never an injection of zero probability")
    q = w / w.sum()
    cum = np.concatenate([[0], np.cumsum(q)])
    u = cum[src] + rng.random(len(src)) * q[src]
    if len(u) > 5:
        ks = stats.kstest(u, "uniform")
        rec.ev("kstest")
        rec.true(ks.pvalue > 1e-8, "draws follow new density over old draw density", p=ks.pvalue)
    # estimates from the resampled set
    pr = new[pm["prior"]].astype(float)
    est = (p[src] / pr).sum() / int(cnt)
    rec.close(est, mu, "efficiency of the new population from the resampled set is exact", 400 * rec.eps)
    h = np.exp(-0.5 * ((f[pm["mass_1"]] - 35) / 30) ** 2) * p
    orig = (h / f[pm["prior"]]).sum() / N
    x = h[src] / pr
    sd = np.sqrt(max(((h / np.where(p > 0, p, 1)) ** 2 * q).sum() - ((h / np.where(p > 0, p, 1)) * q).sum() ** 2, 0)) * mu / np.sqrt(int(cnt))
    rec.true(abs(x.mean() - orig) <= 6.5 * sd + 1e-3 * abs(orig), "efficiency of another population is unbiased", got=x.mean(), want=orig, sd=sd)
    again = rec.call(SE.resample_injections, key, model, jin, Nin, pm, **kw)
    rec.true(np.array_equal(np.asarray(again[0]), new) and int(again[1]) == int(cnt) and float(again[2]) == float(neff), "reproducible from the key")
    other = rec.call(SE.resample_injections, jax.random.PRNGKey(int(rng.integers(1 << 30)) + 3), model, jin, Nin, pm, **kw)
    if int(cnt) > 20:
        rec.true(not np.array_equal(np.asarray(other[0]), new), "another key gives other draws")


def frequency(rec):
    """many keys, uneven weights: independent draws with replacement in proportion to the weights"""
    rng = rec.rng
    n = int(rng.integers(6, 60))
    w = np.exp(rng.normal(0, float(rng.choice([0.3, 1.0, 1.5])), n))
    if rng.random() < 0.4:
        w[: int(rng.integers(1, 3))] *= float(rng.choice([5.0, 20.0]))
    if rng.random() < 0.3:
        w[rng.random(n) < 0.4] = 0
    pr = np.exp(rng.normal(0, 1, n))
    tab = rec.arr([np.arange(n), pr, w * pr])
    pm = {"mass_1": 0, "prior": 1, "extra": 2}
    f = tab.astype(float)
    w = f[2] / f[1]
    ess = w.sum() ** 2 / (w * w).sum()
    if ess < 2.1 or abs(ess - round(ess)) < 1e-3:
        rec.skip("effective number")
    N = int(n * float(rng.choice([1, 2, 50, 1e5])))
    c, reps = int(ess), 60
    rec.note(n=n, c=c, N=N, ess=ess)
    q = w / w.sum()
    tot, pairs = np.zeros(n), 0
    j = jnp.asarray(tab)
    for k in rng.integers(0, 1 << 30, reps):
        new, cnt, _ = rec.call(SE.resample_injections, jax.random.PRNGKey(int(k)), lambda x: x[2], j, N, pm)
        if not rec.true(int(cnt) == c and np.shape(new) == (3, c), "as many draws as the effective number of the reweighting", got=int(cnt), want=c):
            return
        i = np.asarray(new[0]).astype(int)
        cc = np.bincount(i, minlength=n)
        tot += cc
        pairs += (cc * (cc - 1) / 2).sum()
    rec.ev("draws", int(tot.sum()))
    rec.true(tot[q == 0] == 0, "never an injection of zero probability")
    e = q * tot.sum()
    big = e >= 8
    rest = e[~big].sum() if e[~big].sum() >= 8 else None
    o, x = tot[big], e[big]
    if rest is not None:
        o, x = np.append(o, tot[~big].sum()), np.append(x, rest)
    if len(x) > 1:
        pv = stats.chi2(len(x) - (rest is not None or big.all())).sf(((o - x) ** 2 / x).sum())
        rec.ev("frequency-test")
        rec.true(pv > 1e-9, "draw frequencies in proportion to new density over old draw density", p=pv, got=o, want=x)
    s2, s3 = (q**2).sum(), (q**3).sum()
    m = c * (c - 1) / 2
    sd = np.sqrt(reps * (m * (s2 - s2 * s2) + m * (c - 2) * 2 * max(s3 - s2 * s2, 0)))
    rec.ev("repeat-test")
    rec.true(abs(pairs - reps * m * s2) <= 8 * sd + 6, "independent draws (repeated injections as often as expected)", got=pairs, want=reps * m * s2, sd=sd)


KINDS = {"resample": (resample, 60, 800), "frequency": (frequency, 24, 300)}
