import jax.numpy as jnp
import numpy as np
from scipy import stats

from gwinferno.preprocess import conversions as C

RULE = ("random binaries (mass ratios 0..1, magnitudes 0..1, tilts -1..1, edges included) and Beta shapes 1e-2..1e3 with scales 0.1..10, as Python scalars, NumPy arrays, JAX arrays and broadcast combinations; "
        "non-trivial = definitions, bounds, symmetries, round trips and caller's arrays checked")
ASSUMPTIONS = ["round trip tolerance scales with the conditioning of the Beta inversion"]


def size(rng, form):
    n = int(rng.choice([40, 1, 2, 7, 300, 5000], p=[0.5, 0.1, 0.1, 0.1, 0.15, 0.05]))
    return {"numpy": (n,), "jax": [(5, 8), (1, n), (n, 1), (2, 3, 4), ()][rng.integers(5)], "scalar": (1,), "broadcast": (6,)}[form]


def values(rec, sh):
    rng = rec.rng
    share = float(rng.choice([0.15, 0.0, 0.5]))

    def pick(lo, hi, edges):
        v = rng.uniform(lo, hi, sh)
        m = rng.random(sh) < share
        return rec.arr(np.where(m, rng.choice(edges, sh), v))

    return dict(q=pick(0, 1, [0, 1, 0.5, 1e-6]), a1=pick(0, 1, [0, 1]), a2=pick(0, 1, [0, 1]), c1=pick(-1, 1, [-1, 1, 0]), c2=pick(-1, 1, [-1, 1, 0]))


def as_form(rec, d, form):
    if form == "jax":
        return {k: jnp.asarray(v) for k, v in d.items()}
    if form == "scalar":  # whole numbers sometimes as Python integers
        return {k: int(x) if x == round(x) and rec.rng.random() < 0.5 else x for k, x in ((k, float(v.reshape(-1)[0])) for k, v in d.items())}
    return d


def spins(rec):
    rng = rec.rng
    rec.purity = True
    form = str(rng.choice(["numpy", "jax", "scalar", "broadcast"]))
    sh = size(rng, form)
    d = values(rec, sh)
    if form == "broadcast":
        d["q"] = d["q"][:, None]
        d["a2"] = d["a2"][0]
    rec.note(form=form, **d)
    keep = {k: np.array(v) for k, v in d.items()}
    x = as_form(rec, d, form)
    f = {k: np.asarray(v, float) for k, v in (x if form == "scalar" else keep).items()}
    eff = np.asarray(rec.call(C.chieff_from_q_component_spins, x["q"], x["a1"], x["a2"], x["c1"], x["c2"]))
    want = (f["a1"] * f["c1"] + f["q"] * f["a2"] * f["c2"]) / (1 + f["q"])
    e = 8 * rec.eps
    rec.close(eff, want, "effective spin is the mass-weighted aligned spin", e, e)
    big = np.maximum(f["a1"], f["a2"])
    rec.true(np.abs(eff) <= big * (1 + e) + 1e-30, "effective spin bounded by the larger magnitude")
    flip = np.asarray(rec.call(C.chieff_from_q_component_spins, x["q"], x["a1"], x["a2"], -x["c1"], -x["c2"]))
    rec.close(flip, -eff, "odd under flipping both spins", e, 1e-30)
    mode = str(rng.choice(["default", "np", "jnp"]))
    kw = {} if mode == "default" else {"math": {"np": np, "jnp": jnp}[mode]}
    chip = np.asarray(rec.call(C.chip_from_q_component_spins, x["q"], x["a1"], x["a2"], x["c1"], x["c2"], **kw))
    k = f["q"] * (3 + 4 * f["q"]) / (4 + 3 * f["q"])
    s1, s2 = f["a1"] * np.sqrt(1 - f["c1"] ** 2), f["a2"] * np.sqrt(1 - f["c2"] ** 2)
    wp = np.maximum(s1, k * s2)
    # sqrt(1-c^2) amplifies rounding of c^2 next to aligned spins
    lim = e + 4 * rec.eps * (f["a1"] / np.maximum(np.sqrt(1 - f["c1"] ** 2), np.sqrt(rec.eps)) + f["a2"] / np.maximum(np.sqrt(1 - f["c2"] ** 2), np.sqrt(rec.eps)))
    rec.close(chip, wp, "effective precession", e, lim)
    rec.true((chip >= 0) & (chip <= big * (1 + e) + 1e-30), "effective precession between zero and the larger magnitude")
    one = x["c1"] * 0 + 1 if form != "scalar" else 1.0
    two = x["c2"] * 0 - 1 if form != "scalar" else -1.0
    z = np.asarray(rec.call(C.chip_from_q_component_spins, x["q"], x["a1"], x["a2"], one, two, **kw))
    rec.true(z == 0, "no precession for aligned spins", value=z)
    zero = x["q"] * 0
    rec.close(np.asarray(rec.call(C.chip_from_q_component_spins, zero, x["a1"], x["a2"], x["c1"], x["c2"], **kw)) + 0 * chip, s1 + 0 * wp, "extreme mass ratio: primary only", e, lim)
    ident = np.asarray(rec.call(C.chieff_from_q_component_spins, zero + 1, x["a1"], x["a2"], x["c1"], x["c2"]))
    rec.close(ident + 0 * eff, (f["a1"] * f["c1"] + f["a2"] * f["c2"]) / 2 + 0 * want, "equal masses: mean aligned spin", e, e)
    rec.true(all(np.array_equal(keep[k], d[k]) for k in d), "inputs not modified")


def beta(rec):
    rng = rec.rng
    rec.purity = True
    form = str(rng.choice(["numpy", "jax", "scalar", "broadcast"]))
    sh = size(rng, form)
    a = rec.arr(10 ** rng.uniform(-1.5, 2.5, sh))
    b = rec.arr(10 ** rng.uniform(-1.5, 2.5, sh))
    if form == "broadcast":
        a = a[:, None]
    xm = {0: 1.0, 1: float(rng.uniform(0.1, 10)), 2: rec.arr(rng.uniform(0.1, 10, sh))}[int(rng.integers(3))]
    if form == "scalar" and not isinstance(xm, float):
        xm = float(xm[0])
    default = isinstance(xm, float) and xm == 1.0 and rng.random() < 0.6
    rec.note(form=form, a=a, b=b, xm=xm, default=default)
    conv = {"numpy": lambda v: v, "broadcast": lambda v: v, "jax": jnp.asarray, "scalar": lambda v: float(v.reshape(-1)[0])}[form]
    A, B = conv(a), conv(b)
    X = jnp.asarray(xm) if form == "jax" and not isinstance(xm, float) else xm
    kw = {} if default else {"xmax": X}
    ka, kb = np.array(a), np.array(b)
    fa, fb, fx = (np.asarray(v, float) for v in ((a, b, xm) if form != "scalar" else (A, B, xm)))
    mu, var = rec.call(C.mu_var_from_alpha_beta, A, B, **kw)
    wm, wv = fa / (fa + fb) * fx, stats.beta.var(fa, fb) * fx**2
    rec.close(np.asarray(mu), wm + 0 * np.asarray(mu, float), "mean of the scaled Beta distribution", 10 * rec.eps)
    rec.close(np.asarray(var), wv + 0 * np.asarray(var, float), "variance of the scaled Beta distribution", 20 * rec.eps)
    k = [np.array(mu), np.array(var)]
    a2, b2 = rec.call(C.alpha_beta_from_mu_var, mu, var, **kw)
    rec.true(np.array_equal(np.asarray(mu), k[0]) and np.array_equal(np.asarray(var), k[1]), "mean and variance arrays not modified")
    rec.true(np.array_equal(a, ka) and np.array_equal(b, kb), "shape arrays not modified")
    s = fa + fb
    cond = 60 * rec.eps * (1 + s / fa) * (1 + s / fb) * (1 + 1 / s)
    m = cond < 0.05
    for got, w, n in ((a2, fa, "alpha"), (b2, fb, "beta")):
        g = np.asarray(got)
        w = w + 0 * np.asarray(mu, float)
        rec.close(np.where(m, g, w), w, f"round trip returns {n}", cond)
    # the other direction
    m0 = rec.arr(rng.uniform(0.05, 0.95, sh))
    v0 = rec.arr(rng.uniform(0.02, 0.9, sh) * m0.astype(float) * (1 - m0.astype(float)))
    xs = np.asarray(xm, float)
    if form == "broadcast" and xs.ndim:
        xs = xs * np.ones(sh)
    M, V = rec.arr(m0 * xs), rec.arr(v0 * xs**2)
    keep = M.copy(), V.copy()
    M2, V2 = (M, V) if form != "jax" else (jnp.asarray(M), jnp.asarray(V))
    if form == "scalar":
        M2, V2 = float(M[0]), float(V[0])
    al, be = rec.call(C.alpha_beta_from_mu_var, M2, V2, **kw)
    fm, fv = np.asarray(M2, float) / fx, np.asarray(V2, float) / fx**2
    nu = fm * (1 - fm) / fv - 1
    lim = 60 * rec.eps * (1 + 1 / np.abs(nu)) * (1 + fm * (1 - fm) / fv)
    rec.close(np.asarray(al), fm * nu, "alpha of the requested mean and variance", lim, 1e-6 * rec.tol(1, 0))
    rec.close(np.asarray(be), (1 - fm) * nu, "beta of the requested mean and variance", lim, 1e-6 * rec.tol(1, 0))
    rec.true(np.array_equal(keep[0], M) and np.array_equal(keep[1], V), "requested mean and variance not modified")
    bm, bv = rec.call(C.mu_var_from_alpha_beta, al, be, **kw)
    rec.close(np.asarray(bm), np.asarray(M2, float), "mean round trip", 40 * lim)
    rec.close(np.asarray(bv), np.asarray(V2, float), "variance round trip", 40 * lim)


KINDS = {"spins": (spins, 200, 4000), "beta": (beta, 200, 4000)}
