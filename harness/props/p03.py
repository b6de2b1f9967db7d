import jax
import jax.numpy as jnp
import numpy as np
from scipy.interpolate import CubicSpline

from gwinferno.interpolation import NaturalCubicUnivariateSpline as NCS

RULE = ("random node sets (uniform, irregular, clustered; 4-40 nodes; different scales and offsets) x data (smooth, random, constant, linear, steep) x query points (nodes, segment "
        "interiors incl. first and last, outside) x context (eager, jit, vmap, passed through jit as argument, grad); non-trivial = values compared with SciPy's natural cubic spline")
ASSUMPTIONS = ["node spacing ratio below 50 so that float32 evaluation is meaningful", "outside the nodes judged up to one interval length beyond the ends"]


def gen(rec, n=None):
    rng = rec.rng
    n = int(rng.choice([4, 5, 6, 9, 16, 30, 31, 61, 100])) if n is None else n
    sc, off = float(rng.choice([1.0, 0.1, 20.0])), float(rng.choice([0.0, 0.0, 1.0, -0.5]))
    style = rng.choice(["uniform", "irregular", "geometric", "nearly-uniform", "clustered"])
    if style == "uniform":
        x = np.linspace(0, 1, n)
    elif style == "irregular":
        x = np.cumsum(rng.uniform(0.2, 1.5, n))
    elif style == "nearly-uniform":
        x = np.arange(n) + rng.uniform(-1, 1, n) * float(rng.choice([1e-3, 1e-2, 0.05]))
    elif style == "clustered":
        x = np.cumsum(np.where(np.arange(n) == rng.integers(1, n), 1.0, 0.1))
    else:
        x = np.geomspace(1, 10, n)
    x = (x - x[0]) / (x[-1] - x[0])
    x = rec.arr((x + off) * sc)
    d = rng.choice(["smooth", "random", "const", "linear", "quad"])
    u = x.astype(float) / sc
    y = dict(smooth=np.sin(5 * u), random=rng.normal(0, 1, n), const=np.full(n, 2.5), linear=3 * u - 1, quad=u**2)[str(d)]
    y = rec.arr(y * float(rng.choice([1.0, 30.0])))
    rec.note(n=n, style=str(style), data=str(d), x0=x[0], x1=x[-1])
    return x, y


def queries(rec, x, size=24):
    rng = rec.rng
    xf = x.astype(float)
    span = xf[-1] - xf[0]
    q = np.concatenate([xf[rng.integers(0, len(x), 4)], xf[-1:], xf[:1], (xf[-1] - rng.random(4) * (xf[-1] - xf[-2])), xf[0] + rng.random(3) * (xf[1] - xf[0]),
                        xf[-2] - rng.random(2) * (xf[-2] - xf[-3]), rng.uniform(xf[0], xf[-1], size)])
    return rec.arr(rng.permutation(q)), rec.arr(np.array([xf[0] - 0.4 * (xf[1] - xf[0]), xf[-1] + 0.4 * (xf[-1] - xf[-2]), xf[-1] + 0.1 * (xf[-1] - xf[-2])]))


def tols(rec, x, y):
    xf, yf = x.astype(float), y.astype(float)
    h = np.diff(xf)
    sc = 1 + np.abs(yf).max() + np.abs(np.diff(yf)).max() * (h.max() / h.min())
    # abscissae carry an absolute rounding of eps*|x|
    return 100 * rec.eps * sc * (1 + np.abs(xf).max() / h.min())


def value(rec):
    rng = rec.rng
    x, y = gen(rec)
    f = rec.call(NCS, x, y)
    ref = CubicSpline(x.astype(float), y.astype(float), bc_type="natural")
    q, out = queries(rec, x)
    at = tols(rec, x, y)
    got = rec.call(f, q)
    rec.close(got, ref(q.astype(float)), "value inside the nodes", 0, at)
    rec.close(rec.call(f, x), y, "value at the nodes", 0, at)
    rec.close(rec.call(f, out), ref(out.astype(float)), "continuation outside the nodes", 0, 10 * at)
    j = int(rng.integers(len(q)))
    rec.close(rec.call(f, q[j]), np.asarray(got)[j], "scalar query differs from array query", 0, at)
    m = (len(q) // 3) * 3
    rec.close(rec.call(f, q[:m].reshape(3, -1)), np.asarray(got)[:m].reshape(3, -1), "shape of the query matters", 0, at)
    if rng.random() < 0.15:
        ids = rng.integers(0, len(q), int(rng.choice([1024, 1500, 4099])))
        rec.close(rec.call(f, q[ids]), np.asarray(got)[ids], "many query points differ from few", 0, at)
    # natural ends: curvature from the code's own derivative
    d2 = jax.grad(jax.grad(lambda t: f(t)))
    h = np.diff(x.astype(float))
    curv = 1 + np.abs(y.astype(float)).max()
    e0 = float(d2(jnp.asarray(x[0]))) * h.min() ** 2
    e1 = float(d2(jnp.asarray(x[-1]))) * h.min() ** 2
    rec.close([e0, e1], [0.0, 0.0], "curvature at the ends", 0, 20 * at + 1e-6 * curv * rec.tol(1, 0))


def transforms(rec):
    rng = rec.rng
    x, y = gen(rec, n=int(rng.choice([4, 7, 12])))
    ref = CubicSpline(x.astype(float), y.astype(float), bc_type="natural")
    q, _ = queries(rec, x, 10)
    at = tols(rec, x, y)
    want = ref(q.astype(float))
    built = jax.jit(lambda a, b, t: NCS(a, b)(t))
    rec.close(rec.call(built, x, y, q), want, "built inside a compiled function", 0, 2 * at)
    f = rec.call(NCS, x, y)
    passed = jax.jit(lambda g, t: g(t))
    rec.close(rec.call(passed, f, q), want, "passed to a compiled function", 0, 2 * at)
    rec.close(rec.call(jax.jit(lambda g: g), f)(q), want, "returned from a compiled function", 0, 2 * at)
    rec.close(rec.call(jax.vmap(f), q), want, "vectorised over query points", 0, 2 * at)
    ys = rec.arr(np.stack([y.astype(float), -2 * y.astype(float), y.astype(float) + 1]))
    got = rec.call(jax.vmap(lambda b: NCS(x, b)(q)), ys)
    rec.close(got, np.stack([CubicSpline(x.astype(float), r.astype(float), bc_type="natural")(q.astype(float)) for r in ys]), "vectorised over data", 0, 4 * at)
    many = rec.call(jax.vmap(lambda b: NCS(x, b)), ys)
    rec.close(rec.call(jax.vmap(lambda g: g(q)), many), got, "batched interpolants", 0, 4 * at)
    leaves, tree = jax.tree_util.tree_flatten(f)
    rec.close(jax.tree_util.tree_unflatten(tree, leaves)(q), want, "flatten/unflatten round trip", 0, 2 * at)
    g = np.asarray(rec.call(jax.vmap(jax.grad(f)), q))
    h = np.diff(x.astype(float)).min()
    away = np.abs(q.astype(float)[:, None] - x.astype(float)[None]).min(1) > 0
    rec.close(g * h, ref(q.astype(float), 1) * h, "derivative", 0, 30 * at)
    rec.ev("away-from-nodes", int(away.sum()))
    gy = jax.grad(lambda b: jnp.sum(NCS(x, b)(q)))(jnp.asarray(y))
    # linear in the data: gradient contracted with y gives the value
    rec.close(float(np.dot(np.asarray(gy, float), y.astype(float))), float(want.sum()), "gradient with respect to the data", 0, 60 * at * len(q))


def refuse(rec):
    rng = rec.rng
    x = rec.arr(np.linspace(0, 1, 6))
    rec.note(case=int(rng.integers(10**6)))
    rec.raises((AssertionError, ValueError, TypeError), NCS, x, rec.arr(np.zeros(5)), what="different lengths")
    rec.raises((AssertionError, ValueError, TypeError), NCS, x[:3], rec.arr(np.zeros(3)), what="too few nodes")


KINDS = {"value": (value, 80, 1200), "transforms": (transforms, 24, 320), "refuse": (refuse, 2, 2)}
