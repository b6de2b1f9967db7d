import copy

import jax
import jax.numpy as jnp
import numpy as np
import numpyro
from numpyro import handlers

from gwinferno import distributions as D
from gwinferno import interpolation as I
from gwinferno import numpyro_distributions as ND
from gwinferno.cosmology import PLANCK_2015_LVK_Cosmology as LVK
from gwinferno.models import spline_perturbation as P
from gwinferno.models.bsplines import separable as S
from gwinferno.models.bsplines import single as B
from gwinferno.models.bsplines.smoothing import apply_difference_prior
from gwinferno.models.parametric import parametric as M
from gwinferno.pipeline import parser as PA
from gwinferno.pipeline import utils as U
from gwinferno.postprocess import calculations as K
from gwinferno.preprocess import conversions as C
from gwinferno.preprocess import priors as R
from gwinferno.preprocess.selection import resample_injections

from . import spl
from .lik import A

TECHNIQUE = "runtime monitoring: byte-level snapshots of every caller-owned array and container around real calls, and differential comparison of recorded results across histories, instances and execution modes"
RULE = ("random evaluables (densities, splines, models with options, distributions, estimators, likelihood, conversions, priors, predictive curves) with caller-owned arrays and option dictionaries, evaluated fresh, repeated, interleaved with others "
        "and with other instances, after being traced, compiled, vectorised, and on the data in pieces; non-trivial = at least two evaluations of the same thing compared")
ASSUMPTIONS = ["repeated eager evaluation is compared bit for bit; compiled, vectorised and split evaluation to rounding amplified by the model",
               "models whose range is derived from the data (redshift models) are not split", "the shared cosmology table may be refined or extended by queries (judged by P12)"]


class Ev:
    """something that can be evaluated: build(data) makes the evaluator from caller data, f(*params) evaluates it"""

    def __init__(self, name, build, data, params, jit=True, vmap=None, split=(), opts=None, bitwise=True):
        self.name, self.build, self.data, self.params = name, build, data, params
        self.jit, self.vmap, self.split, self.opts, self.bitwise = jit, jit if vmap is None else vmap, split, opts, bitwise


def leaves(x):
    return [np.asarray(v) for v in jax.tree_util.tree_leaves(x)]


def snap(x):
    """deep, byte-exact description of caller-owned containers"""
    if isinstance(x, dict):
        return ("dict", [(k, snap(v)) for k, v in x.items()])
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [snap(v) for v in x])
    if isinstance(x, (np.ndarray, np.generic)) or isinstance(x, jax.Array):
        a = np.asarray(x)
        return ("array", a.dtype.str, a.shape, a.tobytes())
    return ("other", repr(x))


# --- generators ---------------------------------------------------------------------------------------------
def U01(rec, shape, lo=0.02, hi=0.98):
    return rec.arr(rec.rng.uniform(lo, hi, shape))


def masses(rec, shape):
    m1 = rec.rng.uniform(4, 95, shape)
    q = rec.rng.uniform(np.minimum(2.5 / m1, 0.9), 1.0)
    return rec.arr(m1), rec.arr(q)


def sc(rec, lo, hi):
    return rec.arr(rec.rng.uniform(lo, hi))


def cf(rec, n, s=1.0):
    return rec.arr(rec.rng.normal(0, s, n))


def variant(rec, names):
    """one of the variants of a generator: at random, or the one the deterministic sweep asks for"""
    f = getattr(rec, "force", None)
    return names[f % len(names)] if f is not None else str(rec.rng.choice(names))


SHP = [(2, 9), (3, 6)]
SHI = [(11,), (17,)]


def shp(rec):
    i = rec.rng.integers(2)
    return SHP[i], SHI[rec.rng.integers(2)]


def g_density(rec):
    c = variant(rec, ["powerlaw", "truncnorm", "beta", "logit", "smooth", "logistic", "lognorm"])
    s = SHP[rec.rng.integers(2)] if rec.rng.random() < 0.5 else (13,)
    m, q = masses(rec, s)
    if c == "powerlaw":
        return Ev(c, lambda d: lambda a, lo, hi: D.powerlaw_pdf(d["x"], a, lo, hi), {"x": m}, (sc(rec, -4, -1.3), sc(rec, 2, 8), sc(rec, 60, 90)), split=("x",))
    if c == "truncnorm":
        return Ev(c, lambda d: lambda a, b: D.truncnorm_pdf(d["x"], a, b, 5.0, 80.0), {"x": m}, (sc(rec, 20, 40), sc(rec, 3, 12)), split=("x",))
    if c == "lognorm":
        return Ev(c, lambda d: lambda a, b: D.truncnorm_pdf(d["x"], a, b, 5.0, 80.0, log=True), {"x": m}, (sc(rec, 3, 4), sc(rec, 0.3, 1)), split=("x",))
    if c == "beta":
        return Ev(c, lambda d: lambda a, b: D.betadist(d["x"], a, b, scale=0.99), {"x": U01(rec, s)}, (sc(rec, 1.1, 5), sc(rec, 1.1, 5)), split=("x",))
    if c == "logit":
        return Ev(c, lambda d: lambda a, lo, hi: D.powerlaw_logit_pdf(d["x"], a, lo, hi, 3.0, 2.0), {"x": m}, (sc(rec, -4, -1.3), sc(rec, 4, 8), sc(rec, 60, 90)), split=("x",))
    if c == "smooth":
        return Ev(c, lambda d: lambda dx, lo: D.smooth(dx, d["x"], lo), {"x": m}, (sc(rec, 2, 20), sc(rec, 3, 8)), split=("x",))
    return Ev(c, lambda d: lambda x0: D.log_logistic_unit(d["x"], x0, sgn=1, sc=0.3), {"x": m}, (sc(rec, 20, 60),), split=("x",))


def g_parametric(rec):
    c = variant(rec, ["plpeak", "plpeak_d", "pl", "falloff", "iidmag", "indmag", "iidtilt", "default"])
    s = shp(rec)[rec.rng.integers(2)]
    m, q = masses(rec, s)
    pk = (sc(rec, -4, -1.5), sc(rec, 0.2, 3), sc(rec, 2.2, 5), sc(rec, 80, 95), sc(rec, 25, 40), sc(rec, 3, 9), sc(rec, 0.05, 0.5))
    d = {"m": m, "q": q}
    if c == "plpeak":
        return Ev(c, lambda d: lambda *p: M.plpeak_primary_ratio_pdf(d["m"], d["q"], *p), d, pk, split=("m", "q"))
    if c == "plpeak_d":
        return Ev(c, lambda d: lambda *p: M.plpeak_primary_ratio_pdf(d["m"], d["q"], *p[:-1], delta=p[-1]), d, pk + (sc(rec, 1, 6),), split=("m", "q"))
    if c == "pl":
        return Ev(c, lambda d: lambda *p: M.powerlaw_primary_ratio_pdf(d["m"], d["q"], *p), d, pk[:4], split=("m", "q"))
    if c == "falloff":
        return Ev(c, lambda d: lambda *p: M.powerlaw_primary_ratio_falloff_pdf(d["m"], d["q"], *p), d, pk[:4] + (sc(rec, 1, 4),), split=("m", "q"))
    d = {"a": U01(rec, s), "b": U01(rec, s)}
    sh = tuple(sc(rec, 1.1, 5) for _ in range(4))
    if c == "iidmag":
        return Ev(c, lambda d: lambda *p: M.iid_spin_magnitude(d["a"], d["b"], *p), d, sh[:2], split=("a", "b"))
    if c == "indmag":
        return Ev(c, lambda d: lambda *p: M.independent_spin_magnitude_beta_dist(d["a"], d["b"], *p), d, sh, split=("a", "b"))
    t = (sc(rec, 0.1, 0.9), sc(rec, 0.3, 2))
    f = M.iid_spin_tilt if c == "iidtilt" else M.default_spin_tilt
    return Ev(c, lambda d: lambda *p: f(d["a"], d["b"], *p), d, t, split=("a", "b"))


def g_spline(rec):
    rng = rec.rng
    fam = str(rng.choice(spl.FAMS))
    k = int(rng.choice([2, 3, 4, 5]))
    n = int(k + rng.integers(2, 8))
    lo, hi = spl.domain(rng, spl.is_logx(fam))
    norm = bool(rng.random() < 0.6) and fam != "BasisSpline"
    style = str(rng.choice(["uniform", "uniform", "interior", "full"])) if not spl.is_logx(fam) else str(rng.choice(["uniform", "interior"]))
    kw, t = spl.knots_for(rng, style, n, k, np.log(lo) if spl.is_logx(fam) else lo, np.log(hi) if spl.is_logx(fam) else hi)
    kw = {a: np.exp(v) if spl.is_logx(fam) else v for a, v in kw.items()}
    span = hi - lo
    x = rec.arr(rng.uniform(lo + 1e-3 * span, hi - 1e-3 * span, (2, 8)))
    opts = dict(kw, xrange=(lo, hi), k=k)
    if fam != "BasisSpline":
        opts["normalize"] = norm

    def build(d, o):
        s = getattr(I, fam)(n, **o)
        b = s.bases(d["x"])  # design matrices are made ahead of compilation
        return lambda c: (b, s.project(b, c), s.norm(c) if norm else 0.0) + ((b, s.project(b, c)) if isinstance(c, jax.core.Tracer) else (s.bases(d["x"]), s(d["x"], c)))

    return Ev(f"{fam}/{style}/k{k}/n{n}", build, {"x": x}, (cf(rec, n),), opts=opts)


def g_rect(rec):
    rng = rec.rng
    nx, ny = int(rng.integers(4, 7)), int(rng.integers(4, 7))
    norm = False
    x, y = U01(rec, (7,)), U01(rec, (7,))

    def build(d):
        s = I.RectBivariateBasisSpline(nx, ny, normalize=norm)
        b = s.bases(d["x"], d["y"])
        return lambda c: s.project(b, c)

    return Ev(f"rect{nx}x{ny}", build, {"x": x, "y": y}, (cf(rec, (nx, ny)),), split=("x", "y"))


def g_cubic(rec):
    n = int(rec.rng.integers(4, 10))
    xs = rec.arr(np.sort(rec.rng.uniform(0, 1, n)) + np.arange(n) * 0.3)
    x = rec.arr(rec.rng.uniform(xs[0], xs[-1], 15))
    return Ev(f"cubic{n}", lambda d: lambda y: I.NaturalCubicUnivariateSpline(jnp.asarray(d["xs"]), jnp.asarray(y))(jnp.asarray(d["x"])), {"xs": xs, "x": x}, (cf(rec, n),), split=("x",))


def opts_for(rec, logx=False):
    rng = rec.rng
    o = {}
    if rng.random() < 0.5:
        o["degree"] = int(rng.choice([2, 3, 4]))
    if rng.random() < 0.5:
        o["normalize"] = bool(rng.random() < 0.6)
    return o


def g_single(rec):
    rng = rec.rng
    cls = variant(rec, ["BSplineSpinMagnitude", "BSplineSpinTilt", "BSplineChiEffective", "BSplineSymmetricChiEffective", "BSplineChiPrecess", "BSplineRatio", "BSplineMass"])
    sp, si = shp(rec)
    if cls == "BSplineMass":
        a, b = masses(rec, sp)[0], masses(rec, si)[0]
    elif "Eff" in cls or "Tilt" in cls:
        a, b = U01(rec, sp, -0.98), U01(rec, si, -0.98)
    else:
        a, b = U01(rec, sp, 0.06), U01(rec, si, 0.06)
    if cls == "BSplineSymmetricChiEffective":
        a, b = np.abs(a), np.abs(b)
    n = int(rng.integers(7, 14))
    o = opts_for(rec)

    def build(d, o):
        m = getattr(B, cls)(n, d["pe"], d["inj"], **o)
        return lambda c: (m(c, pe_samples=True), m(c, pe_samples=False))

    return Ev(f"{cls}{n}{sorted(o)}", build, {"pe": a, "inj": b}, (cf(rec, n),), opts=o, split=("pe", "inj"))


def g_sep(rec):
    rng = rec.rng
    c = variant(rec, ["mag", "mags", "tilt", "tilts", "pl", "plpk", "bsbs", "iid", "ind", "eff"])
    sp, si = shp(rec)
    n, n2 = int(rng.integers(6, 12)), int(rng.integers(6, 12))
    o = opts_for(rec)
    kw = lambda a, b: {a: opts_for(rec), b: opts_for(rec)} if rng.random() < 0.6 else {}  # noqa: E731
    if c in ("mag", "mags", "tilt", "tilts"):
        lo = -0.98 if "t" in c else 0.02
        d = {k: U01(rec, s, lo) for k, s in (("a", sp), ("b", sp), ("c", si), ("d", si))}
        cls = {"mag": S.BSplineIIDSpinMagnitudes, "mags": S.BSplineIndependentSpinMagnitudes, "tilt": S.BSplineIIDSpinTilts, "tilts": S.BSplineIndependentSpinTilts}[c]
        if c in ("mag", "tilt"):
            def build(d, o):
                m = cls(n, d["a"], d["b"], d["c"], d["d"], **o)
                return lambda x: (m(x, pe_samples=True), m(x, pe_samples=False))
            return Ev(c + str(n), build, d, (cf(rec, n),), opts=o, split=("a", "b", "c", "d"))
        o = kw("kwargs1", "kwargs2") if c == "mags" else kw("kwargs1", "kwargs2")

        def build(d, o):
            m = cls(n, n2, d["a"], d["b"], d["c"], d["d"], **o)
            return lambda x, y: (m(x, y, pe_samples=True), m(x, y, pe_samples=False))
        return Ev(c + f"{n},{n2}", build, d, (cf(rec, n), cf(rec, n2)), opts=o, split=("a", "b", "c", "d"))
    (m1, q), (m1i, qi) = masses(rec, sp), masses(rec, si)
    if c == "pl":
        def build(d, o):
            m = S.BSplinePrimaryPowerlawRatio(n, d["a"], d["c"], **o)
            return lambda x, b: (m(d["a"], d["b"], b, 2.2, x, pe_samples=True), m(d["c"], d["d"], b, 2.2, x, pe_samples=False))
        return Ev(c + str(n), build, {"a": m1, "b": q, "c": m1i, "d": qi}, (cf(rec, n), sc(rec, 0.2, 3)), opts=o, split=("a", "b", "c", "d"))
    if c == "plpk":
        def build(d, o):
            m = S.PLPeakPrimaryBSplineRatio(n, d["b"], d["d"], **o)
            f = lambda z, p, w: m(z, *p[1:], p[0], pe_samples=w)  # noqa: E731
            return lambda *p: (f(d["a"], p, True), f(d["c"], p, False))
        return Ev(c + str(n), build, {"a": m1, "b": q, "c": m1i, "d": qi}, (cf(rec, n), sc(rec, -4, -1.5), sc(rec, 2.2, 5), sc(rec, 80, 95), sc(rec, 25, 40), sc(rec, 3, 9), sc(rec, 0.05, 0.5)), opts=o, split=("a", "b", "c", "d"))
    if c == "bsbs":
        o = kw("kwargs_m", "kwargs_q")

        def build(d, o):
            m = S.BSplinePrimaryBSplineRatio(n, n2, d["a"], d["c"], d["b"], d["d"], **o)
            return lambda x, y: (m(x, y, pe_samples=True), m(x, y, pe_samples=False))
        return Ev(c + f"{n},{n2}", build, {"a": m1, "b": q, "c": m1i, "d": qi}, (cf(rec, n), cf(rec, n2)), opts=o, split=("a", "b", "c", "d"))
    dm = {"a": m1, "b": rec.arr(np.maximum(m1 * q, 2.3)), "c": m1i, "d": rec.arr(np.maximum(m1i * qi, 2.3))}
    if c == "iid":
        def build(d, o):
            m = S.BSplineIIDComponentMasses(n, d["a"], d["b"], d["c"], d["d"], **o)
            return lambda x, b: (m(x, beta=b, pe_samples=True), m(x, beta=b, pe_samples=False))
        return Ev(c + str(n), build, dm, (cf(rec, n), sc(rec, 0, 2)), opts=o, split=("a", "b", "c", "d"))
    if c == "ind":
        o = kw("kwargs1", "kwargs2")

        def build(d, o):
            m = S.BSplineIndependentComponentMasses(n, n2, d["a"], d["b"], d["c"], d["d"], **o)
            return lambda x, y, b: (m(x, y, beta=b, pe_samples=True), m(x, y, beta=b, pe_samples=False))
        return Ev(c + f"{n},{n2}", build, dm, (cf(rec, n), cf(rec, n2), sc(rec, 0, 2)), opts=o, split=("a", "b", "c", "d"))
    d = {"a": U01(rec, sp, -0.98), "b": U01(rec, sp), "c": U01(rec, si, -0.98), "d": U01(rec, si)}
    o = kw("kwargs_e", "kwargs_p")

    def build(d, o):
        m = S.BSplineEffectiveSpinDims(n, n2, d["a"], d["b"], d["c"], d["d"], **o)
        return lambda x, y: (m(x, y, pe_samples=True), m(x, y, pe_samples=False))
    return Ev("eff" + f"{n},{n2}", build, d, (cf(rec, n), cf(rec, n2)), opts=o, split=("a", "b", "c", "d"))


def g_pert(rec):
    rng = rec.rng
    (m1, q), (m1i, qi) = masses(rec, (2, 9)), masses(rec, (11,))
    n, n2 = int(rng.integers(5, 10)), int(rng.integers(5, 9))
    d = {"a": m1, "b": q, "c": m1i, "d": qi}
    al, be = sc(rec, 1.3, 4), sc(rec, 0.2, 3)
    if rng.random() < 0.6:
        def build(d):
            m = P.PowerlawBasisSplinePrimaryPowerlawRatio(n, d["a"], d["c"], mmin=2.0, m2min=2.0, mmax=100.0)
            f = lambda x, y, al, be, c: m(x, y, alpha=al, beta=be, mmin=2.0, mmax=100.0, cs=c)  # noqa: E731
            return lambda *p: (f(jnp.asarray(d["a"]), d["b"], *p), f(jnp.asarray(d["c"]), d["d"], *p))
        return Ev(f"pert{n}", build, d, (al, be, cf(rec, n)), split=("a", "b", "c", "d"))

    def build(d):
        m = P.PowerlawBasisSplinePrimaryRatio(n, n2, d["a"], d["b"], d["c"], d["d"], mmin=2.0, mmax=100.0)
        f = lambda x, y, al, be, c, v: m(jnp.asarray(x), jnp.asarray(y), alpha=al, beta=be, mmin=2.0, mmax=100.0, cs=c, vs=v)  # noqa: E731
        return lambda *p: (f(d["a"], d["b"], *p), f(d["c"], d["d"], *p))
    return Ev(f"pert{n},{n2}", build, d, (al, be, cf(rec, n), cf(rec, n2)), vmap=False)


def g_z(rec):
    rng = rec.rng
    c = variant(rec, ["pl", "plspline", "bspline", "setup"])
    sp, si = shp(rec)
    n = int(rng.integers(5, 10))
    d = {"redshift": U01(rec, sp, 0.05, 1.8), "zi": U01(rec, si, 0.03, 1.6)}
    if c == "pl":
        def build(d):
            m = M.PowerlawRedshiftModel(d["redshift"], d["zi"])
            return lambda l: (m(d["redshift"], l), m(d["zi"], l), m.normalization(l), m.log_prob(d["zi"], l))
        return Ev("z:pl", build, d, (sc(rec, -2, 5),))
    if c == "bspline":
        d.update(v=rec.arr(LVK.dVcdz(d["redshift"])), vi=rec.arr(LVK.dVcdz(d["zi"])))

        def build(d):
            m = B.BSplineRedshift(n, d["redshift"], d["zi"], d["v"], d["vi"])
            return lambda x: (m(x, pe_samples=True), m(x, pe_samples=False), m.normalization(x))
        return Ev(f"z:bspline{n}", build, d, (cf(rec, n),))

    def build(d):
        m = P.PowerlawSplineRedshiftModel(n, d["redshift"], d["zi"]) if c == "plspline" else U.setup_powerlaw_spline_redshift_model(d, {"redshift": d["zi"]}, n)
        return lambda l, x: (m(d["redshift"], l, x), m(d["zi"], l, x), m.normalization(l, x))
    return Ev(f"z:plspline{n}", build, d, (sc(rec, -2, 5), cf(rec, n)))


def g_setup(rec):
    rng = rec.rng
    sp, si = shp(rec)
    (m1, q), (m1i, qi) = masses(rec, sp), masses(rec, si)
    pe = {"mass_1": m1, "mass_ratio": q, **{k: U01(rec, sp) for k in ("a_1", "a_2", "cos_tilt_1", "cos_tilt_2")}}
    ij = {"mass_1": m1i, "mass_ratio": qi, **{k: U01(rec, si) for k in ("a_1", "a_2", "cos_tilt_1", "cos_tilt_2")}}
    n, n2 = int(rng.integers(6, 12)), int(rng.integers(6, 12))
    if rng.random() < 0.5:
        def build(d):
            m = U.setup_bspline_mass_models(d["pe"], d["inj"], n, n2, 2.0, 100.0)
            return lambda x, y: (m(x, y, pe_samples=True), m(x, y, pe_samples=False))
        return Ev(f"setup mass{n},{n2}", build, {"pe": pe, "inj": ij}, (cf(rec, n), cf(rec, n2)))

    def build(d):
        a, t = U.setup_bspline_spin_models(d["pe"], d["inj"], n, n2, IID=True)
        return lambda x, y: (a(x, pe_samples=True), t(y, pe_samples=False))
    return Ev(f"setup spin{n},{n2}", build, {"pe": pe, "inj": ij}, (cf(rec, n), cf(rec, n2)))


def g_dist(rec):
    rng = rec.rng
    c = variant(rec, ["Powerlaw", "Sine", "Cosine", "PowerlawRedshift", "Smoothed", "BSpline"])
    u = U01(rec, (9,))
    if c == "Powerlaw":
        x = masses(rec, (13,))[0]
        return Ev("dist:pl", lambda d: lambda a, lo, hi: (lambda m: (m.log_prob(d["x"]), m.cdf(d["x"]), m.icdf(d["u"]), m.sample(jax.random.PRNGKey(3), (4,))))(ND.Powerlaw(a, lo, hi)), {"x": x, "u": u}, (sc(rec, -4, -1.5), sc(rec, 2, 3.5), sc(rec, 96, 100)))
    if c in ("Sine", "Cosine"):
        cls = getattr(ND, c)
        lo, hi = (sc(rec, 0.1, 0.8), sc(rec, 1.5, 3)) if c == "Sine" else (sc(rec, -1.4, -0.5), sc(rec, 0.5, 1.4))
        x = rec.arr(rng.uniform(lo, hi, 9))
        return Ev("dist:" + c, lambda d: lambda lo, hi: (lambda m: (m.log_prob(d["x"]), m.icdf(d["u"]), m.sample(jax.random.PRNGKey(3), (4,))))(cls(lo, hi)), {"x": x, "u": u}, (lo, hi))
    if c == "PowerlawRedshift":
        g = rec.arr(np.linspace(1e-9, 2.3, 400))
        d = {"g": g, "v": rec.arr(LVK.dVcdz(g)), "x": U01(rec, (3, 5), 0.1, 2.2), "u": u}
        return Ev("dist:z", lambda d: lambda l: (lambda m: (m.log_prob(d["x"]), m.cdf(d["x"]), m.icdf(d["u"]), m.norm))(ND.PowerlawRedshift(l, 2.3, jnp.asarray(d["g"]), jnp.asarray(d["v"]))), d, (sc(rec, -2, 5),))
    if c == "Smoothed":
        x = masses(rec, (13,))[0]
        return Ev("dist:spl", lambda d: lambda a, lo, hi, p, r: ND.PowerlawSmoothedPowerlaw(a, lo, hi, p, r, 2.0, 100.0).log_prob(d["x"]), {"x": x}, (sc(rec, -4, -1.5), sc(rec, 8, 12), sc(rec, 50, 70), sc(rec, 3, 6), sc(rec, 2, 5)), split=("x",))
    n = int(rng.integers(5, 10))
    g = rec.arr(np.linspace(0.0, 1.0, 300))
    d = {"g": g, "dm": rec.arr(np.asarray(I.BSpline(n, xrange=(0, 1), normalize=False).bases(g))), "x": U01(rec, (9,)), "u": u}
    return Ev(f"dist:bs{n}", lambda d: lambda c: (lambda m: (m.log_prob(d["x"]), m.cdf(d["x"]), m.icdf(d["u"]), m.norm))(ND.BSplineDistribution(0.0, 1.0, jnp.asarray(c), jnp.asarray(d["g"]), jnp.asarray(d["dm"]))), d, (cf(rec, n),))


def g_est(rec):
    rng = rec.rng
    E, Sn, n = 3, 15, 60
    log = bool(rng.random() < 0.5)
    w, v = rng.normal(0, 1, (E, Sn)), rng.normal(0, 1, n)
    w, v = (rec.arr(w), rec.arr(v)) if log else (rec.arr(np.exp(w)), rec.arr(np.exp(v)))
    c = variant(rec, ["events", "eff", "like"])
    if c == "events":
        return Ev("est:events", lambda d: lambda w: A.per_event_log_bayes_factors(w, log=log), {}, (w,))
    if c == "eff":
        return Ev("est:eff", lambda d: lambda v: A.detection_efficiency(v, n * 30, log=log), {}, (v,))
    opt = dict(marginalize_selection=bool(rng.random() < 0.5), min_neff_cut=bool(rng.random() < 0.5), reconstruct_rate=bool(rng.random() < 0.5))
    extra = {}
    if opt["reconstruct_rate"]:
        extra["surveyed_hypervolume"] = 1e10
    m1, q = masses(rec, (E, Sn))
    m1i, qi = masses(rec, (n,))
    ppc = bool(rng.random() < 0.5)
    d = {"pe": {"mass_1": m1, "mass_ratio": q}, "inj": {"mass_1": m1i, "mass_ratio": qi}, "names": ["mass_1", "mass_ratio"]}

    def build(d):
        def f(w, v):
            def model():
                k = dict(posterior_predictive_check=True, param_names=d["names"], pedata={a: jnp.asarray(b) for a, b in d["pe"].items()} if rng_jax else d["pe"], injdata=d["inj"], m1min=2.0, m2min=1.0) if ppc else {}
                A.hierarchical_likelihood(w, v, n * 30, E, 0.8, log=log, **opt, **extra, **k)
            tr = handlers.trace(handlers.seed(model, rng_seed=3)).get_trace()
            return {k: (s["value"] if s["type"] == "deterministic" else s["fn"].log_prob(s["value"])) for k, s in tr.items()}
        return f

    rng_jax = True
    return Ev("est:like", build, d, (w, v), vmap=False, jit=not ppc)


def g_conv(rec):
    rng = rec.rng
    s = (int(rng.integers(3, 9)),) if rng.random() < 0.5 else (3, 4)
    q, a, b, x, y = U01(rec, s, 0.05), U01(rec, s), U01(rec, s), U01(rec, s, -0.98), U01(rec, s, -0.98)
    c = variant(rec, ["chieff", "chip", "muvar", "ab", "iso", "aligned", "chi_p"])
    if c == "chieff":
        return Ev(c, lambda d: lambda *p: C.chieff_from_q_component_spins(*p), {}, (q, a, b, x, y))
    if c == "chip":
        return Ev(c, lambda d: lambda *p: C.chip_from_q_component_spins(*p), {}, (q, a, b, x, y), jit=False)
    if c == "muvar":
        return Ev(c, lambda d: lambda *p: C.mu_var_from_alpha_beta(*p, xmax=0.9), {}, (U01(rec, s, 1, 5), U01(rec, s, 1, 5)))
    if c == "ab":
        return Ev(c, lambda d: lambda *p: C.alpha_beta_from_mu_var(*p, xmax=0.9), {}, (U01(rec, s, 0.3, 0.5), U01(rec, s, 0.01, 0.03)))
    f = {"iso": R.chi_effective_prior_from_isotropic_spins, "aligned": R.chi_effective_prior_from_aligned_spins, "chi_p": R.chi_p_prior_from_isotropic_spins}[c]
    q, z = rng.uniform(0.1, 0.95, 9), rng.uniform(0.03, 0.9, 9) * (1 if c == "chi_p" else rng.choice([-1, 1], 9))
    am = float(rng.choice([1.0, 0.9, 0.95]))
    return Ev(f"prior:{c}{am}", lambda d: lambda: f(d["x"], d["q"], am), {"x": z, "q": q}, (), jit=False, split=("x", "q"))


def g_misc(rec):
    rng = rec.rng
    c = variant(rec, ["diff", "prior", "resample", "ppd", "spinppd", "spinppd", "config", "config", "ppd:peak", "ppd:z"])
    n = int(rng.integers(6, 12))
    if c == "diff":
        deg = int(rng.choice([1, 2, 3]))
        return Ev(f"diff{deg}", lambda d: lambda x, t: apply_difference_prior(x, t, degree=deg), {}, (cf(rec, n), sc(rec, 0.5, 3)))
    if c == "prior":
        nm = str(rng.choice(["", "a", "b"])) or None

        def build(d):
            def f(t):
                def model():
                    U.bspline_mass_prior(n, n + 1, m_tau=t, q_tau=t, name=nm)
                    U.bspline_spin_prior(n, n + 2, a_tau=t, ct_tau=t, name=nm, IID=True)
                    U.bspline_redshift_prior(n, t, name=nm)
                tr = handlers.trace(handlers.seed(model, rng_seed=5)).get_trace()
                return {k: (s["value"], s["fn"].log_prob(s["value"])) for k, s in tr.items()}
            return f
        return Ev(f"coefficient prior {n}{nm}", build, {}, (sc(rec, 0.5, 3),), vmap=False)
    if c == "resample":
        m1, q = masses(rec, (40,))
        dat = rec.arr(np.array([m1, q, rng.uniform(0.5, 2, 40)]))
        pm = {"mass_1": 0, "mass_ratio": 1, "prior": 2}

        def build(d):
            return lambda al: resample_injections(jax.random.PRNGKey(4), lambda x, slope: x[0] ** slope, d["dat"], 4000, d["pm"], slope=al)
        return Ev("resample", build, {"dat": jnp.asarray(dat), "pm": pm}, (sc(rec, -3, 0),), jit=False)
    if c == "config":
        (m1, q), (m1i, qi) = masses(rec, (3, 12)), masses(rec, (40,))
        blk = lambda m, q, s: {"mass_1": jnp.asarray(m), "mass_ratio": jnp.asarray(q), "redshift": jnp.asarray(U01(rec, s, 0.05, 1.5)), "prior": jnp.asarray(U01(rec, s, 0.5, 2))}  # noqa: E731
        nd = numpyro.distributions
        md = {"mass_1": PA.PopMixtureModel(nd.MixtureGeneral, nd.Categorical, ["probs"], [ND.Powerlaw, nd.TruncatedNormal], [["alpha", "minimum", "maximum"], ["loc", "scale", "low", "high"]]) if rng.random() < 0.5 else PA.PopModel(ND.Powerlaw, ["alpha", "minimum", "maximum"]),
              "mass_ratio": PA.PopModel(ND.Powerlaw, ["alpha", "minimum", "maximum"]), "redshift": PA.PopModel(ND.PowerlawRedshift, ["lamb", "maximum"])}
        pre = "mass_1_component_1_" if isinstance(md["mass_1"], PA.PopMixtureModel) else "mass_1_"
        pd = {pre + "alpha": PA.PopPrior(nd.Normal, {"loc": -2.0, "scale": 3.0}), pre + "minimum": 2.0, pre + "maximum": 100.0, "mass_ratio_alpha": PA.PopPrior(nd.Uniform, {"low": -1.0, "high": 6.0}),
              "mass_ratio_minimum": 0.01, "mass_ratio_maximum": 1.0, "redshift_lamb": PA.PopPrior(nd.Normal, {"loc": 0.0, "scale": 3.0}), "redshift_maximum": 1.9}
        if pre != "mass_1_":
            pd.update(mass_1_mixture_dist_probs=PA.PopPrior(nd.Dirichlet, {"concentration": jnp.ones(2)}), mass_1_component_2_loc=30.0, mass_1_component_2_scale=6.0, mass_1_component_2_low=2.0, mass_1_component_2_high=100.0)
        ppc = bool(rng.random() < 0.4)
        sites = [pre + "alpha", "mass_ratio_alpha", "redshift_lamb"]

        def build(d):
            m = A.construct_hierarchical_model(d["md"], d["pd"], min_neff_cut=False, posterior_predictive_check=ppc)

            def f(*p):
                tr = handlers.trace(handlers.seed(handlers.substitute(lambda: m(d["pe"], d["inj"], 4000, 3, 0.7), data=dict(zip(sites, p))), rng_seed=2)).get_trace()
                return {k: (s["value"] if s["type"] == "deterministic" else s["fn"].log_prob(s["value"])) for k, s in tr.items() if s["type"] in ("deterministic", "sample") and not k.endswith("_probs")}
            return f
        return Ev(f"configured model{len(pd)}", build, {"md": md, "pd": pd, "pe": blk(m1, q, (3, 12)), "inj": blk(m1i, qi, (40,))}, (sc(rec, -4, -1.5), sc(rec, 0.2, 3), sc(rec, -1, 4)), jit=not ppc, vmap=False)
    if c in ("ppd:peak", "ppd:z"):
        k = int(rng.integers(1, 4))
        d = {"r": rec.arr(rng.uniform(5, 40, k)), "f": rec.arr(rng.uniform(0.2, 1, k)), "al": rec.arr(rng.uniform(-4, -1.5, k)), "be": rec.arr(rng.uniform(0.2, 3, k)), "mu": rec.arr(rng.uniform(25, 40, k)), "sg": rec.arr(rng.uniform(3, 9, k)), "la": rec.arr(rng.uniform(0.05, 0.5, k)),
             "z": U01(rec, (2, 9), 0.05, 1.5), "zi": U01(rec, (11,), 0.03, 1.6), "cs": cf(rec, (k, n - 1))}
        if c == "ppd:peak":
            return Ev(c, lambda d: lambda: K.calculate_powerlaw_peak_mass_ppds(d["al"], d["be"], d["mu"], d["sg"], d["la"], 3.0, 90.0, rate=d["r"], pop_frac=d["f"]), d, (), jit=False)

        def build(d):
            m, s = M.PowerlawRedshiftModel(d["z"], d["zi"]), P.PowerlawSplineRedshiftModel(n, d["z"], d["zi"])
            return lambda: (K.calculate_powerlaw_rate_of_z_ppds(d["be"], d["r"], m, pop_frac=d["f"]), K.calculate_powerlaw_spline_rate_of_z_ppds(d["be"], d["cs"], d["r"], s, pop_frac=d["f"]))
        return Ev(c, build, d, (), jit=False)
    if c == "ppd":
        k = int(rng.integers(1, 4))
        v = [rec.arr(rng.uniform(*r, k)) for r in ((1.2, 4), (1.2, 4), (5, 40), (0.2, 1))]
        return Ev("ppd:beta", lambda d: lambda: K.calculate_beta_spin_mag(d["a"], d["b"], rate=d["r"], pop_frac=d["f"]), {"a": v[0], "b": v[1], "r": v[2], "f": v[3]}, (), jit=False)
    k = int(rng.integers(1, 4))
    d = {"a": cf(rec, (k, n)), "t": cf(rec, (k, n + 1)), "n": {"a": n, "tilt": n + 1}, "r": rec.arr(rng.uniform(5, 40, k)), "f": rec.arr(rng.uniform(0.2, 1, k))}
    return Ev("ppd:spin", lambda d: lambda: K.calculate_bspline_spin_ppds(d["a"], d["t"], d["n"], rate=d["r"], pop_frac=d["f"]), d, (), jit=False)


GEN = {"density": g_density, "parametric": g_parametric, "spline": g_spline, "rect": g_rect, "cubic": g_cubic, "single": g_single, "sep": g_sep, "pert": g_pert, "z": g_z, "setup": g_setup, "dist": g_dist, "est": g_est, "conv": g_conv, "misc": g_misc}
W = np.array([2, 2, 3, 1, 1, 3, 4, 1.5, 2, 1, 2, 2, 2, 4.0])


SWEEP = [(g, i) for g, n in dict(density=7, parametric=8, spline=3, rect=1, cubic=1, single=7, sep=10, pert=2, z=4, setup=2, dist=6, est=3, conv=7, misc=10).items() for i in range(n)]


class Live:
    """an evaluable with its caller data, an instance, and what it answered first"""

    def __init__(self, rec, ev):
        self.rec, self.ev = rec, ev
        self.caller = {"data": ev.data, "params": list(ev.params), "opts": ev.opts}
        self.before = snap(self.caller)
        self.f = self.make()
        self.first = self.get()

    def make(self, data=None):
        ev = self.ev
        data = ev.data if data is None else data
        return self.rec.call(ev.build, data, **({"o": ev.opts} if ev.opts is not None else {}))

    def get(self, f=None, params=None):
        p = self.ev.params if params is None else params
        self.rec.ev("evaluation:" + self.ev.name.split("/")[0].rstrip("0123456789,"))
        return leaves(self.rec.call(f or self.f, *p))

    def untouched(self, when):
        self.rec.true(snap(self.caller) == self.before, f"{self.ev.name}: caller's arrays or dictionaries changed ({when})")

    def same(self, got, when):
        ok = len(got) == len(self.first) and all(a.shape == b.shape and a.dtype == b.dtype and np.array_equal(a, b, equal_nan=True) for a, b in zip(got, self.first))
        self.rec.true(ok, f"{self.ev.name}: different answer {when}", first=self.first[0], got=got[0] if got else None)
        self.rec.ev("bitwise comparisons", len(self.first))

    def near(self, got, want, when, amp=1.0):
        rec = self.rec
        rec.true(len(got) == len(want), f"{self.ev.name}: number of results {when}")
        for a, b in zip(got, want):
            b = np.asarray(b, float)
            fin = b[np.isfinite(b)]
            top = np.abs(fin).max() if fin.size else 0.0
            big = np.abs(b) > 1e30
            rec.close(np.where(big, np.sign(b) * (np.abs(np.asarray(a, float)) > 1e29), np.asarray(a, float)) if np.shape(a) == b.shape else a, np.where(big, np.sign(b), b), f"{self.ev.name}: {when}", amp * rec.tol(3e-4, 1e-9), amp * rec.tol(2e-5, 1e-10) * (top if top < 1e30 else 1.0) + 1e-35)
        rec.ev("mode comparisons", len(want))


def pick(rec, n):
    names = list(GEN)
    out = []
    for _ in range(n):
        g = str(rec.rng.choice(names, p=W / W.sum()))
        out.append((g, GEN[g](rec)))
    rec.note(evaluables=[e.name for _, e in out])
    return out


def perturbed(rec, ev):
    """different parameter values of the same shapes"""
    out = []
    for v in ev.params:
        v = np.asarray(v)
        out.append(rec.arr(v * (1 + 0.02 * rec.rng.uniform(-1, 1, v.shape))))
    return tuple(out)


def history(rec):
    """random sequences of evaluations of several live instances"""
    rng = rec.rng
    base = pick(rec, 2)
    if rng.random() < 0.7:  # another of the same family with other options
        base.append((base[0][0], GEN[base[0][0]](rec)))
    L = [Live(rec, e) for _, e in base]
    for step in range(int(rng.integers(4, 8))):
        i = int(rng.integers(len(L)))
        op = str(rng.choice(["again", "again", "other", "fresh", "grad"]))
        x = L[i]
        if op == "again":
            x.same(x.get(), "when repeated after other evaluations")
        elif op == "other":
            x.get(params=perturbed(rec, x.ev))
        elif op == "fresh":
            x.same(x.get(f=x.make()), "from an equal new instance")
        elif x.ev.jit and x.ev.params:
            # traced evaluation must leave nothing behind
            jax.eval_shape(lambda *p: x.f(*p), *[jnp.asarray(v) for v in x.ev.params])
            rec.ev("traced")
        x.untouched(op)
    for x in L:
        x.same(x.get(), "at the end of the history")
        x.untouched("end")


def modes(rec):
    rng = rec.rng
    (_, ev), = pick(rec, 1)
    x = Live(rec, ev)
    x.untouched("first evaluation")
    if not ev.params or not ev.jit:
        x.same(x.get(), "when repeated")
        x.untouched("repeat")
        # arguments of another container type: jax arrays
        return
    jp = tuple(jnp.asarray(v) for v in ev.params)
    x.near(x.get(params=jp), x.first, "jax parameters instead of numpy ones")
    fj = jax.jit(lambda *p: x.f(*p))
    x.near(leaves(rec.call(fj, *jp)), x.first, "compiled")
    rec.ev("compiled")
    if ev.vmap:
        ps = [jp] + [tuple(jnp.asarray(v) for v in perturbed(rec, ev)) for _ in range(2)]
        st = [jnp.stack([p[i] for p in ps]) for i in range(len(jp))]
        want = [x.get(params=p) for p in ps]
        got = leaves(rec.call(jax.vmap(lambda *p: x.f(*p)), *st))
        for j in range(3):
            x.near([g[j] if np.ndim(g) == np.ndim(want[j][i]) + 1 else g for i, g in enumerate(got)], want[j], f"vectorised over parameters (entry {j})")
        rec.ev("vectorised")
    x.same(x.get(), "after being compiled and vectorised")
    x.untouched("compiled and vectorised")


def split(rec):
    rng = rec.rng
    for _ in range(40):
        g = str(rng.choice(list(GEN), p=W / W.sum()))
        ev = GEN[g](rec)
        if ev.split:
            break
    rec.note(evaluable=ev.name)
    x = Live(rec, ev)
    full = x.first
    if len(full) == 2:
        halves = []
        for h in (0, 1):
            halves.append(x.get(f=x.make(cut(ev, h, rng))))
    else:
        halves = [x.get(f=x.make(cut(ev, h, rng))) for h in (0, 1)]
    got = [np.concatenate([a, b], axis=-1) for a, b in zip(*halves)]
    x.near(got, full, "data in two pieces", 3.0)
    # permuted data: permuted answer
    perm = {}

    def p(k, v):
        m = v.shape[-1]
        perm.setdefault(m, rng.permutation(m))
        return v[..., perm[m]]
    d = {k: p(k, v) if k in ev.split else v for k, v in ev.data.items()}
    got = x.get(f=x.make(d))
    x.near(got, [f[..., perm[f.shape[-1]]] for f in full], "data in another order", 3.0)
    x.same(x.get(), "after building others from parts of the data")
    x.untouched("pieces")


def cut(ev, h, rng):
    out = {}
    for k, v in ev.data.items():
        if k in ev.split:
            m = v.shape[-1]
            c = m // 2 + (0 if m < 6 else 1)
            v = v[..., :c] if h == 0 else v[..., c:]
        out[k] = v
    return out


def direct(rec):
    """every public function of the arrays a caller owns: name -> (function, arguments, keywords)"""
    rng = rec.rng
    u = lambda lo, hi, s=(7,): rng.uniform(lo, hi, s)  # noqa: E731
    m1 = u(6, 90)
    q = u(2.5 / m1, 1.0)
    ct = lambda: u(-0.98, 0.98)  # noqa: E731
    k = int(rng.integers(1, 4))
    r = lambda: dict(rate=u(5, 40, k), pop_frac=u(0.2, 1, k))  # noqa: E731
    n = int(rng.integers(6, 10))
    c = lambda *s: rng.normal(0, 1, s)  # noqa: E731
    z, zi = u(0.05, 1.5, (2, 9)), u(0.03, 1.6, (11,))
    w = np.exp(c(3, 15))
    mz = lambda: M.PowerlawRedshiftModel(z, zi)  # noqa: E731
    sz = lambda: P.PowerlawSplineRedshiftModel(n, z, zi)  # noqa: E731
    out = {
        "powerlaw_pdf": (D.powerlaw_pdf, (m1, u(-4, -1.5), u(2, 4), u(92, 99)), {}), "powerlaw_pdf floor": (D.powerlaw_pdf, (m1, -2.0, 10.0, 50.0), dict(floor=1e-8)),
        "powerlaw_logit_pdf": (D.powerlaw_logit_pdf, (m1, u(-4, -1.5), u(2, 4), u(92, 99), u(1, 4), u(1, 4)), {}), "truncnorm_pdf": (D.truncnorm_pdf, (m1, u(20, 40), u(3, 9), u(2, 4), u(92, 99)), {}),
        "truncnorm_pdf log": (D.truncnorm_pdf, (m1, u(3, 4), u(0.3, 1), u(2, 4), u(92, 99)), dict(log=True)), "betadist": (D.betadist, (u(0, 0.9), u(1, 5), u(1, 5)), dict(scale=u(0.95, 1))),
        "smooth": (D.smooth, (u(2, 9), m1, u(3, 8)), {}), "logistic_function": (D.logistic_function, (m1, u(1, 2), u(0.1, 1), u(20, 50)), {}), "logistic_unit": (D.logistic_unit, (m1, u(20, 50)), dict(sgn=-1, sc=u(0.1, 2))),
        "log_logistic_unit": (D.log_logistic_unit, (m1, u(20, 50)), dict(sgn=1, sc=u(0.1, 2))),
        "powerlaw_primary_ratio_pdf": (M.powerlaw_primary_ratio_pdf, (m1, q, u(-4, -1.5), u(0, 3), u(2, 2.4), u(92, 99)), {}), "falloff": (M.powerlaw_primary_ratio_falloff_pdf, (m1, q, u(-4, -1.5), u(0, 3), u(2, 2.4), u(92, 99), u(1, 3)), {}),
        "plpeak": (M.plpeak_primary_ratio_pdf, (m1, q, u(-4, -1.5), u(0, 3), u(2, 2.4), u(92, 99), u(20, 40), u(3, 9), u(0, 1)), dict(delta=u(2, 6))), "plpeak primary": (M.plpeak_primary_pdf, (m1, u(-4, -1.5), u(2, 2.4), u(92, 99), u(20, 40), u(3, 9), u(0, 1)), {}),
        "beta spin": (M.beta_spin_magnitude, (u(0, 0.9), u(1, 5), u(1, 5)), {}), "iid spin": (M.iid_spin_magnitude, (u(0, 0.9), u(0, 0.9), u(1, 5), u(1, 5)), dict(amax=u(0.95, 1))),
        "independent spin": (M.independent_spin_magnitude_beta_dist, (u(0, 0.9), u(0, 0.9), u(1, 5), u(1, 5), u(1, 5), u(1, 5)), dict(amax1=u(0.95, 1), amax2=u(0.95, 1))), "tilt": (M.mixture_isoalign_spin_tilt, (ct(), u(0, 1), u(0.3, 2)), {}),
        "iid tilt": (M.iid_spin_tilt, (ct(), ct(), u(0, 1), u(0.3, 2)), {}), "independent tilt": (M.independent_spin_tilt, (ct(), ct(), u(0, 1), u(0, 1), u(0.3, 2), u(0.3, 2)), {}), "default tilt": (M.default_spin_tilt, (ct(), ct(), u(0, 1), u(0.3, 2)), {}),
        "chi_eff": (C.chieff_from_q_component_spins, (q, u(0, 1), u(0, 1), ct(), ct()), {}), "chi_p": (C.chip_from_q_component_spins, (q, u(0, 1), u(0, 1), ct(), ct()), {}), "mu var": (C.mu_var_from_alpha_beta, (u(1, 5), u(1, 5)), dict(xmax=u(0.8, 1.2))),
        "alpha beta": (C.alpha_beta_from_mu_var, (u(0.3, 0.5), u(0.01, 0.03)), dict(xmax=u(0.8, 1.2))), "alpha beta scalar": (C.alpha_beta_from_mu_var, (u(0.3, 0.5), u(0.01, 0.03)), dict(xmax=0.9)),
        "aligned prior": (R.chi_effective_prior_from_aligned_spins, (u(-0.9, 0.9), u(0.1, 0.9)), dict(a_max=0.95)), "isotropic prior": (R.chi_effective_prior_from_isotropic_spins, (u(-0.9, 0.9), u(0.1, 0.9)), dict(a_max=0.95)),
        "isotropic prior at zero": (R.chi_effective_prior_from_isotropic_spins, (np.array([0.0, 0.5, 0.3]), np.array([0.4, 1.0, 0.5])), {}), "precession prior": (R.chi_p_prior_from_isotropic_spins, (u(0.01, 0.9), u(0.1, 0.9)), dict(a_max=0.95)),
        "bayes factors": (A.per_event_log_bayes_factors, (w,), {}), "bayes factors log": (A.per_event_log_bayes_factors, (np.log(w),), dict(log=True)), "efficiency": (A.detection_efficiency, (w[0], 400.0), {}), "efficiency log": (A.detection_efficiency, (np.log(w[0]), 400.0), dict(log=True)),
        "difference prior": (apply_difference_prior, (c(n), np.float64(1.5)), dict(degree=2)),
        "cubic": (lambda x, y, t: I.NaturalCubicUnivariateSpline(x, y)(t), (np.sort(u(0, 1, 6)) + np.arange(6), c(6), u(0, 6, 9)), {}),
        "rectangle": (lambda x, y, cc: (lambda sp: sp.project(sp.bases(x, y), cc))(I.RectBivariateBasisSpline(5, 6, normalize=False)), (u(0, 1, (2, 3)), u(0, 1, (2, 3)), c(5, 6)), {}),
        "mass curves": (K.calculate_bspline_mass_ppds, (c(k, n), c(k, n + 1), {"m1": n, "q": n + 1}, 3.0, 90.0), r()),
        "power law peak curves": (K.calculate_powerlaw_peak_mass_ppds, (u(-4, -1.5, k), u(0, 3, k), u(25, 40, k), u(3, 9, k), u(0, 1, k), 3.0, 90.0), r()),
        "log peak curves": (K.calculate_peak_logm1_bspline_q_ppds, (u(3, 4, k), u(0.3, 1, k), c(k, n), {"q": n}, 3.0, 90.0), r()), "beta spin curves": (K.calculate_beta_spin_mag, (u(1, 5, k), u(1, 5, k)), r()),
        "tilt curves": (K.calculate_mixture_iso_aligned_spin_tilt, (u(0.3, 2, k), u(0, 1, k)), r()), "spin curves": (K.calculate_bspline_spin_ppds, (c(k, n), c(k, n + 1), {"a": n, "tilt": n + 1}), r()),
        "independent spin curves": (K.calculate_bspline_spin_ppds, (c(k, n), c(k, n + 1), {"a1": n, "tilt1": n + 1, "a2": n + 2, "tilt2": n}), dict(r(), a2_cs=c(k, n + 2), tilt2_cs=c(k, n))),
        "rate curves": (K.calculate_powerlaw_rate_of_z_ppds, (u(-1, 4, k), u(5, 40, k), mz()), dict(pop_frac=u(0.2, 1, k))), "spline rate curves": (K.calculate_powerlaw_spline_rate_of_z_ppds, (u(-1, 4, k), c(k, n - 1), u(5, 40, k), sz()), dict(pop_frac=u(0.2, 1, k))),
        "packaged posterior": (lambda d: {k: v.values for k, v in U.posterior_dict_to_xarray(d).items()}, ({"a": c(5), "b": c(5, 3)},), {}),
        "packaged curves": (lambda d, e: {k: v.values for k, v in U.pdf_dict_to_xarray(d, e, 5, subpop_names=["p", "r"]).items()}, ({"mass": [c(5, 3), c(5, 3)], "redshift": c(5, 4)}, {"mass": u(0, 1, (3,)), "redshift": u(0, 1, (4,))}), {}),
        "resampling": (lambda key, d, m: resample_injections(key, lambda x, slope: x[0] ** slope, d, 4000, m, slope=-1.5), (jax.random.PRNGKey(4), jnp.asarray([u(5, 90, 40), u(0.1, 1, 40), u(0.5, 2, 40)]), {"mass_1": 0, "mass_ratio": 1, "prior": 2}), {}),
    }
    for nm, f in (("dVcdz", LVK.dVcdz), ("logdVcdz", LVK.logdVcdz), ("z2DL", LVK.z2DL), ("z2Dc", LVK.z2Dc)):
        out["cosmology " + nm] = (f, (z,), {})
    return out


def lock(x):
    """make the caller's own NumPy arrays read-only; returns the ones to unlock"""
    mine = [v for v in jax.tree_util.tree_leaves(x) if isinstance(v, np.ndarray) and v.flags.writeable and v.flags.owndata]
    for v in mine:
        v.setflags(write=False)
    return mine


def unlock(mine):
    for v in mine:
        v.setflags(write=True)


def owned(rec):
    """one sweep over all public functions: caller-owned arrays survive, read-only ones are accepted, repeats agree bit for bit"""
    rng = rec.rng
    todo = list(direct(rec).items())
    part = [t for i, t in enumerate(todo) if i % 4 == (rec.index // 2) % 4]
    for nm, (f, args, kw) in part:
        wide = bool(rng.random() < 0.5)  # double precision input whatever the working precision
        cast = lambda v: (v if wide else rec.arr(v)) if isinstance(v, np.ndarray) and v.dtype == np.float64 else v  # noqa: E731
        args, kw = jax.tree_util.tree_map(cast, (args, kw))
        before = snap((args, kw))
        first = leaves(rec.call(f, *args, **kw))
        rec.true(snap((args, kw)) == before, f"{nm}: caller's arrays changed")
        mine = lock((args, kw))
        again = leaves(rec.call(f, *args, **kw))
        rec.true(snap((args, kw)) == before, f"{nm}: caller's arrays changed (read-only)")
        rec.true(len(first) == len(again) and all(np.array_equal(a, b, equal_nan=True) and a.dtype == b.dtype for a, b in zip(first, again)), f"{nm}: different answer when repeated on read-only arrays")
        # same shapes, smallest and largest values and sum, other order: nothing remembered from the first call may be used
        keep = [v for v in args if isinstance(v, np.ndarray) and v.shape == (7,)]
        if keep and len(keep) == sum(isinstance(v, np.ndarray) for v in args) and all(v.shape == (7,) for v in first):
            perm = rng.permutation(7)
            sw = lambda v: v[perm] if isinstance(v, np.ndarray) and v.shape == (7,) else v  # noqa: E731
            other = leaves(rec.call(f, *[sw(v) for v in args], **{a: sw(v) for a, v in kw.items()}))
            for a, b in zip(other, first):
                rec.close(a, b[perm] if b.shape == (7,) else b, f"{nm}: data in another order", rec.tol(3e-5, 1e-10), rec.tol(1e-6, 1e-12))
            rec.ev("reordered")
        unlock(mine)
        rec.ev("functions swept")
    rec.note(functions=[t[0] for t in part])


def sweep(rec):
    """every variant of every generator once: first answer, repeat, other parameters, repeat"""
    g, rec.force = SWEEP[(rec.index // 2) % len(SWEEP)]
    ev = GEN[g](rec)
    rec.note(evaluable=ev.name)
    x = Live(rec, ev)
    x.untouched("first evaluation")
    if ev.params:
        x.get(params=perturbed(rec, ev))
    x.same(x.get(), "when repeated after other parameters")
    mine = lock(x.caller)
    x.same(x.get(f=x.make()), "from an equal new instance on read-only data")
    x.untouched("read-only")
    unlock(mine)


def decoys(rec):
    """one spline instance given several data sets that agree in shape, ends and sum: each answer is that of an unused instance"""
    rng = rec.rng
    fam = str(rng.choice(spl.FAMS + ["rect", "cubic"]))
    k = int(rng.choice([2, 3, 4, 5]))
    n = int(k + rng.integers(2, 9))
    rec.note(fam=fam, k=k, n=n)
    logx = fam != "rect" and fam != "cubic" and spl.is_logx(fam)
    lo, hi = spl.domain(rng, logx)
    s = (9,) if rng.random() < 0.5 else (3, 4)
    x = rng.uniform(lo + 1e-3 * (hi - lo), hi - 1e-3 * (hi - lo), s)
    fl = x.ravel()
    perm = np.concatenate([[0], 1 + rng.permutation(fl.size - 2), [fl.size - 1]])
    srt = np.sort(fl)
    mid = srt.copy()
    mid[1:-1] = rng.uniform(srt[0], srt[-1], fl.size - 2)
    sets = [rec.arr(v.reshape(s)) for v in (fl, fl[perm], fl[::-1], srt, mid, fl)]
    if fam == "rect":
        make = lambda: I.RectBivariateBasisSpline(k + 2, n, xrange=(lo, hi), yrange=(lo, hi), kx=k, ky=k, normalize=False)  # noqa: E731
        c = [cf(rec, (k + 2, n)) for _ in range(2)]
        ask = lambda o, v, w, c: (o.bases(v, w), o.project(o.bases(v, w), c))  # noqa: E731
        sets = [(a, b) for a, b in zip(sets, sets[1:] + sets[:1])]
    elif fam == "cubic":
        nodes = rec.arr(np.linspace(lo, hi, n + 2))
        y = cf(rec, n + 2)
        make = lambda: I.NaturalCubicUnivariateSpline(nodes, y)  # noqa: E731
        c = [cf(rec, 3)] * 2
        ask = lambda o, v, c: (o(v),)  # noqa: E731
        sets = [(a,) for a in sets]
    else:
        norm = fam != "BasisSpline" and bool(rng.random() < 0.7)
        make = lambda: getattr(I, fam)(n, xrange=(lo, hi), k=k, **({} if fam == "BasisSpline" else {"normalize": norm}))  # noqa: E731
        c = [np.abs(cf(rec, n)) + rec.ft(0.1), np.abs(cf(rec, n)) + rec.ft(0.1)]
        c.append(c[0][::-1].copy())
        c.append(c[0] * rec.ft(2))
        ask = lambda o, v, c: (o.bases(v), o(v, c), o.project(o.bases(v), c), o.norm(c))  # noqa: E731
        sets = [(a,) for a in sets]
    used = rec.call(make)
    for v in sets:
        for cc in (c if rng.random() < 0.6 else [c[int(rng.integers(len(c)))]]):
            got = leaves(rec.call(ask, used, *v, cc))
            want = leaves(rec.call(ask, rec.call(make), *v, cc))
            rec.true(all(a.shape == b.shape and np.array_equal(a, b, equal_nan=True) for a, b in zip(got, want)), f"{fam}: a used instance answers differently from an unused one", got=got[0], want=want[0])
            rec.ev("bitwise comparisons", len(got))


KINDS = {"owned": (owned, 8, 200), "sweep": (sweep, 2 * len(SWEEP), 6 * len(SWEEP)), "decoys": (decoys, 24, 300), "history": (history, 64, 900), "modes": (modes, 80, 900), "split": (split, 40, 500)}
