"""Independent float64 references (NumPy / SciPy only; nothing here imports the code under test)."""
import numpy as np
from scipy import integrate, special
from scipy.interpolate import BSpline as SciBSpline


# --- splines --------------------------------------------------------------------------------
def uniform_knots(n, k, lo, hi):
    inner = np.linspace(lo, hi, n - k + 2)
    d = inner[1] - inner[0]
    return np.concatenate([lo - d * np.arange(k - 1, 0, -1), inner, hi + d * np.arange(1, k)])


def extend_knots(inner, k):
    inner = np.asarray(inner, float)
    a, b = inner[1] - inner[0], inner[-1] - inner[-2]
    return np.concatenate([inner[0] - a * np.arange(k - 1, 0, -1), inner, inner[-1] + b * np.arange(1, k)])


def bspline_matrix(x, t, k, lo, hi):
    """(n, *x.shape) B-spline basis of order k (degree k-1) on knots t; zero outside [lo, hi]."""
    x = np.asarray(x, float)
    t = np.asarray(t, float)
    n = len(t) - k
    xf = x.ravel()
    out = np.zeros((n, xf.size))
    inside = (xf >= lo) & (xf <= hi)
    if inside.any():
        out[:, inside] = SciBSpline(t, np.eye(n), k - 1, extrapolate=False)(xf[inside]).T
    return np.nan_to_num(out).reshape((n,) + x.shape)


def mspline_matrix(x, t, k, lo, hi):
    t = np.asarray(t, float)
    n = len(t) - k
    w = np.array([k / (t[i + k] - t[i]) for i in range(n)])
    return bspline_matrix(x, t, k, lo, hi) * w.reshape((n,) + (1,) * np.ndim(x))


def trapz(y, x, axis=-1):
    return np.trapz(np.asarray(y, float), np.asarray(x, float), axis=axis)


class SplineDensity:
    """Reference for the log-x/log-y/log-log/linear spline densities, normalised with the documented grid rule
    (trapezoid on a uniform grid of the domain) *and* with a fine grid; the spread between the two is the
    discretisation allowance."""

    def __init__(self, family, n, k, lo, hi, knots=None, normalize=True):
        self.family, self.n, self.k, self.lo, self.hi, self.normalize = family, n, k, float(lo), float(hi), normalize
        self.logx = family in ("LogXBSpline", "LogXLogYBSpline")
        self.logy = family in ("LogYBSpline", "LogXLogYBSpline")
        a, b = (np.log(lo), np.log(hi)) if self.logx else (lo, hi)
        self.a, self.b = float(a), float(b)
        self.t = uniform_knots(n, k, a, b) if knots is None else np.asarray(knots, float)
        self.mspl = family == "BasisSpline"
        self._fine = None

    def u(self, x):
        x = np.asarray(x, float)
        return np.log(x) if self.logx else x

    def matrix(self, x):
        with np.errstate(all="ignore"):
            u = self.u(x)
        f = mspline_matrix if self.mspl else bspline_matrix
        return f(u, self.t, self.k, self.a, self.b)

    def inside(self, x):
        x = np.asarray(x, float)
        return (x >= self.lo) & (x <= self.hi)

    def raw(self, x, c):
        c = np.asarray(c, float)
        if self.mspl:
            c = c / c.sum()
        v = np.einsum("i...,i->...", self.matrix(x), c)
        if self.logy:
            v = np.where(self.inside(x), np.exp(v), 0.0)
        return np.where(self.inside(x), v, 0.0)

    def grids(self):
        if self._fine is None:
            self._fine = []
            for m in (1500 if self.family == "LogXLogYBSpline" else 1000, 20001):
                g = np.linspace(self.lo, self.hi, m)
                g[0], g[-1] = self.lo, self.hi
                self._fine.append((g, self.matrix(g)))
        return self._fine

    def norms(self, c):
        c = np.asarray(c, float)
        if self.mspl:
            c = c / c.sum()
        out = []
        for g, m in self.grids():
            v = np.einsum("ij,i->j", m, c)
            out.append(trapz(np.exp(v) if self.logy else v, g))
        return out

    def pdf(self, x, c):
        """value and relative discretisation allowance"""
        if not self.normalize:
            return self.raw(x, c), 0.0
        coarse, fine = self.norms(c)
        return self.raw(x, c) / fine, abs(coarse / fine - 1)


# --- elementary densities -------------------------------------------------------------------
def powerlaw_norm(alpha, low, high):
    """1 / int_low^high x^alpha, stable near alpha = -1"""
    alpha, low, high = np.broadcast_arrays(np.asarray(alpha, float), np.asarray(low, float), np.asarray(high, float))
    a1 = alpha + 1
    L = np.log(high / low)
    with np.errstate(all="ignore"):
        z = a1 * L
        integral = low**a1 * L * np.where(np.abs(z) < 1e-12, 1 + z / 2, np.expm1(z) / np.where(z == 0, 1, z))
    return 1 / integral


def powerlaw(x, alpha, low, high, floor=0.0):
    x = np.asarray(x, float)
    with np.errstate(all="ignore"):
        p = x ** np.asarray(alpha, float) * powerlaw_norm(alpha, low, high)
    return np.where((x < low) | (x > high), floor, p)


def truncnorm(x, mu, sig, low, high):
    x = np.asarray(x, float)
    a, b = (low - mu) / sig, (high - mu) / sig
    den = special.ndtr(b) - special.ndtr(a)
    with np.errstate(all="ignore"):
        p = np.exp(-0.5 * ((x - mu) / sig) ** 2) / (sig * np.sqrt(2 * np.pi)) / den
    return np.where((x < low) | (x > high), 0.0, p)


def trunclognorm(x, mu, sig, low, high):
    x = np.asarray(x, float)
    with np.errstate(all="ignore"):
        p = truncnorm(np.log(x), mu, sig, np.log(low), np.log(high)) / x
    return np.where((x < low) | (x > high), 0.0, p)


def beta_pdf(x, a, b, scale=1.0, floor=0.0):
    x = np.asarray(x, float)
    a, b, scale = np.asarray(a, float), np.asarray(b, float), np.asarray(scale, float)
    with np.errstate(all="ignore"):
        u = x / scale
        lp = special.xlogy(a - 1, u) + special.xlogy(b - 1, (scale - x) / scale) - special.betaln(a, b) - np.log(scale)
    return np.where((x >= 0) & (x <= scale), np.exp(lp), floor)


def window(dx, x, xmin):
    """Planck-taper style low-mass window"""
    x = np.asarray(x, float)
    y = x - xmin
    with np.errstate(all="ignore"):
        w = special.expit(-(dx / y + dx / (y - dx)))
    return np.where(y <= 0, 0.0, np.where(y >= dx, 1.0, w))


def logistic(x, x0, sgn, sc):
    return special.expit(-sgn * sc * (np.asarray(x, float) - x0))


def log_logistic(x, x0, sgn, sc):
    return special.log_expit(-sgn * sc * (np.asarray(x, float) - x0))


# --- cosmology ------------------------------------------------------------------------------
C_SI = 299792458.0


class Cosmo:
    def __init__(self, Ho, om, orad, ol):
        self.d = C_SI / Ho
        self.om, self.orad, self.ol = om, orad, ol

    def E(self, z):
        z1 = 1 + np.asarray(z, float)
        return np.sqrt(self.ol + self.om * z1**3 + self.orad * z1**4)

    def dDc(self, z):
        return self.d / self.E(z)

    _x, _w = np.polynomial.legendre.leggauss(64)

    def Dc(self, z):
        """Gauss-Legendre in ln(1+z), 64 nodes"""
        z = np.asarray(z, float)
        L = np.log1p(z)
        u = 0.5 * L[..., None] * (self._x + 1)
        f = np.exp(u) / self.E(np.expm1(u))
        return self.d * 0.5 * L * (f * self._w).sum(-1)

    def DL(self, z):
        return (1 + np.asarray(z, float)) * self.Dc(z)

    def dV(self, z):
        return 4 * np.pi * self.Dc(z) ** 2 * self.dDc(z)

    def V(self, z):
        return 4 * np.pi / 3 * self.Dc(z) ** 3


PLANCK15 = Cosmo(67.74e3, 0.3089, 0.0, 1 - 0.3089)
PLANCK15_LVK = Cosmo(67.90e3, 0.3065, 0.0, 1 - 0.3065)


# --- likelihood -----------------------------------------------------------------------------
def logmeanexp(lw, axis=-1):
    return special.logsumexp(lw, axis=axis) - np.log(np.shape(lw)[axis])


def event_estimates(lw):
    lw = np.asarray(lw, float)
    n = lw.shape[1]
    s1 = special.logsumexp(lw, axis=1)
    s2 = special.logsumexp(2 * lw, axis=1)
    return s1 - np.log(n), 2 * s1 - s2, np.exp(s2 - 2 * s1) - 1 / n


def selection_estimates(lw, N):
    lw = np.asarray(lw, float)
    s1 = special.logsumexp(lw)
    s2 = special.logsumexp(2 * lw)
    rel = np.exp(s2 - 2 * s1) - 1 / float(N)
    return s1 - np.log(float(N)), -np.log(rel), rel


__all__ = [n for n in dir() if not n.startswith("_")]


# --- effective spins of uniform, isotropic component spins --------------------------------------
_TS = None


def tanh_sinh(f, a, b, n=60, tmax=3.4):
    """integral over [a, b] with integrable end point singularities; a, b arrays of one shape; f(x) elementwise on (n, shape)"""
    global _TS
    if _TS is None:
        t = np.linspace(-tmax, tmax, 2 * n + 1)
        s = np.pi / 2 * np.sinh(t)
        # distance from the nearer end, exactly
        d = np.exp(-np.abs(s)) / (2 * np.cosh(s))
        w = np.pi / 2 * np.cosh(t) / np.cosh(s) ** 2 * (t[1] - t[0]) / 2
        _TS = (t, d, w)
    t, d, w = _TS
    a, b = np.asarray(a, float), np.asarray(b, float)
    L = b - a
    sh = (-1,) + (1,) * a.ndim
    dd, ww, tt = d.reshape(sh), w.reshape(sh), t.reshape(sh)
    x = np.where(tt < 0, a + L * dd, b - L * dd)
    y = f(x)
    return np.sum(np.where(L > 0, ww * L * np.where(np.isfinite(y), y, 0.0), 0.0), axis=0)


def chieff_iso(chi, q, amax=1.0):
    """density of (x1 + q x2)/(1+q), x = a cos(tilt), a uniform in [0, amax], tilt isotropic (numerical integration)"""
    chi, q, amax = np.broadcast_arrays(np.asarray(chi, float), np.asarray(q, float), np.asarray(amax, float))
    S = chi * (1 + q)

    def p(x):
        r = np.abs(x) / amax
        with np.errstate(divide="ignore", invalid="ignore"):
            return np.where(r < 1, -np.log(np.maximum(r, 1e-300)) / (2 * amax), 0.0)

    # integrate over y = q x2 in [-q amax, q amax]; x1 = S - y in [-amax, amax]
    lo = np.maximum(-q * amax, S - amax)
    hi = np.minimum(q * amax, S + amax)
    c1 = np.clip(np.minimum(0.0, S), lo, np.maximum(hi, lo))
    c2 = np.clip(np.maximum(0.0, S), lo, np.maximum(hi, lo))
    tot = 0.0
    for a, b in ((lo, c1), (c1, c2), (c2, hi)):
        tot = tot + tanh_sinh(lambda y: p(y / q) / q * p(S - y), a, np.maximum(b, a))
    return np.where(hi > lo, (1 + q) * tot, 0.0)


def chieff_aligned(chi, q, amax=1.0):
    """density of (x1 + q x2)/(1+q), x_i uniform on [-amax, amax]: overlap length of two intervals"""
    chi, q, amax = np.broadcast_arrays(np.asarray(chi, float), np.asarray(q, float), np.asarray(amax, float))
    S = chi * (1 + q)
    lo, hi = np.maximum(-q * amax, S - amax), np.minimum(q * amax, S + amax)
    return np.maximum(hi - lo, 0.0) * (1 + q) / (4 * q * amax**2)


def chip_iso(chip, q, amax=1.0):
    """density of max(s1, k s2), s = a sin(tilt), k = q (3+4q)/(4+3q)"""
    chip, q, amax = np.broadcast_arrays(np.asarray(chip, float), np.asarray(q, float), np.asarray(amax, float))
    k = q * (3 + 4 * q) / (4 + 3 * q)
    gx, gw = np.polynomial.legendre.leggauss(60)

    def f(s):
        u = s / amax
        return np.where((u >= 0) & (u < 1), np.arccos(np.clip(u, 0, 1)) / amax, 0.0)

    def F(s):
        # integral of arccos(u) du from 0 to min(u, 1) with u = cos(t): smooth in t
        t1 = np.arccos(np.clip(s / amax, 0, 1))
        t = t1[..., None] + (np.pi / 2 - t1[..., None]) * (gx + 1) / 2
        return np.sum(gw * t * np.sin(t), axis=-1) * (np.pi / 2 - t1) / 2

    return f(chip) * F(chip / k) + F(chip) * f(chip / k) / k
