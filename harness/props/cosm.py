"""Shared pieces of the cosmology properties."""
import jax.numpy as jnp
import numpy as np

from gwinferno import cosmology as C

from .. import oracles as O


def parameters(rng, radiation=True):
    while True:
        ho = float(rng.choice([67.74e3, 67.9e3, rng.uniform(50e3, 100e3)]))
        om = float(rng.choice([0.3089, 0.3065, rng.uniform(0.05, 0.95), 1.0]))
        orad = float(rng.choice([0.0, 0.0, 1e-4, 0.01])) if radiation else 0.0
        ol = 1.0 - om - orad
        if ol >= 0 and 1.0 - (om + orad + ol) == 0:
            return ho, om, orad, ol


class Tol:
    """Accuracy of trapezoid integration with step dz plus linear interpolation plus rounding."""

    def __init__(self, rec, ref, dz):
        self.rec, self.ref, self.dz = rec, ref, dz
        self.rel = rec.tol(6e-5, 0.0) + 1.5 * dz**2 + 40 * rec.eps

    def zeps(self, z):
        return 4 * self.rec.eps * (1 + np.abs(z))

    def Dc(self, z, step=False):
        r = self.ref
        return self.rel * r.Dc(z) + r.dDc(z) * (0.5 * self.dz**2 + self.zeps(z) + (1.05 * self.dz if step else 0))

    def DL(self, z, step=False):
        r = self.ref
        slope = r.Dc(z) + (1 + z) * r.dDc(z)
        return self.rel * r.DL(z) + slope * (0.8 * self.dz**2 + self.zeps(z) + (1.05 * self.dz if step else 0))

    def z_of(self, z):
        r = self.ref
        return self.DL(z) / (r.Dc(z) + (1 + z) * r.dDc(z)) + self.zeps(z)

    def dV(self, z, step=False):
        r = self.ref
        return 2 * self.Dc(z, step) * (r.Dc(z) + self.Dc(z, step)) * 4 * np.pi * r.dDc(z) + 20 * self.rec.eps * r.dV(z)


def table_ok(rec, c, need=None, dz=1e-3, where=""):
    """invariants of the stored table; need = largest redshift asked so far"""
    z, Dc, Vc = (np.asarray(v) for v in (c.z, c.Dc, c.Vc))
    rec.ev("table-check")
    rec.true(z.shape == Dc.shape == Vc.shape and z.ndim == 1, f"table columns of equal length {where}")
    rec.true(z[0] == 0 and Dc[0] == 0 and Vc[0] == 0, f"table starts at zero {where}", first=[z[0], Dc[0], Vc[0]])
    for n, v in (("redshift", z), ("distance", Dc), ("volume", Vc)):
        rec.true(np.all(np.diff(v) > 0), f"tabulated {n} strictly increasing {where}")
    if need is not None:
        rec.true(z[-1] >= need - 1.05 * dz - 1e-5 * need, f"table covers what was asked {where}", last=z[-1], need=need)


def judge(rec, c, ref, tol, op, z, step=False, what=""):
    """one query compared with the reference; z is an array or scalar in working precision"""
    zf = np.asarray(z).astype(float)
    if op == "z2Dc":
        rec.close(np.asarray(rec.call(c.z2Dc, z)), ref.Dc(zf), f"comoving distance {what}", 0, tol.Dc(zf, step))
    elif op == "z2DL":
        rec.close(np.asarray(rec.call(c.z2DL, z)), ref.DL(zf), f"luminosity distance {what}", 0, tol.DL(zf, step))
    elif op == "dVcdz":
        rec.close(np.asarray(rec.call(c.dVcdz, z)), ref.dV(zf), f"comoving volume element {what}", 0, tol.dV(zf, step))
    elif op == "logdVcdz":
        rec.close(np.asarray(rec.call(c.logdVcdz, z)), np.log(ref.dV(zf)), f"log volume element {what}", 30 * rec.eps, 1.5 * tol.dV(zf, step) / ref.dV(zf) + 30 * rec.eps)
    elif op == "DL2z":
        dl = rec.ft(ref.DL(zf)) if zf.ndim == 0 else rec.arr(ref.DL(zf))
        arg = float(dl) if zf.ndim == 0 else jnp.asarray(dl)
        rec.close(np.asarray(rec.call(c.DL2z, arg)), zf, f"redshift of a luminosity distance {what}", 0, tol.z_of(zf))
    elif op == "dDcdz":
        rec.close(np.asarray(rec.call(c.dDcdz, z)), ref.dDc(zf), f"distance derivative {what}", 30 * rec.eps)
    elif op == "z2E":
        rec.close(np.asarray(rec.call(c.z2E, z)), ref.E(zf), f"expansion rate {what}", 30 * rec.eps)


OPS = ["z2Dc", "z2DL", "dVcdz", "logdVcdz", "DL2z"]


def query(rec, zmax, op, lo=0.0):
    """scalar, vector or matrix of redshifts up to zmax (zmax itself included)"""
    rng = rec.rng
    lo = max(lo, 10 ** rng.uniform(-5, -2.5) if op == "logdVcdz" else 0.0)
    style = rng.choice(["scalar", "vec", "mat", "np"])
    if style == "scalar":
        return float(rec.ft(rng.choice([zmax, rng.uniform(lo, zmax)])))
    sh = (2, 5) if style == "mat" else (7,)
    z = rng.uniform(lo, zmax, sh)
    z.reshape(-1)[:3] = [zmax, lo, min(zmax, lo + 0.01)]
    z = rec.arr(np.maximum(z, 0))
    return z if style == "np" else jnp.asarray(z)


__all__ = ["C", "O", "parameters", "Tol", "table_ok", "judge", "OPS", "query"]
