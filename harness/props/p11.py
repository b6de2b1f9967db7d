import jax.numpy as jnp
import numpy as np

from .cosm import OPS, C, O, Tol, judge, parameters, query, table_ok

RULE = ("random flat cosmologies (H0, matter, radiation) x table ranges and steps x scalar/array redshifts inside, at the end of and beyond the table x all query functions; "
        "non-trivial = distances, volumes and round trips compared with Gauss-Legendre integration of the Friedmann equation")
ASSUMPTIONS = ["flat cosmologies whose density parameters sum to exactly one (others are refused by the constructor)", "accuracy limit: 1.5 dz^2 relative plus interpolation error of the table; one table step for the last redshift beyond the table",
               "redshifts up to 9 (12 for the predefined ones)"]


def make(rec, zmaxs=(0.8, 2.0, 3.0), dzs=(1e-3, 1e-3, 5e-3)):
    rng = rec.rng
    p = parameters(rng)
    mz, dz = float(rng.choice(zmaxs)), float(rng.choice(dzs))
    if rng.random() < 0.5:  # any range and step
        mz, dz = float(np.round(rng.uniform(min(zmaxs), max(zmaxs)), 4)), float(np.round(10 ** rng.uniform(np.log10(min(dzs)), np.log10(max(dzs)) + 1e-9), 6))
    rec.note(p=p, max_z=mz, dz=dz)
    c = rec.call(C.Cosmology, *p, max_z=mz, dz=dz)
    ref = O.Cosmo(*p)
    return c, ref, mz, dz


def tables(rec):
    c, ref, mz, dz = make(rec, dzs=(1e-3, 2e-3, 5e-3, 1e-2))
    z = np.asarray(c.z).astype(float)
    tol = Tol(rec, ref, dz)
    table_ok(rec, c, mz, dz)
    rec.close(z, np.arange(len(z)) * dz, "tabulated redshifts", 1e-5, 1e-6)
    rec.close(np.asarray(c.Dc), ref.Dc(z), "tabulated comoving distance", 0, tol.Dc(z))
    rec.close(np.asarray(c.DL), ref.DL(z), "tabulated luminosity distance", 0, tol.DL(z))
    g = np.arange(len(z)) * dz
    tr = np.concatenate([[0], np.cumsum(0.5 * dz * (ref.dV(g)[1:] + ref.dV(g)[:-1]))])
    rec.close(np.asarray(c.Vc), ref.V(z), "tabulated comoving volume", rec.tol(2e-4, 0) + 3 * dz**2 + 100 * rec.eps, 2 * np.abs(tr - ref.V(g)) + ref.dV(z) * 4 * rec.eps * (1 + z))


def queries(rec):
    c, ref, mz, dz = make(rec)
    tol = Tol(rec, ref, dz)
    for op in OPS + ["dDcdz", "z2E"]:
        z = query(rec, mz - 2 * dz, op)
        judge(rec, c, ref, tol, op, z, what="inside the table")
    z = jnp.asarray(rec.arr([0.0]))
    rec.true(float(c.z2Dc(z)[0]) == 0 and float(c.z2DL(z)[0]) == 0 and float(c.dVcdz(z)[0]) == 0 and float(c.DL2z(z)[0]) == 0, "everything vanishes at redshift zero")
    s = np.sort(rec.rng.uniform(0, mz - dz, 60))
    s = s[np.concatenate([[True], np.diff(s) > 1e-4])]
    for f in (c.z2Dc, c.z2DL):
        rec.true(np.diff(np.asarray(f(jnp.asarray(rec.arr(s))))) > 0, "distances increase with redshift")
    # volume element with the distance supplied
    zz = rec.arr(rec.rng.uniform(0.01, mz, 6))
    d = rec.arr(ref.Dc(zz.astype(float)))
    w = 4 * np.pi * d.astype(float) ** 2 * ref.dDc(zz.astype(float))
    rec.close(np.asarray(rec.call(c.dVcdz, jnp.asarray(zz), jnp.asarray(d))), w, "volume element for a given distance", 40 * rec.eps)
    rec.close(np.asarray(rec.call(c.logdVcdz, jnp.asarray(zz), Dc=jnp.asarray(d))), np.log(w), "log volume element for a given distance", 40 * rec.eps)


def beyond(rec):
    rng = rec.rng
    c, ref, mz, dz = make(rec, zmaxs=(0.3, 0.8, 2.0), dzs=(1e-3,))
    tol = Tol(rec, ref, dz)
    op = str(rng.choice(OPS))
    zb = float(rec.ft(mz * rng.choice([1.0, 1.0 + 1e-4, 1.5, rng.uniform(1.1, 3.0)])))
    z = query(rec, zb, op)
    rec.note(op=op, zb=zb)
    step = op != "DL2z"
    if rng.random() < 0.5 and op in ("z2Dc", "z2DL", "dVcdz"):
        d2 = 2e-3
        rec.note(step=d2)
        zf = np.asarray(z).astype(float)
        t2 = Tol(rec, ref, max(d2, dz))
        got = np.asarray(rec.call(getattr(c, op), z, dz=d2))
        want, lim = dict(z2Dc=(ref.Dc, t2.Dc), z2DL=(ref.DL, t2.DL), dVcdz=(ref.dV, t2.dV))[op]
        rec.close(got, want(zf), f"{op} beyond the table with its own step", 0, lim(zf, True))
    else:
        judge(rec, c, ref, tol, op, z, step=step, what="beyond the table")
    table_ok(rec, c, float(np.max(np.asarray(z))), 2e-3)


def roundtrip(rec):
    rng = rec.rng
    c, ref, mz, dz = make(rec, zmaxs=(0.5, 1.0, 2.0), dzs=(1e-3,))
    tol = Tol(rec, ref, dz)
    far = rng.random() < 0.5
    z = query(rec, float(rec.ft(mz * (2.2 if far else 0.95))), "z2DL")
    zf = np.asarray(z).astype(float)
    dl = rec.call(c.z2DL, z)
    back = np.asarray(rec.call(c.DL2z, dl))
    extra = 1.05 * dz if far else 0
    slope = ref.Dc(zf) + (1 + zf) * ref.dDc(zf)
    rt = 60 * rec.eps * ref.DL(zf) / slope + 4 * rec.eps * (1 + zf)
    rec.close(back, zf, "redshift -> luminosity distance -> redshift", 0, rt + extra)
    D = rec.arr(ref.DL(zf)) if zf.ndim else float(rec.ft(ref.DL(zf)))
    zz = rec.call(c.DL2z, jnp.asarray(D) if zf.ndim else D)
    D2 = np.asarray(rec.call(c.z2DL, zz))
    rec.close(D2, np.asarray(D).astype(float), "luminosity distance -> redshift -> luminosity distance", 0, 60 * rec.eps * ref.DL(zf) + slope * (4 * rec.eps * (1 + zf) + extra) + tol.dz * 0)


def predefined(rec):
    rng = rec.rng
    c, ref = [(C.PLANCK_2015_Cosmology, O.PLANCK15), (C.PLANCK_2015_LVK_Cosmology, O.PLANCK15_LVK)][rec.rng.integers(2)]
    rec.note(Ho=c.Ho)
    rec.close([float(c.Ho), float(c.OmegaMatter), float(c.OmegaRadiation), float(c.OmegaLambda)], [ref.d and O.C_SI / ref.d, ref.om, ref.orad, ref.ol], "parameters of the predefined cosmology", 1e-12)
    tol = Tol(rec, ref, 1e-3)
    zmax = float(rec.ft(rng.choice([0.1, 2.3, 9.9])))
    for op in OPS:
        judge(rec, c, ref, tol, op, query(rec, zmax, op), what="of the predefined cosmology")
    table_ok(rec, c, 10.0)


def refusal(rec):
    rng = rec.rng
    om = float(rng.uniform(0.1, 0.5))
    k = float(rng.choice([-0.2, -0.01, 0.01, 0.3]))
    rec.note(om=om, k=k)
    rec.raises(AssertionError, C.Cosmology, 68e3, om, 0.0, 1.0 - om - k, max_z=0.1, what="a curved cosmology")


KINDS = {
    "tables": (tables, 16, 240),
    "queries": (queries, 24, 400),
    "beyond": (beyond, 24, 300),
    "roundtrip": (roundtrip, 16, 200),
    "predefined": (predefined, 16, 200),
    "refusal": (refusal, 6, 40),
}
