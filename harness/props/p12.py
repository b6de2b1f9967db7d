import numpy as np

from .cosm import OPS, C, O, Tol, judge, parameters, query, table_ok

TECHNIQUE = "runtime monitoring: online trace checker over random histories of queries on one object, every answer and every intermediate table judged against an independent reference and against a fresh object"
RULE = ("random histories (6-14 operations: queries of every kind, scalar and array, inside and beyond the current table, explicit extensions) on one cosmology object, with several objects interleaved; "
        "non-trivial = history with at least one table extension; after every operation the answer and the table are checked")
ASSUMPTIONS = ["extensions use the default step and never shrink the table", "answers agree within the integration accuracy plus one table step for redshifts at the very end of the table", "redshifts up to 6"]


def history(rec):
    rng = rec.rng
    nobj = int(rng.choice([1, 1, 2]))
    objs = []
    for _ in range(nobj):
        p = parameters(rng)
        mz = float(rng.choice([0.2, 0.7, 1.5]))
        objs.append(dict(c=rec.call(C.Cosmology, *p, max_z=mz), ref=O.Cosmo(*p), asked=mz, p=p, cap=mz))
    rec.note(objs=[(o["p"], o["asked"]) for o in objs], n=nobj)
    log = []
    grown = 0
    for i in range(int(rng.integers(6, 15))):
        o = objs[rng.integers(nobj)]
        tol = Tol(rec, o["ref"], 1e-3)
        cur = float(np.asarray(o["c"].z)[-1])
        op = str(rng.choice(OPS + ["extend"]))
        far = rng.random() < 0.4 and grown < 4
        zt = min(6.0, cur * float(rng.choice([1.0005, 1.2, 2.0]))) if far else cur * float(rng.uniform(0.05, 0.999))
        if op == "extend":
            zt = float(rec.ft(max(zt, cur + 0.05)))
            if grown >= 4 or zt > 6:
                continue
            rec.call(o["c"].extend, zt)
            grown += 1
            o["asked"] = max(o["asked"], zt)
            log.append(("extend", zt))
        else:
            z = query(rec, float(rec.ft(zt)), op)
            zm = float(np.max(np.asarray(z)))
            near_end = bool(zm > cur - 1e-5)
            grown += zm > cur
            log.append((op, zm))
            judge(rec, o["c"], o["ref"], tol, op, z, step=near_end or zm >= o["asked"] - 2.1e-3, what=f"after {i} operations")
            o["asked"] = max(o["asked"], zm)
        table_ok(rec, o["c"], o["asked"], where=f"after {op}")
        rec.ev("history-step")
    rec.note(log=[f"{a}:{b:.4g}" for a, b in log])
    rec.ev("extensions", int(grown))
    for o in objs:  # the same questions to the used object and to a new one
        tol = Tol(rec, o["ref"], 1e-3)
        cap = 0.9 * o["cap"]
        fresh = C.Cosmology(*o["p"], max_z=o["cap"])
        z = rec.arr(rng.uniform(0.01, cap, 8))
        zf = z.astype(float)
        rec.close(np.asarray(o["c"].z2Dc(z)), np.asarray(fresh.z2Dc(z)), "comoving distance of a used and of a new object", 0, 0.3 * tol.Dc(zf))
        rec.close(np.asarray(o["c"].z2DL(z)), np.asarray(fresh.z2DL(z)), "luminosity distance of a used and of a new object", 0, 0.3 * tol.DL(zf))
        rec.close(np.asarray(o["c"].dVcdz(z)), np.asarray(fresh.dVcdz(z)), "volume element of a used and of a new object", 0, 0.3 * tol.dV(zf))
        d = rec.arr(o["ref"].DL(zf))
        rec.close(np.asarray(o["c"].DL2z(d)), np.asarray(fresh.DL2z(d)), "redshift from distance of a used and of a new object", 0, 0.3 * tol.z_of(zf))
        rec.close([float(o["c"].Ho), float(o["c"].OmegaMatter), float(o["c"].OmegaLambda)], [o["p"][0], o["p"][1], o["p"][3]], "parameters unchanged by use", 1e-12)


def shared(rec):
    """the predefined objects are module-wide: use one, ask the other and a fresh one"""
    rng = rec.rng
    a, b = (C.PLANCK_2015_Cosmology, O.PLANCK15), (C.PLANCK_2015_LVK_Cosmology, O.PLANCK15_LVK)
    if rng.random() < 0.5:
        a, b = b, a
    if rng.random() < 0.3:
        z = 10.5
        rec.ev("extensions")
        judge(rec, *a, Tol(rec, a[1], 1e-3), "z2Dc", z, step=True, what="of a predefined cosmology beyond its table")
    for _ in range(6):
        for c, ref in (a, b):
            op = str(rng.choice(OPS))
            judge(rec, c, ref, Tol(rec, ref, 1e-3), op, query(rec, float(rec.ft(rng.uniform(0.5, 9.5))), op), what="of a predefined cosmology, interleaved")
            rec.ev("history-step")
    table_ok(rec, a[0], 10.0)
    table_ok(rec, b[0], 10.0)
    rec.note(u=float(rng.random()))


KINDS = {"history": (history, 48, 600), "shared": (shared, 10, 80)}
