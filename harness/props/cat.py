"""Shared generators of posterior catalogues and processed datasets."""
import json
import os

import h5py
import numpy as np

from .. import oracles as O

FIELDS = ["mass_1_source", "mass_2_source", "mass_ratio", "redshift", "a_1", "a_2", "cos_tilt_1", "cos_tilt_2"]
PARAMS = ["mass_1", "mass_2", "mass_ratio", "redshift", "a_1", "a_2", "cos_tilt_1", "cos_tilt_2"]
EVENTS = ["GW150914", "GW151226", "GW170104", "GW190412", "GW190521", "GW190814", "GW200129", "S230529", "GW190403_051519", "a", "GW15"]


def names(rng, n):
    return [EVENTS[i] for i in rng.permutation(len(EVENTS))[:n]]


def samples(rng, n, zmax, heavy=0.0):
    m1 = rng.uniform(5, 80, n)
    k = int(round(heavy * n))
    m1[:k] = rng.uniform(101, 200, k)
    m1 = m1[rng.permutation(n)]
    q = rng.uniform(0.1, 1, n)
    return {"mass_1": m1, "mass_2": q * m1, "mass_ratio": q, "redshift": rng.uniform(0.02, zmax, n), "a_1": rng.uniform(0.02, 0.98, n), "a_2": rng.uniform(0.02, 0.98, n),
            "cos_tilt_1": rng.uniform(-0.99, 0.99, n), "cos_tilt_2": rng.uniform(-0.99, 0.99, n)}


def write_event(path, s, wf, first, rng, f32=False):
    """writes one posterior file; returns the samples in the file's own precision (source frame, float64)"""
    ft = "f4" if f32 else "f8"
    if first:
        z = s["redshift"]
        col = {"luminosity_distance_Mpc": O.PLANCK15_LVK.DL(z), "m1_detector_frame_Msun": s["mass_1"] * (1 + z), "m2_detector_frame_Msun": s["mass_2"] * (1 + z),
               "spin1": s["a_1"], "spin2": s["a_2"], "costilt1": s["cos_tilt_1"], "costilt2": s["cos_tilt_2"], "right_ascension": rng.uniform(0, 6, len(z))}
    else:
        col = {f: s[p] for f, p in zip(FIELDS, PARAMS)}
        col["chi_eff"] = np.full(len(s["mass_1"]), 9.0)
        col["mass_1"] = s["mass_1"] * (1 + s["redshift"])
        col["luminosity_distance"] = rng.uniform(100, 1000, len(s["mass_1"]))
    keys = list(col)
    keys = [keys[i] for i in rng.permutation(len(keys))]
    a = np.zeros(len(s["mass_1"]), dtype=[(k, ft) for k in keys])
    for k in keys:
        a[k] = col[k]
    with h5py.File(path, "w") as f:
        if first:
            f[wf] = a
            f["prior_distribution"] = a[:3]
        else:
            f.create_group(wf)["posterior_samples"] = a
            f.create_group("other_waveform")["posterior_samples"] = a[:2]
    return a


def catalogue(rec, d, n_events, sizes, heavy=0.0, zmax=None, f32=None, gen=samples):
    rng = rec.rng
    evs = names(rng, n_events)
    meta, truth = {}, {}
    for i, ev in enumerate(evs):
        first = rng.random() < 0.35
        zm = zmax or float(rng.choice([0.3, 0.8, 1.7]))
        s = gen(rng, int(sizes[i]), zm, 0.0 if first else heavy * float(rng.choice([0, 1])))
        wf = str(rng.choice(["C01:Mixed", "Overall_posterior", "IMRPhenomXPHM"]))
        path = os.path.join(d, f"f{i}.h5")
        single = bool(rng.random() < 0.2) if f32 is None else f32
        write_event(path, s, wf, first, rng, single)
        pr = str(rng.choice(["euclidean", "comoving"]))
        meta[ev] = {"file_path": path, "waveform": wf, "redshift_prior": pr, "catalog": "GWTC-1" if first else str(rng.choice(["GWTC-2.1", "GWTC-3", "GWTC-4"]))}
        truth[ev] = dict(s=s, first=first, prior=pr, f32=single)
    return evs, meta, truth


def write_keys(d, meta):
    p = os.path.join(d, "keys.json")
    with open(p, "w") as f:
        json.dump(meta, f)
    return p


class ZPrior:
    """normalised redshift priors of the LVK cosmology on [0, top]"""

    def __init__(self, top):
        c = O.PLANCK15_LVK
        self.raw = {"euclidean": lambda z: c.DL(z) ** 2 * (c.Dc(z) + (1 + z) * c.dDc(z)), "comoving": lambda z: c.dV(z) / (1 + z)}
        g = np.linspace(0, top, 4001)
        self.norm = {k: float(np.trapz(f(g), g)) for k, f in self.raw.items()}
        self.h = top / 999

    def __call__(self, kind, z):
        return self.raw[kind](z) / self.norm[kind]

    def slack(self, kind, z):
        """error of linear interpolation on about a thousand points"""
        h = self.h
        p = [self(kind, np.maximum(z + s * h, 0)) for s in (-2, -1, 0, 1, 2)]
        curv = np.max([np.abs(p[i - 1] - 2 * p[i] + p[i + 1]) for i in (1, 2, 3)], axis=0)
        return 0.3 * curv
