import os
import shutil
import tempfile

import matplotlib

matplotlib.use("Agg")
import jax.numpy as jnp  # noqa: E402
import matplotlib.pyplot as plt  # noqa: E402
import numpy as np  # noqa: E402

from gwinferno.pipeline import utils as U  # noqa: E402
from gwinferno.postprocess import plot as PL  # noqa: E402

TECHNIQUE = "runtime monitoring: hooks on figure closing capture the drawn artists, which are compared with independently computed medians and percentiles; packaged datasets compared value by value with the caller's arrays"
RULE = ("random posterior dictionaries (scalars, vectors, matrices per draw), curve sets with and without subpopulations, and plots of 1-3 populations with and without saving; "
        "non-trivial = every packaged value, every drawn line and band and every written file compared")
ASSUMPTIONS = ["subpopulation results include the common redshift curves", "at most as many populations as colours", "non-interactive matplotlib backend"]


def packaged(rec):
    rng = rec.rng
    n = int(rng.choice([1, 5, 12]))
    d = {}
    for i in range(int(rng.integers(1, 6))):
        sh = [(n,), (n, 4), (n, 3, 2), (n, n), (n, 1)][int(rng.integers(5))]
        v = rec.arr(rng.normal(size=sh)) if rng.random() < 0.8 else rng.integers(0, 9, sh)
        d[["alpha", "mass_cs", "Rate", "log_l", "q_cs_pop", "x"][i]] = jnp.asarray(v) if rng.random() < 0.5 else v
    keep = {k: (v, np.array(v)) for k, v in d.items()}
    rec.note(n=n, shapes={k: np.shape(v) for k, v in d.items()}, first=np.array(list(d.values())[0]).ravel()[:3])
    ds = rec.call(U.posterior_dict_to_xarray, d)
    rec.true(list(d) == list(keep) and all(d[k] is keep[k][0] for k in d), "caller's dictionary untouched")
    rec.true(set(ds.data_vars) == set(d), "every parameter packaged under its name", got=list(ds.data_vars))
    for k, (v, c) in keep.items():
        if k not in ds:
            continue
        a = ds[k]
        rec.values += c.size
        rec.true(a.shape == c.shape and np.array_equal(np.asarray(a.values), c), "packaged values", key=k)
        rec.true(a.dims[0] == "draw" and len(set(a.dims)) == len(a.dims) and list(a.dims).count("draw") == 1, "first axis is the draw axis", dims=a.dims)
        rec.true(isinstance(v, np.ndarray) is False or np.array_equal(v, c), "caller's arrays untouched")


def curves(rec):
    rng = rec.rng
    n = int(rng.choice([1, 4, 9]))
    pars = ["mass_1", "mass_ratio", "redshift", "a_1", "cos_tilt_1"]
    pars = ["redshift"] + [p for p in pars if p != "redshift" and rng.random() < 0.7]
    pars = [pars[i] for i in rng.permutation(len(pars))]
    x = {p: rec.arr(np.linspace(0.1, 1, int(rng.integers(3, 20))) * (i + 1)) for i, p in enumerate(pars)}
    subs = [None, ["one"], ["low", "high"], ["a", "b", "c"], ["p", "b", "a", "B", "peak 2"], list("gfedcba")][int(rng.integers(6))]
    mk = lambda p: rec.arr(rng.random((n, len(x[p]))))  # noqa: E731
    if subs is None:
        d = {p: mk(p) for p in pars}
    else:
        d = {p: mk(p) if p == "redshift" else [mk(p) for _ in subs] for p in pars}
        if rng.random() < 0.5:
            d = {p: (np.array(v) if isinstance(v, list) else v) for p, v in d.items()}
    rec.note(n=n, pars=pars, subs=subs, v=float(np.ravel(d["redshift"])[0]))
    kd, kx = {k: (v, np.array(v)) for k, v in d.items()}, {k: v.copy() for k, v in x.items()}
    args = {} if subs is None and rng.random() < 0.5 else {"subpop_names": subs}
    ds = rec.call(U.pdf_dict_to_xarray, d, x, n, **args)
    rec.true(list(d) == list(kd) and all(d[k] is kd[k][0] and np.array_equal(np.array(d[k]), kd[k][1]) for k in d), "caller's curve dictionary untouched", got=list(d), want=list(kd))
    rec.true(list(x) == list(kx) and all(np.array_equal(x[k], kx[k]) for k in x), "caller's grid dictionary untouched")
    want = {}
    for p in pars:
        if subs is None or p == "redshift":
            want[f"{p}_pdfs"] = (p, kd[p][1])
        else:
            for i, s in enumerate(subs):
                want[f"{s}_{p}_pdfs"] = (p, kd[p][1][i])
    rec.true(set(ds.data_vars) == set(want), "every curve set under its documented name", got=sorted(ds.data_vars), want=sorted(want))
    for k, (p, v) in want.items():
        if k in ds:
            rec.values += v.size
            rec.true(ds[k].dims == ("draw", p) and np.array_equal(np.asarray(ds[k].values), v), "packaged curves", key=k)
            rec.true(np.array_equal(np.asarray(ds[k].coords[p].values), kx[p]), "grid coordinates", key=p)
            rec.true(np.array_equal(np.asarray(ds[k].coords["draw"].values), np.arange(n)), "draw coordinate")


class Hook:
    """captures what each figure shows at the moment it is closed"""

    def __enter__(self):
        self.figs, self.old = [], plt.close

        def close(*a, **k):
            self.take()
            return self.old("all")

        plt.close = close
        return self

    def take(self):
        for num in plt.get_fignums():
            f = plt.figure(num)
            axs = []
            for ax in f.axes:
                lines = [(ln.get_label(), np.asarray(ln.get_xdata(), float), np.asarray(ln.get_ydata(), float), matplotlib.colors.to_hex(ln.get_color())) for ln in ax.get_lines()]
                bands = [(np.concatenate([p.vertices for p in c.get_paths()]), matplotlib.colors.to_hex(c.get_facecolor()[0][:3])) for c in ax.collections]
                leg = ax.get_legend()
                axs.append((lines, bands, [t.get_text() for t in leg.get_texts()] if leg else []))
            self.figs.append(axs)

    def __exit__(self, *a):
        plt.close = self.old
        self.take()
        self.old("all")


def shows(rec, axs, x, sets, names, what, tol):
    """one figure showing exactly these curve sets"""
    if not rec.true(len(axs) == 1, f"{what}: one panel"):
        return
    lines, bands, leg = axs[0]
    rec.ev("figures")
    rec.true(len(lines) == len(sets) and len(bands) == len(sets), f"{what}: one line and one band per population", lines=len(lines), bands=len(bands))
    rec.true(sorted(leg) == sorted(names), f"{what}: populations under their own names", got=leg, want=names)
    used = set()
    for s, nm in zip(sets, names):
        c = np.asarray(s, float)
        med, lo, hi = np.median(c, axis=0), np.percentile(c, 5, axis=0), np.percentile(c, 95, axis=0)
        i = next((j for j, ln in enumerate(lines) if ln[0] == nm and j not in used), None)
        if i is None:
            rec.true(False, f"{what}: no line named after the population", name=nm, got=[ln[0] for ln in lines])
            continue
        used.add(i)
        rec.close(lines[i][1], np.asarray(x, float), f"{what}: abscissa", 1e-6)
        rec.close(lines[i][2], med, f"{what}: median of the supplied curves", tol, 1e-12)
        ok = False
        for v, col in bands:
            if col != lines[i][3]:
                continue
            order = np.argsort(np.asarray(x, float))
            g = np.asarray(x, float)[order]
            k = np.argmin(np.abs(v[:, 0][:, None] - g[None, :]), axis=1)
            mn, mx = np.full(len(g), np.inf), np.full(len(g), -np.inf)
            np.minimum.at(mn, k, v[:, 1])
            np.maximum.at(mx, k, v[:, 1])
            L, H = lo[order], hi[order]
            # the closing vertices of the polygon repeat its first and last point
            ok |= bool(np.all(np.abs(mn - L) <= tol * np.abs(L) + 1e-9) and np.all(np.abs(mx - H) <= tol * np.abs(H) + 1e-9))
        rec.true(ok, f"{what}: band from the 5th to the 95th percentile in the line's colour", name=nm)


def mk(rec, k, g, scale=1.0):
    rng = rec.rng
    n = int(rng.choice([1, 3, 20, 41]))
    out = [rec.arr(scale * np.exp(rng.normal(0, 1, (n, g))) * (i + 1)) for i in range(k)]
    return np.array(out) if rng.random() < 0.3 else out


def plots(rec):
    rng = rec.rng
    which = ["mass", "spin", "spin2", "rate", "single"][int(rec.index % 5)]
    k = int(rng.integers(1, 4))
    names = [["BBH", "peak", "low mass"][i] for i in rng.permutation(3)[:k]]
    colors = [["red", "blue", "green", "black", "orange"][i] for i in rng.permutation(5)[: max(k, 3)]]
    save = bool(rng.random() < 0.5)
    label = str(rng.choice(["run1", "x"]))
    kw = {} if save and rng.random() < 0.5 else {"save": save}
    if rng.random() < 0.5:
        kw["colors"] = colors
    d, cwd = tempfile.mkdtemp(prefix="verif_plot_"), tempfile.mkdtemp(prefix="verif_cwd_")
    here = os.getcwd()
    rec.note(which=which, names=names, save=save, label=label, colors="colors" in kw)
    tol = 4 * rec.eps + 1e-12
    try:
        os.chdir(cwd)
        g1, g2 = np.linspace(2, 100, 30), np.linspace(0.05, 1, 25)
        with Hook() as H:
            if which == "mass":
                a, b = mk(rec, k, 30), mk(rec, k, 25)
                keep = [np.array(v) for v in list(a) + list(b)]
                rec.call(PL.plot_mass_pdfs, a, b, g1, g2, names, label, d, **kw)
                exp, nf = [(g1, a, names, "primary mass"), (g2, b, names, "mass ratio")], 2
            elif which in ("spin", "spin2"):
                x, c = np.linspace(0, 1, 20), np.linspace(-1, 1, 33)
                a, b = mk(rec, k, 20), mk(rec, k, 33)
                keep = [np.array(v) for v in list(a) + list(b)]
                if which == "spin2" or rng.random() < 0.5:
                    kw["secondary"] = which == "spin2"
                rec.call(PL.plot_spin_pdfs, a, b, x, c, names, label, d, **kw)
                exp, nf = [(x, a, names, "spin magnitude"), (c, b, names, "tilt")], 2
            elif which == "rate":
                z = np.linspace(0.01, 1.9, 28)
                a, b = mk(rec, 1, 28, 20.0), []
                keep = [np.array(v) for v in list(a) + list(b)]
                kw.pop("colors", None)
                rec.call(PL.plot_rate_of_z_pdfs, a[0], z, label, d, **kw)
                exp, nf = [(z, a, ["redshift"], "rate of redshift")], 1
            else:
                a, b = mk(rec, k, 30), []
                keep = [np.array(v) for v in list(a) + list(b)]
                plt.figure()
                for i in range(k):
                    o = {"color": colors[i]}
                    if rng.random() < 0.5:
                        o["loglog"] = bool(rng.random() < 0.5)
                    if rng.random() < 0.5:
                        o["alpha"] = 0.5
                    rec.call(PL.plot_pdf, g1, a[i], names[i], **o)
                plt.legend()
                exp, nf, save = [(g1, a, names, "curve set")], 0, False
        rec.true(len(H.figs) == len(exp), "one figure per quantity", got=len(H.figs), want=len(exp))
        for axs, (x, s, nm, what) in zip(H.figs, exp):
            shows(rec, axs, x, s, nm, what, tol)
        rec.true(all(np.array_equal(u, v) for u, v in zip(keep, list(a) + list(b))), "plotting leaves the curves alone")
        files = sorted(os.listdir(d))
        rec.true(os.listdir(cwd) == [], "nothing written outside the result directory", files=os.listdir(cwd))
        rec.true(len(files) == (nf if save else 0), "files written exactly when asked", files=files, save=save)
        rec.true(all(os.path.getsize(os.path.join(d, f)) > 1000 for f in files), "written figures are not empty")
    finally:
        os.chdir(here)
        plt.close("all")
        shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree(cwd, ignore_errors=True)


def distinct_files(rec):
    """plots of one run do not overwrite each other"""
    rng = rec.rng
    d = tempfile.mkdtemp(prefix="verif_plot_")
    try:
        g = np.linspace(0.1, 1, 12)
        rec.note(u=float(rng.random()))
        a = [rec.arr(rng.random((5, 12)) + 0.1)]
        rec.call(PL.plot_spin_pdfs, a, a, g, g, ["p"], "run", d)
        rec.call(PL.plot_spin_pdfs, a, a, g, g, ["p"], "run", d, secondary=True)
        rec.call(PL.plot_mass_pdfs, a, a, g, g, ["p"], "run", d)
        rec.call(PL.plot_rate_of_z_pdfs, a[0], g, "run", d)
        n = len(os.listdir(d))
        rec.true(n == 7, "seven plots, seven files", files=sorted(os.listdir(d)))
        rec.call(PL.plot_mass_pdfs, a, a, g, g, ["p"], "other", d)
        rec.true(len(os.listdir(d)) == 9, "another label, other files", files=sorted(os.listdir(d)))
    finally:
        plt.close("all")
        shutil.rmtree(d, ignore_errors=True)


KINDS = {"packaged": (packaged, 40, 500), "curves": (curves, 40, 500), "plots": (plots, 40, 300), "distinct_files": (distinct_files, 2, 6)}
