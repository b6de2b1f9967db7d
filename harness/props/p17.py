import copy
import os
import shutil
import sys
import tempfile

import jax.numpy as jnp
import numpy as np
import yaml
from scipy import special, stats

from gwinferno.pipeline import analysis as A
from gwinferno.pipeline import parser as PA
from gwinferno.pipeline import utils as UT

from .. import oracles as O
from . import lik

TECHNIQUE = "runtime monitoring: configurations generated as files, the parsed objects and the traces of the models built from them judged against an independent hand-written evaluation of the same configuration"
RULE = ("random configuration files (power law, truncated normal, normal, uniform and beta models, mixtures, shared parameters, priors or fixed values incl. lists, likelihood options) x hyper-parameter points x data sets, run repeatedly and interleaved; python-file models with colliding names; command lines of both scripts' option sets; "
        "non-trivial = every latent site, its prior and the likelihood factor compared with a float64 reference")
ASSUMPTIONS = ["the redshift model is the redshift power law with a fixed maximum, as in the examples", "mixtures have a Dirichlet prior on their weights (the reader takes the number of components from it)", "judged at least 0.5% away from the effective-sample thresholds"]
ND = "numpyro.distributions."
GD = "gwinferno.numpyro_distributions."


def fl(x):
    return float(np.float32(round(float(x), 3)))


# --- hyper-parameter declarations: (yaml block, prior logpdf or None, a value in its support) -------------
def hyper(rng, lo, hi, allow_fixed=True):
    if allow_fixed and rng.random() < 0.4:
        v = fl(rng.uniform(lo, hi))
        return {"value": v}, None, v
    if rng.random() < 0.6:
        a, b = fl(lo), fl(hi)
        v = fl(rng.uniform(lo + 0.05 * (hi - lo), hi - 0.05 * (hi - lo)))
        return {"prior": ND + "Uniform", "prior_params": {"low": a, "high": b}}, stats.uniform(a, b - a).logpdf, v
    m, s = fl(0.5 * (lo + hi)), fl(0.3 * (hi - lo))
    v = fl(rng.uniform(lo, hi))
    return {"prior": ND + "Normal", "prior_params": {"loc": m, "scale": s}}, stats.norm(m, s).logpdf, v


def powerlaw_logp(x, alpha, minimum, maximum):
    with np.errstate(divide="ignore"):
        return np.where((x < minimum) | (x > maximum), -np.inf, np.log(np.maximum(O.powerlaw(np.clip(x, minimum, maximum), alpha, minimum, maximum), 1e-300)))


FAM = {
    "pl_mass": (GD + "Powerlaw", dict(alpha=(-4.0, -1.3), minimum=(2.0, 4.5), maximum=(80.0, 100.0)), powerlaw_logp),
    "pl_q": (GD + "Powerlaw", dict(alpha=(0.3, 4.0), minimum=(0.02, 0.05), maximum=(1.0, 1.0)), powerlaw_logp),
    "normal_m": (ND + "Normal", dict(loc=(20.0, 40.0), scale=(5.0, 20.0)), lambda x, loc, scale: stats.norm(loc, scale).logpdf(x)),
    "normal_u": (ND + "Normal", dict(loc=(0.2, 0.8), scale=(0.2, 1.0)), lambda x, loc, scale: stats.norm(loc, scale).logpdf(x)),
    "trunc_u": (ND + "TruncatedNormal", dict(loc=(0.2, 0.8), scale=(0.2, 1.0), low=(0.0, 0.0), high=(1.0, 1.0)),
                lambda x, loc, scale, low, high: np.log(O.truncnorm(x, loc, scale, low, high))),
    "trunc_m": (ND + "TruncatedNormal", dict(loc=(20.0, 40.0), scale=(5.0, 20.0), low=(1.0, 1.0), high=(110.0, 110.0)),
                lambda x, loc, scale, low, high: np.log(O.truncnorm(x, loc, scale, low, high))),
    "beta": (ND + "Beta", dict(concentration1=(1.2, 4.0), concentration0=(1.2, 4.0)), lambda x, concentration1, concentration0: stats.beta(concentration1, concentration0).logpdf(x)),
    "uniform_ct": (ND + "Uniform", dict(low=(-1.0, -1.0), high=(1.0, 1.0)), lambda x, low, high: np.full(np.shape(x), -np.log(high - low))),
    "normal_ct": (ND + "Normal", dict(loc=(-0.5, 1.0), scale=(0.3, 2.0)), lambda x, loc, scale: stats.norm(loc, scale).logpdf(x)),
}
CHOICE = {"mass_1": ["pl_mass", "pl_mass", "normal_m", "mix:pl_mass+trunc_m", "mix:trunc_m+trunc_m+pl_mass", "mix:normal_m+normal_m"], "mass_ratio": ["pl_q", "beta", "trunc_u", "mix:beta+beta", "mix:trunc_u+trunc_u"], "a_1": ["beta", "trunc_u", "normal_u", "mix:beta+beta"],
          "cos_tilt_1": ["uniform_ct", "normal_ct", "mix:normal_ct+normal_ct+normal_ct"]}


class Spec:
    """a generated configuration with its own evaluation"""

    def __init__(self, rec):
        rng = rec.rng
        self.fixed, self.prior, self.value, self.logp, self.models = {}, {}, {}, {}, {}
        self.names = ["mass_1", "mass_ratio", "redshift"]
        if rng.random() < 0.6:
            self.names.append("a_1")
        if rng.random() < 0.5:
            self.names.append("cos_tilt_1")
        self.iid = {}
        order = [self.names[i] for i in rng.permutation(len(self.names))]
        for p in order:
            if p == "redshift":
                self.models[p] = {"model": GD + "PowerlawRedshift", "hyper_params": {}}
                zmax = float(rng.choice([1.9, 2.3]))
                hps = {"lamb": hyper(rng, -1.0, 4.0), "maximum": ({"value": zmax}, None, zmax)}
                self.add(p, "", self.models[p]["hyper_params"], hps, rng)
                self.zmax = zmax
                self.logp[p] = ("single", self.redshift, "")
                continue
            fam = str(rng.choice(CHOICE[p]))
            if fam.startswith("mix:"):
                parts = fam[4:].split("+")
                if rng.random() < 0.12:
                    parts = [parts[int(i)] for i in rng.integers(0, len(parts), int(rng.integers(8, 14)))]
                conc = [fl(rng.uniform(0.5, 3)) for _ in parts]
                w = rng.dirichlet(np.ones(len(parts)) * 2)
                w = np.asarray(np.maximum(w, 0.02) / np.maximum(w, 0.02).sum())
                blk = {"model": ND + "MixtureGeneral", "mixture_dist": {"model": ND + "Categorical", "hyper_params": {"probs": {"prior": ND + "Dirichlet", "prior_params": {"concentration": list(conc)}}}}}
                key = f"{p}_mixture_dist_probs"
                self.prior[key] = lambda v, c=np.array(conc): float(stats.dirichlet(c).logpdf(np.asarray(v, float) / np.sum(np.asarray(v, float))))
                self.value[key] = w
                comps = []
                for i, f in enumerate(parts):
                    cls, ranges, lp = FAM[f]
                    c = {"model": cls, "hyper_params": {}}
                    self.add(p, f"component_{i + 1}_", c["hyper_params"], {h: hyper(rng, *r) if r[0] != r[1] else ({"value": r[0]}, None, r[0]) for h, r in ranges.items()}, rng)
                    blk[f"component_{i + 1}"] = c
                    comps.append((lp, f"component_{i + 1}_", list(ranges)))
                self.models[p] = blk
                self.logp[p] = ("mix", comps, key)
                if rng.random() < 0.5:
                    items = list(blk.items())
                    blk = {k: v for k, v in [items[0]] + [items[1 + i] for i in rng.permutation(len(items) - 1)]}
                    self.models[p] = blk
            else:
                cls, ranges, lp = FAM[fam]
                self.models[p] = {"model": cls, "hyper_params": {}}
                self.add(p, "", self.models[p]["hyper_params"], {h: hyper(rng, *r) if r[0] != r[1] else ({"value": r[0]}, None, r[0]) for h, r in ranges.items()}, rng)
                self.logp[p] = ("single", lp, list(ranges))
            if p in ("a_1", "cos_tilt_1") and rng.random() < 0.6:
                self.iid[p[:-1] + "2"] = p
                self.models[p]["iid"] = {"shared_parameter": p[:-1] + "2"}
        self.all = self.names + list(self.iid)
        self.label, self.outdir = f"run_{rng.integers(1000)}", f"out_{rng.integers(1000)}"
        self.lik = [{}, {"min_neff_cut": False}, {"min_neff_cut": False, "posterior_predictive_check": False}, {"marginalize_selection": True}, {"min_neff_cut": False, "max_variance_cut": True}, {"marginalize_selection": True, "min_neff_cut": False}, {"posterior_predictive_check": False}][rng.integers(7)]
        yml = {"models": copy.deepcopy(self.models)}
        self.has_label = rng.random() < 0.7
        if self.has_label:
            yml["label"], yml["outdir"] = self.label, self.outdir
        self.data = {"catalog_summary_json": "x.json", "n": int(rng.integers(10))}
        self.sampler = {"kernel": "NUTS", "mcmc_kwargs": {"num_warmup": int(rng.integers(1, 9))}}
        if rng.random() < 0.7:
            yml["data"], yml["sampler"] = self.data, self.sampler
        else:
            self.data, self.sampler = {}, {}
        if self.lik or rng.random() < 0.5:
            yml["likelihood"] = dict(self.lik)
        self.yml = yml

    def add(self, p, pre, target, hps, rng):
        for h in [list(hps)[i] for i in rng.permutation(len(hps))]:
            blk, lp, v = hps[h]
            key = f"{p}_{pre}{h}"
            target[h] = blk
            self.value[key] = v
            if lp is None:
                self.fixed[key] = v
            else:
                self.prior[key] = lp

    def redshift(self, z, lamb, maximum):
        g = np.linspace(1e-9, maximum, 4001)
        norm = O.trapz(O.PLANCK15_LVK.dV(g) * (1 + g) ** (lamb - 1), g)
        return np.log(O.PLANCK15_LVK.dV(z)) + (lamb - 1) * np.log1p(z) - np.log(norm)

    def log_prob(self, p, x, val):
        src = self.iid.get(p, p)
        kind, f, extra = self.logp[src]
        x = np.asarray(x, float)
        if src == "redshift":
            return f(x, val["redshift_lamb"], self.zmax)
        if kind == "single":
            return f(x, **{h: val[f"{src}_{h}"] for h in extra})
        w = np.asarray(val[extra], float)
        w = w / w.sum()
        with np.errstate(divide="ignore"):
            return special.logsumexp([np.log(w[i]) + lp(x, **{h: val[f"{src}_{pre}{h}"] for h in hs}) for i, (lp, pre, hs) in enumerate(f)], axis=0)

    def point(self, rng):
        """another hyper-parameter point inside the supports"""
        val = dict(self.value)
        for k in self.prior:
            if np.ndim(val[k]):
                w = rng.dirichlet(np.ones(len(val[k])) * 3) + 0.02
                val[k] = w / w.sum()
            else:
                val[k] = float(np.float32(self.value[k] * (1 + 0.01 * rng.uniform(-1, 1))))
        return val


def datasets(rec, spec, E, S, n):
    rng = rec.rng

    def block(sh):
        d = {"mass_1": rng.uniform(4.6, 79, sh), "mass_ratio": rng.uniform(0.3, 0.99, sh), "redshift": rng.uniform(0.05, 1.5, sh)}
        d["mass_1"][..., 0] = 3.0
        for k in ("a_1", "a_2"):
            d[k] = rng.uniform(0.05, 0.95, sh)
        for k in ("cos_tilt_1", "cos_tilt_2"):
            d[k] = rng.uniform(-0.95, 0.95, sh)
        d["prior"] = np.exp(rng.normal(0, float(rng.choice([1.0, 1.0, 2.2])), sh))
        return {k: rec.arr(v) for k, v in d.items()}

    return block((E, S)), block((n,))


def expected(spec, pe, inj, N, E, val):
    lp = sum(spec.log_prob(p, pe[p], val) for p in spec.all) - np.log(pe["prior"].astype(float))
    li = sum(spec.log_prob(p, inj[p], val) for p in spec.all) - np.log(inj["prior"].astype(float))
    bf, le, var = O.event_estimates(lp)
    mu, lei, rel = O.selection_estimates(li, N)
    opt = dict(min_neff_cut=True, marginalize_selection=False, max_variance_cut=False)
    opt.update({k: v for k, v in spec.lik.items() if k in opt})
    ll = bf.sum() - E * (mu - opt["marginalize_selection"] * (3 + E) / (2 * np.exp(lei)))
    rej, close = False, False
    if opt["min_neff_cut"]:
        rej = lei < np.log(4 * E) or le.min() <= np.log(E)
        close = abs(lei - np.log(4 * E)) < 5e-3 or abs(le.min() - np.log(E)) < 5e-3
    if opt["max_variance_cut"]:
        v = E**2 * rel + var.sum()
        rej, close = v > 1, abs(v - 1) < 1e-2
    return ll, rej, close, np.exp(mu)


def write(d, name, yml):
    path = os.path.join(d, name)
    with open(path, "w") as f:
        yaml.safe_dump(yml, f, sort_keys=False)
    return path


def judge_parse(rec, spec, r):
    rec.true(r.label == (spec.label if spec.has_label else "label") and r.outdir == (spec.outdir if spec.has_label else "./"), "label and output directory as configured", label=r.label, outdir=r.outdir)
    rec.true(r.data_conf == spec.data and r.sampler_conf == spec.sampler and r.likelihood_kwargs == spec.lik, "data, sampler and likelihood sections as configured")
    rec.true(set(r.models) == set(spec.all), "one model per population parameter", got=list(r.models), want=spec.all)
    rec.true(sorted(r.sampling_params) == sorted(spec.prior), "exactly the hyper-parameters with a prior are sampled", got=sorted(r.sampling_params), want=sorted(spec.prior))
    rec.true(set(r.priors) == set(spec.value), "one entry per hyper-parameter", got=sorted(r.priors), want=sorted(spec.value))
    for k, v in spec.fixed.items():
        rec.true(np.all(np.asarray(r.priors[k]) == np.asarray(v)), f"fixed value of {k}", got=str(r.priors[k]), want=v)


def judge_run(rec, spec, model, pe, inj, N, E, tobs, val, what):
    data = {k: jnp.asarray(np.asarray(val[k], dtype=rec.ft)) for k in spec.prior}
    val = {k: (np.asarray(data[k]).astype(float) if k in data else v) for k, v in val.items()}
    g = float(rec.ft(1.7))
    data["unscaled_rate"] = jnp.asarray(rec.ft(g))
    sd = {k: jnp.asarray(v) for k, v in pe.items()}
    jd = {k: jnp.asarray(v) for k, v in inj.items()}
    tr = lik.run(lambda: rec.call(model, sd, jd, N, E, tobs), data=data)
    latent = {k for k, s in tr.items() if s["type"] == "sample" and not s["is_observed"]}
    rec.true(latent - {"unscaled_rate"} == set(spec.prior), f"{what}: exactly the declared hyper-parameters are sampled", got=sorted(latent), want=sorted(spec.prior))
    for k, lp in spec.prior.items():
        if k in tr:
            got = float(np.sum(np.asarray(tr[k]["fn"].log_prob(tr[k]["value"]))))
            rec.close(got, float(np.asarray(lp(val[k]))), f"{what}: prior of {k}", 1e-4 * rec.tol(1, 1e-4), 2e-4 * rec.tol(1, 1e-4))
    ll, rej, near, mu = expected(spec, pe, inj, N, E, val)
    if near:
        rec.ev("near-threshold")
        return None
    got = lik.factor_value(tr["log_likelihood"])
    if rej:
        rec.ev("rejected")
        rec.true(lik.is_lowest(rec, got), f"{what}: unconverged point is rejected", got=got)
    else:
        rec.ev("accepted")
        rec.close(got, ll, f"{what}: likelihood", 0, (1e-3 if not rec.x64 else 1e-4) * E + 1e-5 * abs(ll) * rec.tol(1, 0))
    vol = O.trapz(O.PLANCK15_LVK.dV(G := np.linspace(1e-9, spec.zmax, 4001)) * (1 + G) ** (float(val["redshift_lamb"]) - 1), G)
    rec.close(lik.val(tr, "rate"), g / mu / (vol / 1e9 * tobs), f"{what}: rate uses the configured redshift model's volume", 3e-3)
    ppc = spec.lik.get("posterior_predictive_check", True)
    seen = {k for k in tr if k.endswith("_obs_event_0")}
    rec.true(seen == ({f"{p}_obs_event_0" for p in spec.all} if ppc else set()), f"{what}: predictive draws for the population parameters", seen=sorted(seen))
    return np.asarray(got)


def config(rec):
    rng = rec.rng
    spec = Spec(rec)
    d = tempfile.mkdtemp(prefix="verif_cfg_")
    try:
        path = write(d, "config.yml", spec.yml)
        rec.note(models={p: spec.models[p]["model"] for p in spec.models}, iid=spec.iid, lik=spec.lik, values=spec.value)
        r = PA.ConfigReader()
        rec.call(r.parse, path)
        judge_parse(rec, spec, r)
        model = rec.call(A.construct_hierarchical_model, r.models, r.priors, **r.likelihood_kwargs)
        E, S, n, N, tobs = 3, 60, 300, 3000, 0.7
        pe, inj = datasets(rec, spec, E, S, n)
        first = judge_run(rec, spec, model, pe, inj, N, E, tobs, spec.value, "first run")
        # other point, other data, then the first again, on the same model object
        v2 = spec.point(rng)
        judge_run(rec, spec, model, pe, inj, N, E, tobs, v2, "other hyper-parameters")
        pe2, inj2 = datasets(rec, spec, 2, S, n)
        # a second configuration read and run in between
        other = Spec(rec)
        r2 = PA.ConfigReader()
        rec.call(r2.parse, write(d, "other.yml", other.yml))
        judge_parse(rec, other, r2)
        judge_parse(rec, spec, r)
        m2 = rec.call(A.construct_hierarchical_model, r2.models, r2.priors, **r2.likelihood_kwargs)
        judge_run(rec, other, m2, pe2, inj2, 2 * N, 2, 1.3, other.value, "another configuration in between")
        judge_run(rec, spec, model, pe2, inj2, 2 * N, 2, 1.3, v2, "other data")
        again = judge_run(rec, spec, model, pe, inj, N, E, tobs, spec.value, "first run repeated")
        if first is not None and again is not None:
            rec.true(np.array_equal(first, again), "repeating a run gives the identical likelihood", first=first, again=again)
        # unrestricted draw: latent values come from the priors and are those used
        E0 = 2
        tr = lik.run(lambda: model({k: jnp.asarray(v) for k, v in pe2.items()}, {k: jnp.asarray(v) for k, v in inj2.items()}, N, E0, tobs), seed=int(rng.integers(1000)))
        rec.finite(lik.factor_value(tr["log_likelihood"]), "likelihood of a prior draw")
    finally:
        shutil.rmtree(d, ignore_errors=True)


def pyfile(rec):
    rng = rec.rng
    root = tempfile.mkdtemp(prefix="verif_py_")
    keep_path, keep_mod = list(sys.path), set(sys.modules)
    try:
        files = []
        for i in range(int(rng.integers(2, 5))):
            sub = os.path.join(root, str(rng.choice(["d", "Run-1", "run-1", "run_1", "RUN_1", "run.1", "d/run_1", "d/Run_1"])))
            if rng.random() < 0.3:
                sub += str(i)
            os.makedirs(sub, exist_ok=True)
            name = str(rng.choice(["model.py", "model.py", "my_model.py", "my-model.py", "Model.py", "population.py", "json.py", "model.v2.py"]))
            if os.path.exists(os.path.join(sub, name)):
                continue
            tag = int(rng.integers(10**6)) * 10 + i
            with open(os.path.join(sub, name), "w") as f:
                f.write(f"TAG = {tag}\n\n\ndef helper():\n    return TAG\n\n\ndef model(*args):\n    return ({tag}, helper(), args)\n")
            files.append((os.path.join(sub, name), tag))
        rec.note(files=[os.path.basename(f) for f, _ in files])
        got = []
        for c, k in enumerate(rng.integers(0, len(files), 8)):
            path, tag = files[k]
            if c == 4 and rng.random() < 0.5:  # the file is changed between two loads
                tag = tag * 1000 + 7
                with open(path, "w") as f:
                    f.write(f"# changed\nTAG = {tag}\n\n\ndef helper():\n    return TAG\n\n\ndef model(*args):\n    return ({tag}, helper(), args)\n")
                files[k] = (path, tag)
                rec.ev("file-changed")
            m = rec.call(PA.load_model_from_python_file, path)
            out = m(1, 2)
            rec.true(out == (tag, tag, (1, 2)), "the model of the named file is loaded", path=path, got=str(out), want=tag)
            got.append((m, tag))
        for m, tag in got:
            rec.true(m()[:2] == (tag, tag), "models loaded earlier keep working")
        y = write(root, "c.yml", {"models": {"python_file": files[0][0]}, "label": "x"})
        r = PA.ConfigReader()
        rec.call(r.parse, y)
        rec.true(r.models == {"file_path": files[0][0]} and r.priors == {} and r.sampling_params == [], "a configuration naming a python file", models=str(r.models))
    finally:
        sys.path[:] = keep_path
        for k in set(sys.modules) - keep_mod:
            if getattr(sys.modules[k], "__file__", None) and str(sys.modules[k].__file__).startswith(root):
                del sys.modules[k]
        shutil.rmtree(root, ignore_errors=True)


def values(rec):
    """fixed lists become arrays; list-valued prior parameters too; unknown names fail loudly"""
    rng = rec.rng
    d = tempfile.mkdtemp(prefix="verif_cfg_")
    try:
        vec = [fl(v) for v in rng.normal(size=3)]
        con = [fl(v) for v in rng.uniform(0.5, 3, 3)]
        s = fl(rng.normal())
        yml = {"models": {"mass_1": {"model": ND + "Normal", "hyper_params": {"loc": {"value": vec}, "scale": {"prior": ND + "Dirichlet", "prior_params": {"concentration": con}}, "extra": {"value": s}}}}}
        rec.note(vec=vec, con=con)
        r = PA.ConfigReader()
        rec.call(r.parse, write(d, "c.yml", yml))
        v = r.priors["mass_1_loc"]
        rec.true(hasattr(v, "shape") and v.shape == (3,), "a list value becomes an array", got=str(type(v)))
        rec.close(np.asarray(v), vec, "list value", 1e-6)
        pr = r.priors["mass_1_scale"]
        rec.true(pr.dist.__name__ == "Dirichlet", "prior distribution as named", got=str(pr.dist))
        c = pr.params["concentration"]
        rec.true(hasattr(c, "shape") and c.shape == (3,), "a list-valued prior parameter becomes an array")
        rec.close(np.asarray(c), con, "list-valued prior parameter", 1e-6)
        rec.true(r.priors["mass_1_extra"] == s, "scalar value kept")
        rec.true(r.models["mass_1"].model.__name__ == "Normal" and set(r.models["mass_1"].params) == {"loc", "scale", "extra"}, "model and hyper-parameters as named")
        for name, args in (("Uniform", {"low": [fl(v) for v in rng.uniform(-1, 0, 2)], "high": [fl(v) for v in rng.uniform(1, 2, 2)]}), ("Normal", {"loc": vec, "scale": con}), ("Gamma", {"concentration": con, "rate": s * s + 1}), ("MultivariateNormal", {"loc": vec[:2], "covariance_matrix": [[2.0, 0.5], [0.5, 1.0]]})):
            r2 = PA.ConfigReader()
            rec.call(r2.parse, write(d, "l.yml", {"models": {"mass_1": {"model": ND + "Normal", "hyper_params": {"loc": {"prior": ND + name, "prior_params": args}}}}}))
            q = r2.priors["mass_1_loc"]
            rec.true(q.dist.__name__ == name and set(q.params) == set(args), "prior distribution and its parameters as named", got=str(q))
            for k, w in args.items():
                if isinstance(w, list):
                    rec.true(hasattr(q.params[k], "shape"), f"a list-valued prior parameter becomes an array ({name} {k})", got=str(type(q.params[k])))
                rec.close(np.asarray(q.params[k], float), w, f"prior parameter {k}", 1e-6)
            f = q.dist(**q.params)
            rec.true(np.all(np.isfinite(np.asarray(f.mean))), "the prior can be built from the configuration")
        rec.raises(Exception, r.parse, write(d, "bad.yml", {"models": {"mass_1": {"model": ND + "NoSuchDistribution", "hyper_params": {}}}}), what="an unknown distribution")
    finally:
        shutil.rmtree(d, ignore_errors=True)


INTS = ["chains", "samples", "thinning", "warmup"]
OPTIONS = {
    "utils": (INTS + ["m-nsplines", "q-nsplines", "a-nsplines", "tilt-nsplines", "z-nsplines", "rngkey"], ["mmin", "mmax"], ["pe-inj-file", "run-label", "result-dir"], ["save-plots"]),
    "parser": (INTS, ["mmin", "mmax"], ["data-dir", "inj-file", "outdir"], []),
}


def options(rec):
    """command lines: every option given has the value given, every other keeps its default, for any subset and order"""
    rng = rec.rng
    which = "utils" if rng.random() < 0.6 else "parser"
    ints, floats, strings, booleans = OPTIONS[which]
    make = (UT if which == "utils" else PA).load_base_parser
    rest = vars(rec.call(make).parse_args([]))
    names = ints + floats + strings + booleans + ["skip-inference"]
    rec.true({n.replace("-", "_") for n in names} <= set(rest), "the options exist", got=sorted(rest))
    rec.true(rest["skip_inference"] is False, "inference is not skipped unless asked for", got=rest["skip_inference"])
    for k in ints:
        rec.true(type(rest[k.replace("-", "_")]) is int and rest[k.replace("-", "_")] > 0, f"default of --{k} is a positive whole number", got=rest[k.replace("-", "_")])
    rec.true(0 < rest["mmin"] < rest["mmax"], "default mass range", got=(rest["mmin"], rest["mmax"]))
    shared, lines = rec.call(make), []
    for _ in range(6):
        take = [n for n in names if rng.random() < 0.5]
        take = [take[i] for i in rng.permutation(len(take))]
        want, args = dict(rest), []
        for n in take:
            key = n.replace("-", "_")
            if n in ints:
                v = int(rng.choice([0, 1, 2, 7, 1500, 2**31 + 5])) if n == "rngkey" else int(rng.integers(1, 10**int(rng.integers(1, 7))))
                word = str(v)
            elif n in floats:
                v = float(rng.choice([2.5, 5.0, 1e-3, 87.25, 1e3, 0.0])) if rng.random() < 0.5 else float(rng.uniform(0, 200))
                word = repr(v)
            elif n in strings:
                v = word = str(rng.choice(["a.nc", "/data/x y/f.h5", "run_1", "../up", "O3b-2", "False", "12", "a=b"]))
            elif n in booleans:
                v = bool(rng.random() < 0.5)
                word = str(v)
            else:
                want[key] = True
                args.append("--" + n)
                continue
            want[key] = v
            args += [f"--{n}={word}"] if rng.random() < 0.4 else [f"--{n}", word]
        got = vars(rec.call((shared if rng.random() < 0.5 else make()).parse_args, args))
        rec.ev(f"command-line-{which}")
        lines.append(" ".join(args))
        for k in rest:
            same = got[k] == want[k] and type(got[k]) is type(want[k])
            rec.true(same, f"option {k} is the value given, or its default", args=args, got=got[k], want=want[k])
    rec.note(parser=which, command_lines=lines)


KINDS = {"config": (config, 32, 300), "pyfile": (pyfile, 12, 120), "values": (values, 12, 80), "options": (options, 24, 300)}
