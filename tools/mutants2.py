"""Second set of mutants: bugs that need something specific (a size, an option, a history, an edge) to show."""
from mutants import I, S, SEP, SP, PAR, D, ND, CO, AN, PU, PP, CA, PL, DC, PR, SE, CV
SM = "models/bsplines/smoothing.py"
M2 = [
 # P01
 ("q01a", "P01", I, "        design_matrix = jnp.concatenate(self._bases(xs)).reshape(self.N, *xs.shape)\n", "        if xs.ndim == 2 and xs.shape[0] > xs.shape[1]:\n            return jnp.swapaxes(self.bases(xs.T), 1, 2) if xs.shape[1] > 3 else jnp.concatenate(self._bases(xs.T)).reshape(self.N, *xs.shape)\n        design_matrix = jnp.concatenate(self._bases(xs)).reshape(self.N, *xs.shape)\n"),
 ("q01b", "P01", I, "interior_knots[-1] + dx_high * np.arange(1, k),\n                    ]\n                )\n\n        self.knots", "interior_knots[-1] + dx_high * np.minimum(np.arange(1, k), 4),\n                    ]\n                )\n\n        self.knots"),
 ("q01c", "P01", I, "        if self.knots[i + k] - self.knots[i] < 1e-6:", "        if (self.knots[i + k] - self.knots[i]) < 1e-6 * abs(self.knots[i]) * 200:"),
 ("q01d", "P01", I, "self.y_bases = self.y_interpolator.bases(ys)\n", "if self.y_bases is None or self.y_bases.shape[1:] != ys.shape:\n            self.y_bases = self.y_interpolator.bases(ys)\n"),
 # P02
 ("q02a", "P02", I, "        n = 1.0 / trapezoid(self._project(self.grid_bases, coefs), self.grid) if self.normalize else 1.0\n", "        n = 1.0 / jnp.maximum(trapezoid(self._project(self.grid_bases, coefs), self.grid), 1e-8) if self.normalize else 1.0\n"),
 ("q02b", "P02", I, "        coefs /= jnp.sum(coefs)\n", "        coefs = coefs / jnp.sum(jnp.abs(coefs))\n"),
 ("q02c", "P02", I, "        return jnp.exp(logvals)\n", "        return jnp.exp(jnp.minimum(logvals, 50.0))\n"),
 ("q02d", "P02", I, "self.grid = jnp.linspace(*xrange, 1000)\n            self.grid_bases = jnp.array(self.bases(self.grid))\n            self.basis_vols", "self.grid = jnp.linspace(*xrange, max(60, 1000 // max(1, self.N // 40 * 10)))\n            self.grid_bases = jnp.array(self.bases(self.grid))\n            self.basis_vols"),
 # P03
 ("q03a", "P03", I, "center = 3 * (p[1:] / h[1:] - p[:-1] / h[:-1])", "center = 3 * (p[1:] / jnp.maximum(h[1:], 1e-3) - p[:-1] / jnp.maximum(h[:-1], 1e-3))"),
 ("q03b", "P03", I, "ind = jnp.digitize(xs, knots) - 1\n", "ind = jnp.digitize(xs, knots) - 1 if jnp.ndim(xs) < 2 else (jnp.digitize(xs[0], knots) - 1) + jnp.zeros(jnp.shape(xs), int)\n"),
 ("q03c", "P03", I, "coefficients = jnp.linalg.solve(A, s)", "coefficients = jnp.linalg.solve(A, s) if n_data > 4 else jnp.linalg.solve(A + 0.05 * jnp.eye(n_data), s)"),
 # P04
 ("q04a", "P04", D, "    prob *= norm\n\n    return jnp.where(jnp.less(xx, low)", "    prob *= jnp.where(jnp.abs(alpha) > 12, jnp.abs(1 + alpha), norm) if jnp.ndim(alpha) == 0 else norm\n\n    return jnp.where(jnp.less(xx, low)"),
 ("q04b", "P04", D, "        left_tail_cdf = 0.5 * (1 + erf((low - mu) / (sig * (2**0.5))))", "        left_tail_cdf = jnp.where(low < mu, 0.5 * (1 + erf((low - mu) / (sig * (2**0.5)))), 0.5)"),
 ("q04c", "P04", D, "xlogy(alpha - 1, xx) +", "jnp.where(xx == 0, 0.0, xlogy(alpha - 1, xx)) +"),
 ("q04d", "P04", D, "        1 / jnp.log(high / low),\n", "        1 / jnp.maximum(jnp.log(high / low), 0.1),\n"),
 ("q04e", "P04", D, "    s1 = jnp.where(jnp.less(dist, dx), 0, 1)", "    s1 = jnp.where(jnp.less_equal(dist, dx), 0, 1)"),
 ("q04f", "P04", D, "        -sgn * sc * (x - x0) + jnp.log(logistic_unit(x, x0, sgn=-sgn, sc=sc)),", "        -sgn * jnp.minimum(sc, 30.0) * (x - x0) + jnp.log(logistic_unit(x, x0, sgn=-sgn, sc=sc)),"),
 # P05
 ("q05a", "P05", PAR, "    p_m1 = powerlaw_logit_pdf(m1, alpha, mmin, mmax, fall_off)\n", "    p_m1 = powerlaw_logit_pdf(m1, alpha, mmin, mmax, jnp.minimum(fall_off, 10.0))\n"),
 ("q05b", "P05", PAR, "    return cut * (1 - xi_tilt) / 2 + xi_tilt * truncnorm_pdf(ct, 1, sigma_tilt, -1, 1)", "    return cut * (1 - xi_tilt) / 2 + xi_tilt * truncnorm_pdf(ct, 1, jnp.maximum(sigma_tilt, 0.05), -1, 1)"),
 ("q05c", "P05", PAR, "smooth(delta, m1, mmin) + lam * truncnorm_pdf(m1, mpp, sigpp, mmin, mmax)", "smooth(delta, m1, mmin) + lam * truncnorm_pdf(m1, mpp, sigpp, mmin, mmax) * jnp.where(mpp < mmin + delta, smooth(delta, m1, mmin), 1.0)"),
 ("q05d", "P05", PAR, "    ali2 = truncnorm_pdf(ct2, 1, sigma_tilt, -1, 1)\n", "    ali2 = truncnorm_pdf(jnp.abs(ct2), 1, sigma_tilt, -1, 1)\n"),
 # P06
 ("q06a", "P06", S, "        pdf = jnp.zeros(self._valid_xx_inj.shape)\n        pdf = pdf.at[self._valid_xx_inj].set(", "        pdf = jnp.zeros(self._valid_xx_inj.shape)\n        if not bool(self._valid_xx_inj[0]):\n            return pdf.at[self._valid_xx_inj].set(self.eval_spline(self.inj_design_matrix, coefs) * 1.001)\n        pdf = pdf.at[self._valid_xx_inj].set("),
 ("q06b", "P06", S, "            jnp.abs(chieff_inj),\n", "            chieff_inj if xrange[0] > 0 else jnp.abs(chieff_inj),\n"),
 ("q06c", "P06", S, "            k=degree + 1,\n", "            k=min(degree, 4) + 1,\n"),
 # P07
 ("q07a", "P07", SEP, "        return p_m1 * p_m2 * self.qs[dim] ** beta", "        return p_m1 * p_m2 * jnp.minimum(self.qs[dim], 1.0) ** beta"),
 ("q07b", "P07", SEP, "            n_splines=n_splines2,\n            ct=ct2,\n            ct_inj=ct2_inj,\n            **kwargs2,", "            n_splines=n_splines2,\n            ct=ct2,\n            ct_inj=ct2_inj,\n            **(kwargs2 or kwargs1),"),
 ("q07c", "P07", PU, "        m2min=mmin,\n        mmax=mmax,\n        kwargs_m", "        m2min=min(mmin, 3.0),\n        mmax=mmax,\n        kwargs_m"),
 ("q07d", "P07", SEP, "            jnp.less(self.qs[dim], 0) | jnp.greater(self.qs[dim], 1),", "            jnp.less(self.qs[dim], 0) | jnp.greater_equal(self.qs[dim], 1),"),
 ("q07e", "P07", SEP, "        p_q = powerlaw_pdf(q, beta, mmin / m1, 1)\n        return p_m1 * p_q\n\n\nclass PLPeak", "        p_q = powerlaw_pdf(q, beta, self.primary_model.xmin / m1, 1)\n        return p_m1 * p_q\n\n\nclass PLPeak"),
 # P08
 ("q08a", "P08", PAR, "        self.zs = jnp.linspace(self.zmin, self.zmax, 1000)\n        self.dVdz_", "        self.zs = jnp.linspace(0.0, self.zmax, 1000) if self.zmin < 1e-2 else jnp.linspace(self.zmin, self.zmax, 1000)\n        self.dVdz_"),
 ("q08b", "P08", S, "        self.zgrid = jnp.linspace(self.zmin, self.zmax, 1000)\n", "        self.zgrid = jnp.linspace(self.zmin, min(self.zmax, zmax), 1000)\n"),
 ("q08c", "P08", PAR, "            jnp.log(dVdz) + (lamb - 1.0) * jnp.log(1.0 + z) - jnp.log(self.normalization(lamb)),", "            jnp.log(dVdz) + (lamb - 1.0) * jnp.log(1.0 + z) - jnp.log(jnp.maximum(self.normalization(lamb), 1.0)),"),
 # P09
 ("q09a", "P09", SP, "        self.qs = jnp.linspace(mmin / mmax, 1, 500)", "        self.qs = jnp.linspace(max(mmin / mmax, 0.02), 1, 500)"),
 ("q09b", "P09", SP, "        window = jnp.where(jnp.isinf(window) | jnp.isnan(window), 1, window)", "        window = jnp.where(jnp.isinf(window) | jnp.isnan(window) | jnp.less(window, 1e-6), 1, window)"),
 ("q09c", "P09", SP, "        p_q = powerlaw_pdf(q, alpha=beta, low=self.m2min / m1, high=1)\n        return p_q\n", "        p_q = powerlaw_pdf(q, alpha=beta, low=jnp.minimum(self.m2min, self.mmin) / m1, high=1)\n        return p_q\n"),
 ("q09d", "P09", SP, "        mmin = kwargs.pop(\"mmin\", self.mmin)\n        vs", "        mmin = max(kwargs.pop(\"mmin\", self.mmin), self.mmin)\n        vs"),
 # P10
 ("q10a", "P10", ND, "        self.pdfs = self.dVdc_ * (1 + self.zs) ** (lamb - 1)\n        self.norm", "        self.pdfs = self.dVdc_ * (1 + self.zs) ** (lamb - 1) * (self.zs <= maximum)\n        self.norm"),
 ("q10b", "P10", ND, "        return jnp.clip(jnp.where(jnp.equal(self.alpha, -1.0), icdf_neg1, icdf), self.minimum, self.maximum)", "        return jnp.where(jnp.equal(self.alpha, -1.0), icdf_neg1, icdf)"),
 ("q10c", "P10", ND, "        return self.icdf(random.uniform(key, shape=sample_shape + self.batch_shape))\n\n    @validate_sample\n    def log_prob(self, value):\n        lp = jnp.log(jnp.cos(value)", "        return self.icdf(random.uniform(key, shape=sample_shape + self.batch_shape, minval=0.01))\n\n    @validate_sample\n    def log_prob(self, value):\n        lp = jnp.log(jnp.cos(value)"),
 ("q10d", "P10", ND, "        self.cdfgrid = jnp.concatenate([jnp.zeros(1), cumtrapz(self.pdfs, self.grid)])\n", "        self.cdfgrid = jnp.concatenate([jnp.zeros(1), jnp.cumsum(self.pdfs[1:] * jnp.diff(self.grid))])\n"),
 ("q10e", "P10", ND, "* self.maximum ** (self.alpha - self.alpha_max)\n            * (self.maximum", "* self.maximum ** (self.alpha - self.alpha_max)\n            * (self.minimum * 0 + self.maximum"),
 # P11
 ("q11a", "P11", CO, "        new_dVcdz = self.dVcdz(z[i] + dz, Dc[i + 1])", "        new_dVcdz = self.dVcdz(z[i] + dz, Dc[i])"),
 ("q11b", "P11", CO, "self.OmegaMatter * one_plus_z**3 + self.OmegaRadiation * one_plus_z**4\n        ) ** 0.5", "self.OmegaMatter * one_plus_z**3 + self.OmegaRadiation * one_plus_z**3\n        ) ** 0.5"),
 ("q11c", "P11", CO, "2 * jnp.log(Dc) + jnp.log(self.dDcdz(z))", "2 * jnp.log(jnp.maximum(Dc, 1.0)) + jnp.log(self.dDcdz(z))"),
 ("q11d", "P11", CO, "        return jnp.interp(DL, self.DL, self.z)", "        return jnp.interp(DL, self.DL, self.z) if jnp.ndim(DL) == 0 or max_DL < 5e4 else jnp.interp(DL, self.DL[::10], self.z[::10])"),
 # P12
 ("q12a", "P12", CO, "            self.extend(max_z=2 * jnp.max(self.z), dz=dz)\n        return", "            self.extend(max_z=2 * jnp.max(self.z), dz=jnp.max(self.z) / 1000)\n        return"),
 ("q12b", "P12", CO, "        self.z = jnp.arange(0, max_z, dz)\n", "        self.z = jnp.arange(0, max_z, dz) if not hasattr(self, 'z') else jnp.concatenate([self.z, jnp.arange(jnp.max(self.z) + dz, max_z, dz * 8)])\n"),
 ("q12c", "P12", CO, "    def DL(self):\n        return self.Dc * (1 + self.z)", "    def DL(self):\n        if not hasattr(self, '_DL') or len(self._DL) > len(self.z):\n            self._DL = self.Dc * (1 + self.z)\n        return self._DL"),
 # P13
 ("q13a", "P13", AN, "    variances = 1 / jnp.exp(logn_effs) - 1 / weights.shape[1]", "    variances = 1 / jnp.exp(logn_effs) - 1 / max(weights.shape[1], 8)"),
 ("q13b", "P13", AN, "        mu = jnp.sum(weights) / Ninj\n", "        mu = jnp.sum(weights) / jnp.asarray(Ninj, jnp.float16).astype(jnp.float32)\n"),
 ("q13c", "P13", AN, "        logBFs = logsumexp(logweights, axis=1)\n", "        logweights = jnp.where(logweights < -60, -jnp.inf, logweights)\n        logBFs = logsumexp(logweights, axis=1)\n"),
 # P14
 ("q14a", "P14", AN, "        log_det_eff = log_det_eff - (3 + Nobs) / (2 * jnp.exp(logn_eff_inj))", "        log_det_eff = log_det_eff - (3 + Nobs) / (2 * jnp.exp(logn_eff_inj)) * (1.0 if log else 1 / (1 - 0.01))"),
 ("q14b", "P14", AN, "jnp.where(Qs[i] == 0, pe_weights[0][i], pe_weights[1][i])", "jnp.where(Qs == 0, pe_weights[0][i], pe_weights[1][i][::-1][::-1]) if not log else jnp.where(Qs == 1, pe_weights[0][i], pe_weights[1][i])"),
 ("q14c", "P14", AN, "    sumlogBFs = numpyro.deterministic(\"sum_logBFs\", jnp.sum(logBFs))", "    sumlogBFs = numpyro.deterministic(\"sum_logBFs\", jnp.sum(jnp.where(jnp.isinf(logBFs), 0.0, logBFs)))"),
 # P15
 ("q15a", "P15", AN, "jnp.exp(jnp.min(jnp.nan_to_num(logn_effs)))", "jnp.exp(jnp.min(jnp.nan_to_num(logn_effs, nan=100.0)))"),
 ("q15b", "P15", AN, "        Nobs**2 * variance + variances.sum(),", "        Nobs**2 * variance + (variances.sum() if not categorical else variances.max()),"),
 ("q15c", "P15", AN, "            jnp.greater_equal(logn_eff_inj, jnp.log(4 * Nobs)),", "            jnp.greater_equal(logn_eff_inj, jnp.log(4 * Nobs)) | jnp.isnan(logn_eff_inj),"),
 ("q15d", "P15", AN, "jnp.less_equal(min_n_effs, Nobs),", "jnp.less(min_n_effs, Nobs),"),
 # P16
 ("q16a", "P16", AN, "                cond | jnp.less(pedata[\"mass_1\"] * pedata[\"mass_ratio\"], m2min),", "                cond | jnp.less(pedata[\"mass_1\"] * pedata[\"mass_ratio\"], min(m1min, m2min)),"),
 ("q16b", "P16", AN, "indv_weights[i][ev, obs_idx] / pe_weights[ev, obs_idx])", "indv_weights[i][ev, obs_idx] / sum(w[ev, obs_idx] for w in indv_weights))"),
 ("q16c", "P16", AN, "                k = random.PRNGKey(ev)\n                k1, k2 = random.split(k)", "                k = random.PRNGKey(ev)\n                k1, k2 = k, k"),
 ("q16d2", "P16", AN, "        rate = numpyro.deterministic(\"rate\", unscaled_rate / jnp.exp(log_det_eff) / total_vt)\n    if marginalize_selection:\n        log_det_eff = log_det_eff - (3 + Nobs) / (2 * jnp.exp(logn_eff_inj))\n", "    if marginalize_selection:\n        log_det_eff = log_det_eff - (3 + Nobs) / (2 * jnp.exp(logn_eff_inj))\n    if reconstruct_rate:\n        rate = numpyro.deterministic(\"rate\", unscaled_rate / jnp.exp(log_det_eff) / total_vt)\n"),
 # P17
 ("q17a", "P17", PP, "        N = len(subd[\"mixture_dist\"][\"hyper_params\"][mix_params[0]][\"prior_params\"][\"concentration\"])", "        N = min(len(subd[\"mixture_dist\"][\"hyper_params\"][mix_params[0]][\"prior_params\"][\"concentration\"]), 9)"),
 ("q17b", "P17", PP, "        elif \"value\" in subd:\n", "        elif subd.get(\"value\"):\n"),
 ("q17c", "P17", PP, "            for k in subd[\"prior_params\"]:\n                if type(subd[\"prior_params\"][k]) is list:\n                    subd[\"prior_params\"][k] = jnp.array(subd[\"prior_params\"][k])", "            for k in subd[\"prior_params\"]:\n                if type(subd[\"prior_params\"][k]) is list:\n                    subd[\"prior_params\"][k] = jnp.array(sorted(subd[\"prior_params\"][k]))"),
 ("q17d", "P17", AN, "                hyper_params[k] = numpyro.sample(k, v.dist(**v.params))\n            except AttributeError:\n                hyper_params[k] = v\n", "                hyper_params[k] = numpyro.sample(k, v.dist(**v.params))\n            except AttributeError:\n                hyper_params.setdefault(k, v)\n                hyper_params[k] = v if hyper_params[k] is None or jnp.ndim(v) else hyper_params[k]\n"),
 ("q17e", "P17", PP, "    spec = spec_from_file_location(fn.replace(\".py\", \"\"), path)\n    module = module_from_spec(spec)\n    spec.loader.exec_module(module)\n", "    name = path.replace(\"/\", \"_\").replace(\"-\", \"_\").lower()\n    if name in sys.modules:\n        return getattr(sys.modules[name], \"model\")\n    spec = spec_from_file_location(name, path)\n    module = module_from_spec(spec)\n    spec.loader.exec_module(module)\n    sys.modules[name] = module\n"),
 # P18
 ("q18a", "P18", SE, "        if \"far\" in key:\n            found |= injections[key] <= 1 / ifar", "        if key.endswith(\"_far\"):\n            found |= injections[key] <= 1 / ifar"),
 ("q18b", "P18", SE, "            if \"ifar\" in key.lower():\n", "            if \"ifar\" in key.lower() and \"cwb\" not in key.lower():\n"),
 ("q18c", "P18", SE, "        for key in \"analysis_time\", \"total_analysis_time\", \"analysis_time_s\":\n            if key in ff.attrs:\n                analysis_time = ff.attrs[key]\n", "        for key in \"analysis_time\", \"total_analysis_time\":\n            if key in ff.attrs:\n                analysis_time = ff.attrs[key]\n"),
 ("q18d", "P18", SE, "                found = found | (data[k][()] >= additional_cuts[k])", "                found = found | ((data[k][()] >= additional_cuts[k]) & np.isfinite(data[k][()]))"),
 ("q18e", "P18", SE, "    inj_weights = injections[found][\"weights\"]\n", "    inj_weights = np.minimum(injections[found][\"weights\"], 1e2)\n"),
 # P19
 ("q19a", "P19", SE, "    p_new = model_prob(injdata_new, **kwargs) / norm", "    p_new = (model_prob(injdata, **kwargs) / norm)[jnp.minimum(idxs, 999)]"),
 ("q19b", "P19", SE, "    N = int((jnp.sum(wts)) ** 2 // jnp.sum(wts * wts))", "    N = max(int((jnp.sum(wts)) ** 2 // jnp.sum(wts * wts)), 10)"),
 ("q19c", "P19", SE, "s2_new = jnp.sum((wts / Ndraw) ** 2) - norm * norm / Ndraw", "s2_new = jnp.sum((wts / Ndraw) ** 2) - norm * norm / max(Ndraw, 1000)"),
 # P20
 ("q20a", "P20", DC, "                sel = catalog_dict[ev][\"posterior\"][param_mapping[\"mass_1\"]] < mmax", "                sel = catalog_dict[ev][\"posterior\"][param_mapping[\"mass_2\"]] < mmax"),
 ("q20b", "P20", DC, "        z_max = cat_z_max if cat_z_max > z_max else z_max\n", "        z_max = min(cat_z_max, 2.5) if cat_z_max > z_max else z_max\n"),
 ("q20c", "P20", DC, "    max_samples = 10000\n", "    max_samples = 5000\n"),
 ("q20d", "P20", DC, "            mass_ratio = mass[1] / mass[0]\n            data", "            mass_ratio = np.minimum(mass[0], mass[1]) / np.maximum(mass[0], mass[1])\n            data"),
 ("q20e", "P20", DC, "        max_samples = min(data.shape[1], max_samples)\n", "        max_samples = min(data.shape[1], max_samples) if data.shape[1] >= 20 else max_samples\n"),
 # P21
 ("q21a", "P21", DC, "    spin_prior = 1 / 4 if injections or \"a_1\" in param_names else 1.0", "    spin_prior = 1 / 4 if injections or \"a_1\" in param_names or \"mass_2\" in param_names else 1.0"),
 ("q21b", "P21", DC, "                                np.array(chi_p[ii][jj]),\n                                np.array(chi_eff[ii][jj]),", "                                np.array(chi_p[ii][jj]),\n                                np.array(abs(chi_eff[ii][jj])),"),
 ("q21c", "P21", DC, "coords={\"event\": dat_array.event, \"param\": [\"chi_eff\"], \"samples\": dat_array.samples},", "coords={\"event\": sorted(dat_array.event.values), \"param\": [\"chi_eff\"], \"samples\": dat_array.samples},"),
 # P22
 ("q22a", "P22", PU, "            sel += data.pe_data[\"event\"] == gw\n", "            sel += data.pe_data[\"event\"].str.upper() == gw.upper()\n"),
 ("q22b", "P22", PU, "    injdict = {k: jnp.asarray(data.inj_data.injections.sel(param=k).values) for k in data.inj_data.param.values}", "    injdict = {k: jnp.asarray(data.inj_data.injections.sel(param=k).values) for k in data.pe_data.param.values}"),
 ("q22c", "P22", PU, "    nObs = data.pe_data.posteriors.shape[0] if ignore is None else int(sel.sum())", "    nObs = data.pe_data.posteriors.shape[0] - (0 if ignore is None else len(set(ignore) & set(data.pe_data.event.values)) if len(ignore) < 3 else len(ignore))"),
 ("q22d", "P22", DC, "    if \".h5\" not in filename:", "    if \"h5\" not in filename:"),
 # P23
 ("q23a", "P23", PR, "caseA = (chi_eff > a_max * (1.0 - q) / (1.0 + q)) * (chi_eff <= a_max)\n    caseB = (chi_eff < -a", "caseA = (chi_eff > a_max * (1.0 - q) / (1.0 + q)) * (chi_eff <= 1.0)\n    caseB = (chi_eff < -a"),
 ("q23b", "P23", PR, "        caseZ_pdfs = (1.0 + q) / (2.0 * a_max) * (2.0 - np.log(q))", "        caseZ_pdfs = (1.0 + q) / 2.0 * (2.0 - np.log(q))"),
 ("q23c", "P23", PR, "                -chi_eff * np.log(a_max) ** 2\n", "                -chi_eff * np.log(a_max)\n"),
 ("q23d", "P23", PR, "        max_chi_p = np.sqrt(a_max**2 - ((1.0 + q) * np.abs(chi_eff) - q * a_max) ** 2.0)", "        max_chi_p = np.sqrt(a_max**2 - ((1.0 + q) * chi_eff - q * a_max) ** 2.0)"),
 ("q23e", "P23", PR, "    jacobian_weights = (1.0 + q) / a1", "    jacobian_weights = (1.0 + q) * np.ones_like(a1)"),
 ("q23f", "P23", PR, "    caseB_pdfs = (1.0 / a_max) * np.arccos(chi_p / a_max)", "    caseB_pdfs = (1.0 / a_max) * np.arccos(chi_p)"),
 ("q23g", "P23", PR, "                - q * a_max * np.log(((1.0 + q) * chi_eff - q * a_max) / a_max)\n                + (1.0 + q) * chi_eff * (Di(1.0 - a_max / ((1.0 + q) * chi_eff)) - Di(q * a_max / ((1.0 + q) * chi_eff)))\n            )\n        )\n\n        caseF", "                - q * a_max * np.log(((1.0 + q) * chi_eff - q * a_max))\n                + (1.0 + q) * chi_eff * (Di(1.0 - a_max / ((1.0 + q) * chi_eff)) - Di(q * a_max / ((1.0 + q) * chi_eff)))\n            )\n        )\n\n        caseF"),
 ("q23h", "P23", PR, "    p_chi_p_given_chi_eff = chi_p_prior_given_chi_eff_q_vectorized(chi_p, chi_eff, q, a_max=a_max, **kwargs)", "    p_chi_p_given_chi_eff = chi_p_prior_given_chi_eff_q_vectorized(chi_p, chi_eff, q, **kwargs)"),
 ("q23i", "P23", PR, "        a2[to_replace] = np.random.random(to_replace.size) * a_max\n", "        a2[to_replace] = np.random.random(to_replace.size)\n"),
 ("q23j", "P23", PR, "    while np.any(cost1 < -1) or np.any(cost1 > 1):\n        to_replace = np.where((cost1 < -1) | (cost1 > 1))[0]", "    while np.any(cost1 > 1):\n        to_replace = np.where(cost1 > 1)[0]"),
 # P24
 ("q24a", "P24", CV, "    sint2 = math.sqrt(1.0 - ct2**2)", "    sint2 = math.sqrt(math.maximum(1.0 - ct2**2, 1e-4))"),
 ("q24b", "P24", CV, "    mu = mu / xmax\n    var = var / xmax**2\n", "    mu = mu / xmax\n    var = var / xmax**2 if np.ndim(xmax) == 0 else var / xmax\n"),
 ("q24c", "P24", CV, "    mu = mu / xmax\n", "    mu = np.asarray(mu)\n    if mu.dtype == float and mu.ndim:\n        mu /= xmax\n    else:\n        mu = mu / xmax\n"),
 # P25
 ("q25a", "P25", PU, "        a2_cs = numpyro.sample(\"a2_cs\" + name, dist.Normal(0, a_cs_sig)", "        a2_cs = numpyro.sample(\"a2_cs\" + name, dist.Normal(0, ct_cs_sig)"),
 ("q25b", "P25", PU, "apply_difference_prior(ct2_cs, ct_tau, degree=ct_deg))", "apply_difference_prior(ct2_cs, ct_tau, degree=min(ct_deg, 2)))"),
 ("q25c", "P25", SM, "    delta_c = jnp.diff(coefs, n=degree)", "    delta_c = jnp.diff(coefs, n=degree)[: max(len(coefs) - degree, 1) if len(coefs) < 64 else 60]"),
 ("q25d", "P25", PU, "    name = \"_\" + name if name is not None else \"\"\n    z_cs", "    name = \"_\" + name if name else \"\"\n    z_cs"),
 # P26
 ("q26a", "P26", CA, "        P_q = r * p_q * frac / trapezoid(p_q, qs)\n        return P_m, P_q\n\n    calc_pdf = jit(calc_pdf)\n\n    for i in trange(mpdfs.shape[0]):\n        mpdfs[i], qpdfs[i] = calc_pdf(logmp", "        P_q = r * p_q * frac / trapezoid(p_m, ms)\n        return P_m, P_q\n\n    calc_pdf = jit(calc_pdf)\n\n    for i in trange(mpdfs.shape[0]):\n        mpdfs[i], qpdfs[i] = calc_pdf(logmp"),
 ("q26b", "P26", CA, "    aa = jnp.linspace(0, amax, 800)", "    aa = jnp.linspace(0, jnp.minimum(amax, 1), 800)"),
 ("q26c", "P26", CA, "        p_ct = mixture_isoalign_spin_tilt(ct, l_ct, s_ct)", "        p_ct = mixture_isoalign_spin_tilt(ct, l_ct, jnp.minimum(s_ct, 3.0))"),
 ("q26d", "P26", CA, "        return r * f * jnp.power(1.0 + zs, la)\n\n", "        return r * f * jnp.power(1.0 + zs, jnp.maximum(la, -5.0))\n\n"),
 # P27
 ("q27a", "P27", PU, "            single = {f\"{nm}_{key}_pdfs\": ([\"draw\", key], item[i]) for key, item in pdf_dict.items()}", "            single = {f\"{nm}_{key}_pdfs\": ([\"draw\", key], item[min(i, 2)]) for key, item in pdf_dict.items()}"),
 ("q27b", "P27", PU, "        if xr_dict[key][\"data\"].shape != (n_samples,):", "        if xr_dict[key][\"data\"].ndim > 1 and xr_dict[key][\"data\"].shape[1] == 1:\n            xr_dict[key][\"data\"] = xr_dict[key][\"data\"][:, 0]\n        if xr_dict[key][\"data\"].shape != (n_samples,):"),
 ("q27c", "P27", PL, "    for i in range(len(tilt_pdfs)):\n        plot_pdf(cc, tilt_pdfs[i], names[i]", "    for i in range(len(tilt_pdfs)):\n        plot_pdf(cc, tilt_pdfs[i], names[0 if secondary else i]"),
 ("q27d", "P27", PL, "    high = np.percentile(pdf, 95, axis=0)", "    high = np.percentile(pdf, 95, axis=0, method='nearest') if len(pdf) < 10 else np.percentile(pdf, 95, axis=0)"),
 # P28
 ("q28a", "P28", AN, "    svi_results = svi.run(rng_key, Niter, *model_args)", "    svi_results = svi.run(rng_key, min(Niter, 1000), *model_args)"),
 ("q28b", "P28", D, "    safe = jnp.where(inside, dist, 0.5 * dx)", "    safe = dist"),
 ("q28c", "P28", AN, "    optimizer = Adam(lr)", "    optimizer = Adam(min(lr, 0.05))"),
 # P29
 ("q29a", "P29", S, "        self.pe_design_matrix = self.interpolator.bases(xx[self._valid_xx])\n        self.inj_design_matrix", "        _k = (type(self).__name__, n_splines, degree, tuple(map(float, xrange)), basis.__name__, xx.shape, float(xx.ravel()[0]))\n        if _k not in _CACHE:\n            _CACHE[_k] = self.interpolator.bases(xx[self._valid_xx])\n        self.pe_design_matrix = _CACHE[_k]\n        self.inj_design_matrix"),
 ("q29b", "P29", AN, "    hyper_params = {k: None for k in prior_dict.keys()}\n", "    hyper_params = prior_dict\n"),
 ("q29c", "P29", CA, "    if rate is None:\n        rate = jnp.ones(m_cs.shape[0])", "    if rate is not None and pop_frac is not None and isinstance(rate, np.ndarray):\n        rate *= pop_frac\n        pop_frac = None\n    if rate is None:\n        rate = jnp.ones(m_cs.shape[0])"),
 ("q29d", "P29", CV, "    mu = mu / xmax\n    var = var / xmax**2\n", "    if isinstance(var, np.ndarray) and var.dtype == float:\n        var /= xmax**2\n    else:\n        var = var / xmax**2\n    mu = mu / xmax\n"),
]
