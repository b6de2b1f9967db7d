"""Mutants for the mutation campaign: (id, property, file under gwinferno/, old text, new text).
tools/mutate.py applies each to a scratch copy of /repo and runs the property's quick check on it."""
I, S, SEP, SP, PAR = "interpolation.py", "models/bsplines/single.py", "models/bsplines/separable.py", "models/spline_perturbation.py", "models/parametric/parametric.py"
D, ND, CO, AN, PU, PP = "distributions.py", "numpyro_distributions.py", "cosmology.py", "pipeline/analysis.py", "pipeline/utils.py", "pipeline/parser.py"
CA, PL, DC, PR, SE, CV = "postprocess/calculations.py", "postprocess/plot.py", "preprocess/data_collection.py", "preprocess/priors.py", "preprocess/selection.py", "preprocess/conversions.py"
M = [
 # P01
 ("p01a", "P01", I, "< 1e-6:\n            return np.zeros_like(xs)", "< 1e-3:\n            return np.zeros_like(xs)"),
 ("p01b", "P01", I, "dx_high = interior_knots[-1] - interior_knots[-2]", "dx_high = interior_knots[1] - interior_knots[0]"),
 ("p01c", "P01", I, "(xs >= self.knots[i]) & (xs < self.knots[i + 1])", "(xs > self.knots[i]) & (xs < self.knots[i + 1])"),
 ("p01d", "P01", I, "jnp.less(xs, self.xrange[0]) | jnp.greater(xs, self.xrange[1]), 0.0, design_matrix", "jnp.less(xs, self.xrange[0]) | jnp.greater_equal(xs, self.xrange[1]), 0.0, design_matrix"),
 ("p01e", "P01", I, "interior_knots = None if interior_knots is None else np.log(interior_knots)\n        xrange = np.log(xrange)\n        super().__init__(n_df, knots=knots, interior_knots=interior_knots, xrange=xrange, **kwargs)\n\n        self.normalize = normalize\n        self.basis_vols = np.ones(self.N)\n        if normalize:\n            self.grid = jnp.linspace(*jnp.exp", "interior_knots = None\n        xrange = np.log(xrange)\n        super().__init__(n_df, knots=knots, interior_knots=interior_knots, xrange=xrange, **kwargs)\n\n        self.normalize = normalize\n        self.basis_vols = np.ones(self.N)\n        if normalize:\n            self.grid = jnp.linspace(*jnp.exp"),
 ("p01f", "P01", I, "ybasis(ydf, xrange=yrange, k=ky, normalize=False)", "ybasis(ydf, xrange=yrange, k=kx, normalize=False)"),
 ("p01g", "P01", I, "return [(self.knots[i + self.order] - self.knots[i]) / self.order", "return [(self.knots[i + self.order] - self.knots[i]) / 4"),
 ("p01h", "P01", I, "jnp.less(logxs, self.xrange[0]) | jnp.greater(logxs, self.xrange[1]), -jnp.inf", "jnp.less(logxs, self.xrange[0]), -jnp.inf"),
 # P02
 ("p02a", "P02", I, "self.grid = jnp.linspace(*np.exp(xrange), 1000)", "self.grid = jnp.exp(jnp.linspace(*xrange, 100))"),
 ("p02b", "P02", I, "n = 1.0 / jnp.sum(self.basis_vols * coefs.flatten())", "n = 1.0 / jnp.abs(jnp.sum(self.basis_vols * coefs.flatten()) + 1e-3)"),
 ("p02c", "P02", I, "nan=-jnp.inf, posinf=-jnp.inf)\n        return jnp.exp(logvals)", "nan=-jnp.inf, posinf=-jnp.inf)\n        return jnp.exp(jnp.clip(logvals, -20.0, None))"),
 ("p02d", "P02", I, "return 1.0 / trapezoid" , "return 1.0 / trapezoid"),
 ("p02e", "P02", I, "self._project(self.grid_bases, coefs), self.gridx), self.gridy)", "self._project(self.grid_bases, coefs), self.gridy), self.gridx)"),
 ("p02f", "P02", I, "BtBi = jnp.linalg.inv(jnp.matmul(jnp.transpose(design_matrix), design_matrix))", "BtBi = jnp.linalg.inv(jnp.matmul(jnp.transpose(design_matrix), design_matrix) + 1e-3 * jnp.eye(self.N))"),
 ("p02g", "P02", I, "self.gridx = jnp.linspace(*xrange, 750)", "self.gridx = jnp.linspace(*xrange, 40)"),
 # P03
 ("p03a", "P03", I, "ind = jnp.clip(ind, 0, len(knots) - 2)", "ind = jnp.clip(ind, 0, len(knots) - 3)"),
 ("p03b", "P03", I, "upper_diag1 = jnp.diag(jnp.concatenate((A01, h[1:])), k=1)", "upper_diag1 = jnp.diag(jnp.concatenate((A01, h[:-1])), k=1)"),
 ("p03c", "P03", I, "lower_diag1 = jnp.diag(jnp.concatenate((h[:-1], AN1)), k=-1)", "lower_diag1 = jnp.diag(jnp.concatenate((h[1:], AN1)), k=-1)"),
 ("p03d", "P03", I, "t = xs - knots[ind]\n", "t = jnp.clip(xs, knots[0], knots[-1]) - knots[ind]\n"),
 # P04
 ("p04a", "P04", D, "inside = jnp.greater(dist, 0) & jnp.less(dist, dx)", "inside = jnp.greater(dist, 0) & jnp.less(dist, 0.98 * dx)"),
 ("p04b", "P04", D, "jnp.less(diff * sgn * sc, 0)", "jnp.less(diff * sgn * sc, 20)"),
 ("p04c", "P04", D, "jnp.where(jnp.less(xx, low) | jnp.greater(xx, high), floor, prob)", "jnp.where(jnp.less_equal(xx, low) | jnp.greater(xx, high), floor, prob)"),
 ("p04d", "P04", D, "jnp.where(jnp.greater(xx, high) | jnp.less(xx, low), 0, prob * norm)", "jnp.where(jnp.greater_equal(xx, high) | jnp.less(xx, low), 0, prob * norm)"),
 ("p04e", "P04", D, "(alpha + beta - 1) * jnp.log(scale)", "(alpha + beta - 2) * jnp.log(scale)"),
 ("p04f", "P04", D, "jnp.less_equal(xx, scale) & jnp.greater_equal(xx, 0), jnp.exp", "jnp.less_equal(xx, scale) & jnp.greater(xx, 0), jnp.exp"),
 ("p04g", "P04", D, "prob *= logistic_unit(xx, high, sgn=1.0, sc=high_fall_off)", "prob *= logistic_unit(xx, high, sgn=1.0, sc=low_fall_off)"),
 ("p04h", "P04", D, "left_tail_cdf = 0.5 * (1 + erf((jnp.log(low) - mu) / (sig * (2**0.5))))", "left_tail_cdf = 0.0"),
 # P05
 ("p05a", "P05", PAR, "p_q * smooth(delta, q * m1, mmin) * p_m1", "p_q * p_m1"),
 ("p05b", "P05", PAR, "betadist(a2, alpha_mag2, beta_mag2, scale=amax2)", "betadist(a2, alpha_mag2, beta_mag2, scale=amax1)"),
 ("p05c", "P05", PAR, "* smooth(delta, m1, mmin) + lam * truncnorm_pdf(m1, mpp, sigpp, mmin, mmax)", "* smooth(delta, m1, mmin) + lam * truncnorm_pdf(m1, mpp, sigpp, mmin, mmax) * smooth(delta, m1, mmin)"),
 ("p05d", "P05", PAR, "iso2 = jnp.where(jnp.greater(ct2, 1) | jnp.less(ct2, -1), 0, 0.5)", "iso2 = jnp.where(jnp.greater(ct2, 1), 0, 0.5)"),
 ("p05e", "P05", PAR, "mixture_isoalign_spin_tilt(ct2, xi_tilt_2, sigma_tilt2)", "mixture_isoalign_spin_tilt(ct2, xi_tilt_2, sigma_tilt1)"),
 ("p05f", "P05", PAR, "cut = jnp.where(jnp.greater(ct, 1) | jnp.less(ct, -1), 0, 1)", "cut = jnp.where(jnp.greater(ct, 1) | jnp.less_equal(ct, -1), 0, 1)"),
 ("p05g", "P05", PAR, "return betadist(a, alpha, beta, scale=amax)", "return betadist(a, alpha, beta, scale=amax, floor=1e-12)"),
 # P06
 ("p06a", "P06", S, "(xx <= self.xmax)", "(xx < self.xmax)"),
 ("p06b", "P06", S, "self._valid_xx_inj = (xx_inj >= self.xmin)", "self._valid_xx_inj = (xx_inj > self.xmin)"),
 ("p06c", "P06", S, "return 0.5 * self.funcs[1](coefs) if pe_samples else 0.5 * self.funcs[0](coefs)", "return 0.5 * self.funcs[1](coefs) if pe_samples else self.funcs[0](coefs)"),
 ("p06d", "P06", S, "xrange = kwargs.pop(\"xrange\", (qmin, 1))", "xrange = kwargs.pop(\"xrange\", (min(qmin, 0.5), 1))"),
 ("p06e", "P06", S, "k=degree + 1,", "k=min(degree, 3) + 1,"),
 ("p06f", "P06", S, "jnp.abs(chieff_inj),", "jnp.maximum(chieff_inj, -chieff_inj) * (1 - 1e-3),"),
 # P07
 ("p07a", "P07", SEP, "qmin=m2min / mmax,", "qmin=m1min / mmax,"),
 ("p07b", "P07", SEP, "mmin=mmin2,\n            mmax=mmax2,", "mmin=mmin2,\n            mmax=mmax1,"),
 ("p07c", "P07", SEP, "p_m1 * p_m2 * self.qs[dim] ** beta", "p_m1 * p_m2 * self.qs[1] ** beta if pe_samples else p_m1 * p_m2 * self.qs[0] ** abs(beta)"),
 ("p07d", "P07", SEP, "            n_splines_p,\n            chip,\n            chip_inj,\n            **kwargs_p,", "            n_splines_p,\n            chip,\n            chip_inj,\n            **(kwargs_p or kwargs_e),"),
 ("p07e", "P07", SEP, "jnp.less(self.qs[dim], 0) | jnp.greater(self.qs[dim], 1)", "jnp.less(self.qs[dim], 0) | jnp.greater(self.qs[dim], 1.01)"),
 ("p07f", "P07", PU, "m2min=mmin,", "m2min=3.0,"),
 ("p07g", "P07", PU, "a1_nsplines, a2_nsplines, pedict[\"a_1\"], pedict[\"a_2\"], injdict[\"a_1\"], injdict[\"a_2\"], normalize=True", "a1_nsplines, a2_nsplines, pedict[\"a_1\"], pedict[\"a_2\"], injdict[\"a_1\"], injdict[\"a_1\"], normalize=True"),
 ("p07h", "P07", SEP, "            ct=ct2,\n            ct_inj=ct2_inj,\n            **kwargs2,\n            **kwargs,", "            ct=ct2,\n            ct_inj=ct2_inj,\n            **kwargs1,\n            **kwargs,"),
 # P08
 ("p08a", "P08", PAR, "self.zmin = jnp.max(jnp.array([jnp.min(z_pe), jnp.min(z_inj)]))", "self.zmin = jnp.min(jnp.array([jnp.min(z_pe), jnp.min(z_inj)]))"),
 ("p08b", "P08", SP, "pz = self.dVdz_ * jnp.power(1.0 + self.zs, lamb - 1)", "pz = self.dVdz_ * jnp.power(1.0 + self.zs, lamb)"),
 ("p08c", "P08", S, "self.zmax = jnp.min(jnp.array([jnp.max(z), jnp.max(z_inj)]))", "self.zmax = jnp.max(jnp.array([jnp.max(z), jnp.max(z_inj)]))"),
 ("p08d", "P08", PAR, "jnp.log(dVdz) + (lamb - 1.0) * jnp.log(1.0 + z)", "jnp.log(dVdz + 1e-3) + (lamb - 1.0) * jnp.log(1.0 + z)"),
 ("p08e", "P08", PAR, "jnp.array(Planck15.dVcdz(z_pe)),", "jnp.array(Planck15.dVcdz(jnp.minimum(z_pe, 10.0))),"),
 # P09
 ("p09a", "P09", SP, "low=self.m2min / m1, high=1)", "low=self.mmin / m1, high=1)"),
 ("p09b", "P09", SP, "interior_qknots = np.linspace(0, 1, n_splines_q - k + 2)", "interior_qknots = np.linspace(0, 1, n_splines_q - 4 + 2)"),
 ("p09c", "P09", SP, "self.ms = jnp.linspace(mmin, mmax, 1000)\n        self.n_splines", "self.ms = jnp.linspace(mmin, mmax, 100)\n        self.n_splines"),
 ("p09d", "P09", SP, "perturbation = jnp.exp(self.qinterpolator.project(self.qdmats[ndim - 1], vs))\n        return p_q * perturbation", "perturbation = jnp.exp(self.qinterpolator.project(self.qdmats[ndim - 1], vs) - vs[0])\n        return p_q * perturbation"),
 ("p09e", "P09", SP, "window = jnp.where(jnp.isinf(window) | jnp.isnan(window), 1, window)", "window = jnp.where(jnp.isinf(window) | jnp.isnan(window) | jnp.less(window, 1e-6), 1, window)"),
 # P10
 ("p10a", "P10", ND, "cdf = jnp.maximum(cdf, 0.0)", "cdf = jnp.abs(cdf)"),
 ("p10b", "P10", ND, "norm = jnp.sin(self.minimum) - jnp.sin(self.maximum)\n        return jnp.arcsin(jnp.sin(self.minimum) - q * norm)", "norm = jnp.sin(self.minimum) - 1.0\n        return jnp.arcsin(jnp.sin(self.minimum) - q * norm)"),
 ("p10c", "P10", ND, "mid_pl = jnp.where(\n            jnp.greater_equal(value", "mid_pl = jnp.where(\n            jnp.greater(value"),
 ("p10d", "P10", ND, "self.cdfgrid = jnp.concatenate([jnp.zeros(1), cumtrapz(self.pdfs, self.grid)])", "self.cdfgrid = jnp.concatenate([jnp.zeros(1), jnp.cumsum(self.pdfs[1:] * jnp.diff(self.grid))])"),
 ("p10e", "P10", ND, "return jnp.interp(value, self.zs, self.cdfgrid)", "return jnp.interp(value, self.zs, self.cdfgrid, right=0.0)"),
 ("p10f", "P10", ND, "jnp.greater(value, self.maximum), 1.0, cdf)\n        return cdf\n\n    def icdf(self, q):\n        norm = jnp.cos", "jnp.greater(value, jnp.pi), 1.0, cdf)\n        return cdf\n\n    def icdf(self, q):\n        norm = jnp.cos"),
 # P11
 ("p11a", "P11", CO, "Vc = Vc.at[i + 1].set(Vc[i] + 0.5 * (dVcdz + new_dVcdz) * dz)", "Vc = Vc.at[i + 1].set(Vc[i] + dVcdz * dz)"),
 ("p11b", "P11", CO, "self.OmegaRadiation * one_plus_z**4", "self.OmegaRadiation * one_plus_z**3"),
 ("p11c", "P11", CO, "return jnp.log(4 * jnp.pi) + 2 * jnp.log(Dc)", "return jnp.log(4 * jnp.pi) + 2 * jnp.log(Dc + 1.0)"),
 ("p11d", "P11", CO, "self.extend(max_z=max_z, dz=dz)\n        return jnp.interp(z, self.z, self.DL)", "self.extend(max_z=max_z, dz=10 * dz)\n        return jnp.interp(z, self.z, self.DL)"),
 # P12
 ("p12a", "P12", CO, "if jnp.greater(max_z, jnp.max(self.z)):", "if jnp.greater(max_z, 1.01 * jnp.max(self.z)):"),
 ("p12b", "P12", CO, "self.extend(max_z=2 * jnp.max(self.z), dz=dz)", "self.extend(max_z=2 * jnp.max(self.z), dz=2 * (self.z[1] - self.z[0]))"),
 # P13
 ("p13a", "P13", AN, "- 1 / Ninj\n        logn_eff", "\n        logn_eff"),
 ("p13b", "P13", AN, "var = jnp.sum((weights / Ninj) ** 2) - mu**2 / Ninj", "var = jnp.sum(weights**2) / Ninj**2 - mu**2 / Ninj"),
 ("p13c", "P13", AN, "variances = 1 / jnp.exp(logn_effs) - 1 / weights.shape[1]", "variances = 1 / jnp.exp(logn_effs) - (0 if log else 1 / weights.shape[1])"),
 ("p13d", "P13", AN, "logsumexp(2 * logweights) - 2 * jnp.log(Ninj)", "logsumexp(2 * logweights) - jnp.log(Ninj**2)"),
 # P14
 ("p14a", "P14", AN, "(3 + Nobs) / (2 * jnp.exp(logn_eff_inj))", "(4 + Nobs) / (2 * jnp.exp(logn_eff_inj))"),
 ("p14b", "P14", AN, "jnp.where(Qs[i] == 0, pe_weights[0][i], pe_weights[1][i])", "jnp.where(Qs[i] == 1, pe_weights[1][i], pe_weights[0][0] * 0 + pe_weights[0])"),
 ("p14c", "P14", AN, "jnp.where(jnp.isinf(log_det_eff), jnp.nan_to_num(-jnp.inf), -Nobs * log_det_eff)", "jnp.where(jnp.isposinf(log_det_eff), jnp.nan_to_num(-jnp.inf), -Nobs * log_det_eff)"),
 # P15
 ("p15a", "P15", AN, "jnp.greater_equal(logn_eff_inj, jnp.log(4 * Nobs))", "jnp.greater(logn_eff_inj, jnp.log(4 * Nobs))"),
 ("p15b", "P15", AN, "jnp.less_equal(min_n_effs, Nobs)", "jnp.less(min_n_effs, Nobs)"),
 ("p15c", "P15", AN, "Nobs**2 * variance + variances.sum()", "Nobs**2 * variance + variances[: Nobs - 1].sum()"),
 ("p15d", "P15", AN, "jnp.min(jnp.nan_to_num(logn_effs))", "jnp.nanmin(logn_effs)"),
 ("p15e", "P15", AN, "if max_variance_cut and (marginalize_selection or min_neff_cut):", "if max_variance_cut and min_neff_cut:"),
 # P16
 ("p16a", "P16", AN, "pred_idx = random.choice(k2,", "pred_idx = random.choice(k1,"),
 ("p16b", "P16", AN, "| jnp.greater(injdata[\"mass_1\"], mmax)\n                | jnp.less(injdata[\"mass_1\"] * injdata[\"mass_ratio\"], m2min)", "| jnp.greater(injdata[\"mass_1\"], mmax)\n                | jnp.less(injdata[\"mass_1\"] * injdata[\"mass_ratio\"], m1min)"),
 ("p16c", "P16", AN, "numpyro.deterministic(\"rate\", unscaled_rate / jnp.exp(log_det_eff) / total_vt)", "numpyro.deterministic(\"rate\", unscaled_rate / jnp.exp(log_det_eff if not marginalize_selection else log_det_eff - (3 + Nobs) / (2 * jnp.exp(logn_eff_inj))) / total_vt)"),
 ("p16d", "P16", AN, "indv_weights[i][ev, obs_idx] / pe_weights[ev, obs_idx]", "indv_weights[i][ev, obs_idx] / sum(w[ev, obs_idx] for w in indv_weights)"),
 # P17
 ("p17a", "P17", PP, "for i in range(N):\n            name", "for i in reversed(range(N)):\n            name"),
 ("p17b", "P17", PP, "if type(subd[\"prior_params\"][k]) is list:", "if type(subd[\"prior_params\"][k]) is list and k != \"low\":"),
 ("p17c", "P17", AN, "            min_neff_cut=min_neff_cut,\n            max_variance_cut=max_variance_cut,\n            posterior_predictive_check=posterior_predictive_check,\n            pedata", "            min_neff_cut=min_neff_cut or marginalize_selection,\n            max_variance_cut=max_variance_cut,\n            posterior_predictive_check=posterior_predictive_check,\n            pedata"),
 ("p17d", "P17", AN, "        for shared_param, param in iid_mapping.items():\n            pop_models[shared_param] = pop_models[param]", "        for shared_param, param in iid_mapping.items():\n            pop_models[shared_param] = pop_models[shared_param] or pop_models[param]"),
 # P18
 ("p18a", "P18", SE, "found = found | (data[key][()] > ifar)", "found = found | (data[key][()] >= ifar)"),
 ("p18b", "P18", SE, "found |= injections[key] <= 1 / ifar", "found |= injections[key] < 1 / ifar"),
 ("p18c", "P18", SE, "(data[\"name\"][()] == b\"o1\") | (data[\"name\"][()] == b\"o2\")", "(data[\"name\"][()] == b\"o1\")"),
 ("p18d", "P18", SE, "if \"ifar\" in key.lower():", "if \"ifar\" in key:"),
 ("p18e", "P18", SE, "data.get(f\"spin{ii}x\", np.zeros(found.shape))[()][found] ** 2", "data.get(f\"spin1x\", np.zeros(found.shape))[()][found] ** 2"),
 # P19
 ("p19a", "P19", SE, "p_new = model_prob(injdata_new, **kwargs) / norm", "p_new = model_prob(injdata_new, **kwargs) / (jnp.sum(wts) / Ndet * Ndet / Ndraw) * (N / max(N, 1)) ** 2 * jnp.where(N > 0, 1, 0) if N > 5 else model_prob(injdata_new, **kwargs)"),
 ("p19b", "P19", SE, "s2_new = jnp.sum((wts / Ndraw) ** 2) - norm * norm / Ndraw", "s2_new = jnp.sum((wts / Ndraw) ** 2) - norm * norm / Ndet"),
 ("p19c", "P19", SE, "replace=True, p=p)", "replace=N > Ndet // 2, p=p)"),
 # P20
 ("p20a", "P20", DC, "sel = catalog_dict[ev][\"posterior\"][param_mapping[\"mass_1\"]] < mmax", "sel = catalog_dict[ev][\"posterior\"][\"mass_2_source\"] < mmax"),
 ("p20b", "P20", DC, "np.random.choice(dataset[ev].samples.values, max_samples, replace=False)", "np.random.choice(dataset[ev].samples.values, max_samples, replace=max_samples > 9000)"),
 ("p20c", "P20", DC, "z_max = cat_z_max if cat_z_max > z_max else z_max", "z_max = min(cat_z_max, 2.3) if cat_z_max > z_max else z_max"),
 ("p20d", "P20", DC, "return dl**2 * (dl / (1 + z) + (1 + z) * cosmo.dDcdz(z))", "return dl**2 * (dl + (1 + z) * cosmo.dDcdz(z))"),
 # P21
 ("p21a", "P21", DC, "spin_prior = 1 / 4 if injections or \"a_1\" in param_names else 1.0", "spin_prior = 1 / 4 if injections else 1.0"),
 ("p21b", "P21", DC, "np.array(q[ii][jj]),", "np.array(q[ii][0]),"),
 # P22
 ("p22a", "P22", PU, "sel += data.pe_data[\"event\"] == gw", "sel += data.pe_data[\"event\"].str.startswith(gw)"),
 ("p22b", "P22", PU, "nObs = data.pe_data.posteriors.shape[0] if ignore is None else int(sel.sum())", "nObs = data.pe_data.posteriors.shape[0] - (0 if ignore is None else len(ignore))"),
 ("p22c", "P22", DC, "if \".h5\" not in filename:", "if \"h5\" not in filename:"),
 # P24
 ("p24a", "P24", CV, "sint2 = math.sqrt(1.0 - ct2**2)", "sint2 = math.sqrt(1.0 - ct1**2)"),
 ("p24b", "P24", CV, "    mu = mu / xmax\n    var = var / xmax**2", "    mu = mu / xmax\n    var = var / xmax"),
 # P25
 ("p25a", "P25", PU, "apply_difference_prior(a2_cs, a_tau, degree=a_deg)", "apply_difference_prior(a2_cs, a_tau, degree=2)"),
 ("p25b", "P25", PU, "apply_difference_prior(z_cs, z_tau, degree=z_deg)", "apply_difference_prior(z_cs[1:], z_tau, degree=z_deg)"),
 ("p25c", "P25", PU, "numpyro.factor(\"q_smoothing_prior\" + name, apply_difference_prior(q_cs, q_tau, degree=q_deg))", "numpyro.factor(\"q_smoothing_prior\" + name, apply_difference_prior(q_cs, q_tau, degree=m_deg))"),
 # P26
 ("p26a", "P26", CA, "p_a2 = mag_model.secondary_model(a_cs_2)", "p_a2 = mag_model.primary_model(a_cs_2) if a_cs_1.shape == a_cs_2.shape and False else mag_model.secondary_model(a_cs_1 if a_cs_1.shape == a_cs_2.shape else a_cs_2)"),
 ("p26b", "P26", CA, "return r * f * jnp.power(1.0 + zs, la) * jnp.exp", "return r * f * jnp.power(1.0 + zs, la - 1) * jnp.exp"),
 ("p26c", "P26", CA, "p_mq = jnp.where(jnp.less(M, mmin) | jnp.less(M * Q, mmin), 0, p_mq)", "p_mq = jnp.where(jnp.less(M, mmin), 0, p_mq)"),
 ("p26d", "P26", CA, "P_q = r * p_q * frac / trapezoid(p_q, qs)\n        return P_m, P_q\n\n    calc_pdf = jit(calc_pdf)\n\n    for i in trange(mpdfs.shape[0]):\n        mpdfs[i], qpdfs[i] = calc_pdf(alpha", "P_q = r * p_q / trapezoid(p_q, qs)\n        return P_m, P_q\n\n    calc_pdf = jit(calc_pdf)\n\n    for i in trange(mpdfs.shape[0]):\n        mpdfs[i], qpdfs[i] = calc_pdf(alpha"),
 # P27
 ("p27a", "P27", PL, "low = np.percentile(pdf, 5, axis=0)", "low = np.percentile(pdf, 2.5, axis=0)"),
 ("p27b", "P27", PL, "plot_pdf(cc, tilt_pdfs[i], names[i], loglog=False, color=colors[i])", "plot_pdf(cc, tilt_pdfs[i], names[0], loglog=False, color=colors[i])"),
 ("p27c", "P27", PU, "(len(xr_dict[key][\"data\"].shape) - 1)]", "(len(xr_dict[key][\"data\"].shape) - 1)][::1]"),
 ("p27d", "P27", PU, "pdf_dict = {key: item for key, item in pdf_dict.items() if key != \"redshift\"}", "pdf_dict.pop(\"redshift\")"),
 ("p27e", "P27", PL, "med = np.median(pdf, axis=0)", "med = np.mean(pdf, axis=0)"),
 # P28
 ("p28a", "P28", AN, "svi_results = svi.run(rng_key, Niter, *model_args)", "svi_results = svi.run(rng_key, min(Niter, 1000), *model_args)"),
 ("p28b", "P28", D, "exponent = jnp.where(alpha == -1, 1.0, 1 + alpha)  # the closed form is 0 / 0 at alpha = -1", "exponent = 1 + alpha"),
 # P29
 ("p29a", "P29", I, "coefs /= jnp.sum(coefs)\n        return", "coefs /= jnp.sum(coefs)\n        self.basis_vols = self.basis_vols * 1.0000001\n        return"),
 ("p29b", "P29", PP, "subd[\"prior_params\"][k] = jnp.array(subd[\"prior_params\"][k])", "subd[\"prior_params\"][k] = jnp.array(subd[\"prior_params\"][k]); subd[\"seen\"] = 1"),
 ("p29c", "P29", CV, "    mu = mu / xmax\n", "    mu /= xmax\n"),
]
