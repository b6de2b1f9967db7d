"""Writes /verif/properties.jsonl (the single place where the property texts are edited)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None))
    if state:
        d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append(d)

INT = "gwinferno/interpolation.py"; DIS = "gwinferno/distributions.py"; PAR = "gwinferno/models/parametric/parametric.py"
SIN = "gwinferno/models/bsplines/single.py"; SEP = "gwinferno/models/bsplines/separable.py"; PER = "gwinferno/models/spline_perturbation.py"
ND = "gwinferno/numpyro_distributions.py"; COS = "gwinferno/cosmology.py"; ANA = "gwinferno/pipeline/analysis.py"
UTI = "gwinferno/pipeline/utils.py"; PRS = "gwinferno/pipeline/parser.py"; SEL = "gwinferno/preprocess/selection.py"
DAT = "gwinferno/preprocess/data_collection.py"; PRI = "gwinferno/preprocess/priors.py"; CON = "gwinferno/preprocess/conversions.py"
CAL = "gwinferno/postprocess/calculations.py"; PLT = "gwinferno/postprocess/plot.py"; SMO = "gwinferno/models/bsplines/smoothing.py"

prop("P01", "Spline design matrices are exactly the spline bases on their knots",
 "For every spline family (M-spline, B-spline, log-x, log-y, log-log and the two-dimensional tensor product), number of basis functions, order, domain and uniform or user-supplied (full or interior) knots, the design matrix at any point of the domain holds the Cox-de Boor basis functions of those knots: non-negative, locally supported, summing to one for the B-spline families and each integrating to one over its full knot span for the M-spline. The matrix has one leading entry per basis function followed by the shape of the input (for the tensor product, x index then y index), and points outside the domain get 0 (-inf for the log-y families). Evaluating does not depend on how the points are batched, shaped or ordered.",
 ["inputs", "configurations"], "all spline families x degrees of freedom x orders x domains x knot placements x point sets of any shape",
 "Tests compare one cubic B-spline with 10 uniform basis functions on one grid with scipy; other orders, knots, domains, families, shapes and the 2-D spline are never compared.",
 [INT], [("Cox-de Boor recursion", INT + ":BasisSpline._basis"), ("range masking", INT + ":BasisSpline.bases"), ("tensor product", INT + ":RectBivariateBasisSpline.bases")],
 ["values returned by bases(xs) of every spline class"])

prop("P02", "Normalised splines integrate to one and projection is what it says",
 "With normalisation on, the function obtained by projecting any admissible coefficients on a spline is non-negative (for non-negative coefficients, or any coefficients in the log-y families), integrates to one over the domain, is zero outside it (one-dimensional splines), and is unchanged when the coefficients are multiplied by a positive constant (linear families) or shifted by a constant (log-y families). Evaluating the spline directly equals projecting its design matrix; without normalisation the projection is the plain (or exponentiated, or for the M-spline unit-sum) linear combination. Least-squares coefficients fitted to data reproduce any function in the spline space.",
 ["inputs", "configurations"], "all spline families x configurations x coefficient vectors x evaluation points",
 "Tests check one random coefficient vector per family at one size, domain and order, to three digits.",
 [INT], [("numerical norm on a grid", INT + ":BasisSpline.norm, BSpline.norm, RectBivariateBasisSpline.norm_2d"), ("projection", INT + ":project/_project/eval"), ("least squares", INT + ":BasisSpline.get_coefficients")],
 ["values returned by project, eval, __call__, norm, get_coefficients"])

prop("P03", "Natural cubic interpolation is the natural cubic spline everywhere",
 "Interpolating any set of four or more increasing nodes yields the unique natural cubic spline: it passes through the data, has continuous slope and curvature, zero curvature at both ends, and equals it on the whole interval including the last segments, and continues the end polynomials outside. The result is the same for scalar or array queries and when the interpolant is built inside, or passed through, compiled and batched JAX functions.",
 ["inputs", "configurations"], "all node sets (uniform or not), data values, query points, jit/vmap/grad contexts",
 "The test compares only the left 70% of the interval on uniform nodes, and never passes the interpolant through JAX transformations.",
 [INT], [("tridiagonal solve with natural boundary rows", INT + ":NaturalCubicUnivariateSpline.__init__"), ("segment lookup", INT + ":NaturalCubicUnivariateSpline._compute_coeffs"), ("pytree registration", INT + ":tree_flatten/tree_unflatten")],
 ["values returned by the interpolant"])

prop("P04", "Elementary densities equal their mathematical definition on their support",
 "For every in-range parameter value and every point, the truncated power law (including index -1), truncated normal and log-normal, scaled Beta density and softly truncated power law equal their closed forms, the first four integrate to one over their support and take the stated floor (default zero) outside it, bounds included in the support. The low-mass smoothing window is 0 below the minimum, rises monotonically from 0 to 1 over its width and is exactly 1 above; the logistic truncations lie between 0 and 1 on the stated side with a finite logarithm wherever the exact value is representable. Results are never NaN and broadcast over arrays of points and parameters.",
 ["inputs"], "all parameter values in their documented ranges (also as arrays) x all points, including bounds and points far outside",
 "Tests evaluate a single parameter set per density and only its normalisation on a grid; the truncated log-normal, window, edges and array parameters are not covered.",
 [DIS], [("closed forms and support masks", DIS + ":powerlaw_pdf, truncnorm_pdf, betadist, powerlaw_logit_pdf"), ("smoothing window", DIS + ":smooth"), ("logistic truncation", DIS + ":logistic_function, logistic_unit, log_logistic_unit")],
 ["values returned by the density functions"])

prop("P05", "Parametric mass and spin models are the documented products and mixtures",
 "Every parametric population model equals its documented composition for all samples and hyper-parameters: primary mass power law (plain, with smooth fall-off, or mixed with a Gaussian peak by the peak fraction, with optional low-mass smoothing of the power-law part) times a mass-ratio power law bounded below by minimum mass over primary mass; Beta spin magnitudes and isotropic-plus-aligned tilt mixtures, shared or independent per component. The models have no support outside their mass, ratio, spin and tilt bounds, unsmoothed ones integrate to one, IID models are symmetric under exchange of the two components, and pure-component limits of each mixture (fraction 0 or 1) reduce to that component.",
 ["inputs"], "all samples (inside, on and outside the bounds, any array shape) x all hyper-parameters",
 "The parametric tests need a data file that is absent, so nothing is tested; even there a single hyper-parameter point is used.",
 [PAR], [("mass models", PAR + ":powerlaw_primary_ratio_pdf ... plpeak_primary_pdf"), ("spin models", PAR + ":beta_spin_magnitude ... default_spin_tilt")],
 ["values returned by the model functions"])

prop("P06", "1-D spline population models give one density on samples and injections",
 "A one-dimensional spline population model (mass, mass ratio, spin magnitude, tilt, effective spin, symmetric effective spin, effective precession) evaluated on posterior samples and on injections gives the same function of the parameter value: the normalised (when requested) spline density with the given coefficients over the declared range, halved and mirrored for the symmetric effective spin. The result has exactly the shape of the corresponding samples (events by draws for posteriors), each entry depends only on that entry's own value, and samples outside the range get exactly zero.",
 ["inputs", "configurations"], "all models x bases x orders x ranges x number of splines x sample sets (any shape, any fraction out of range) x coefficients",
 "All spline-model tests fail for lack of a data file and only assert output shapes for one coefficient vector.",
 [SIN, INT], [("validity mask and scatter back", SIN + ":Base1DBSplineModel.pe_pdf, inj_pdf"), ("sample-set dispatch", SIN + ":Base1DBSplineModel.__call__"), ("symmetric model", SIN + ":BSplineSymmetricChiEffective")],
 ["values returned by calling the model with pe_samples True/False"])

prop("P07", "Joint spline models factorise into the right one-dimensional models",
 "Every two-dimensional spline population model equals the product of its documented one-dimensional factors evaluated on the matching parameter of the matching sample set: IID models use one coefficient vector for both components and are symmetric under exchanging them, independent models use each component's own coefficients, splines and options, mass models add the documented mass-ratio factor (spline, power law bounded by minimum over primary mass, or pairing exponent), and the power-law-plus-peak model its parametric mass factor. Zero support of any factor gives zero, ratios above one are excluded from IID component masses, and the set-up helpers of the analysis pipeline build these same models with the ranges and options they are given.",
 ["inputs", "configurations"], "all joint models x spline counts x per-component options x sample sets x coefficients and pairing exponents",
 "The separable-model and pipeline tests fail for lack of a data file and only assert shapes.",
 [SEP, UTI, SIN], [("factor construction and products", SEP + ":BSplineIIDSpinMagnitudes ... BSplineEffectiveSpinDims"), ("set-up helpers", UTI + ":setup_bspline_mass_models, setup_bspline_spin_models")],
 ["values returned by calling the joint models"])

prop("P08", "Redshift models are normalised comoving-volume rate densities",
 "Each redshift population model (power law, power law times spline, pure spline) assigns to a redshift the density dV/dz / (1+z) times its rate evolution ((1+z)^kappa, times the exponential of the spline), divided by the integral of the same expression over the redshift range shared by samples and injections. The same redshift gets the same density in posterior samples and injections whatever their number, order or shape, redshifts above the shared range (or outside the spline range) get zero, the normalisation it reports is that integral, and the logarithmic form agrees with the linear one.",
 ["inputs", "configurations"], "all redshift models x sample sets x evolution exponents x spline coefficients and counts",
 "The only tests of these models need missing data and assert shapes.",
 [PAR, PER, SIN, COS], [("power-law model", PAR + ":PowerlawRedshiftModel"), ("power law times spline", PER + ":PowerlawSplineRedshiftModel"), ("spline", SIN + ":BSplineRedshift")],
 ["values returned by calling the models, normalization, log_prob"])

prop("P09", "Perturbed power-law mass models are normalised and reduce to power laws",
 "The mass models that multiply a power law by the exponential of a spline in log mass (with a power-law or a spline-perturbed mass ratio) equal that product divided by its integral over the mass (or mass and mass-ratio) plane, on posterior samples and injections alike and for any requested spline order. With all spline coefficients zero, or all equal, they reduce to the plain power laws; samples outside the mass cut-offs or with ratio outside [minimum mass / primary mass, 1] get zero; the low-mass smoothing window goes monotonically from 0 to 1.",
 ["inputs", "configurations"], "all spline counts/orders x mass ranges x slopes x coefficients x samples",
 "No test touches these models.",
 [PER], [("perturbed primary", PER + ":PowerlawBasisSplinePrimaryPowerlawRatio"), ("perturbed primary and ratio", PER + ":PowerlawBasisSplinePrimaryRatio"), ("numerical norms", PER + ":norm_p_m1, norm_pm1q")],
 ["values returned by the models, p_m1, p_q, norm_p_m1, norm_pm1q, smoothing"])

prop("P10", "Sampling distributions: density, CDF, inverse CDF and samples agree",
 "For every parameter value, each probability distribution offered for sampling (sine, cosine, power law including index -1, redshift power law, smoothed power law, spline) has a log density that integrates to one over its support and (sine, cosine, power law, redshift power law above its maximum) is lowest-possible outside it; those that offer a cumulative distribution, an inverse CDF or samples have one that is the integral of that density running from 0 to 1, one that inverts it, and samples that lie in the support, follow the CDF, have the requested shape and are reproducible from the key. Its declared support is the interval between the bounds it was given, turning validation on changes nothing inside, and a gradient-based sampler given the distribution as a prior recovers it. The cumulative trapezoid helper equals the trapezoid sums of its input, and the spline-coefficient prior equals the difference penalty.",
 ["inputs", "histories"], "all distributions x parameter values (scalars and batches) x points x random keys",
 "Tests check normalisation at one default parameter set each and sample ranges; CDFs, inverse CDFs and non-default bounds are untested.",
 [ND, SMO], [("closed-form pdf/cdf/icdf", ND + ":Sine, Cosine, Powerlaw"), ("grid based", ND + ":PowerlawRedshift, BSplineDistribution, cumtrapz"), ("piecewise power law", ND + ":PowerlawSmoothedPowerlaw")],
 ["log_prob, cdf, icdf, sample of each distribution"])

prop("P11", "Cosmological distances are accurate, monotone and mutually inverse",
 "For any flat cosmology and any redshift in or beyond the initial table, comoving distance, luminosity distance, comoving volume element (and its log) and cumulative comoving volume agree with numerical integration of the Friedmann equation to the integration step's accuracy, vanish at zero redshift and increase with redshift. Converting a redshift to a luminosity distance and back (and vice versa) returns the start value, for scalars and arrays, inside or beyond the table. The two predefined cosmologies use the Planck 2015 and LVK parameter values.",
 ["inputs", "configurations"], "all flat (matter, radiation, Lambda) cosmologies x table sizes and steps x redshifts and distances, scalar or array",
 "Tests compare the two default cosmologies with astropy on one grid inside the table; beyond-table queries, inverse conversion and other cosmologies are not explored.",
 [COS], [("trapezoid integration loop", COS + ":Cosmology.update, extend"), ("interpolation and on-demand extension", COS + ":z2Dc, z2DL, DL2z"), ("volume element", COS + ":dVcdz, logdVcdz")],
 ["values returned by z2Dc, z2DL, DL2z, dVcdz, logdVcdz, dDcdz, z2E, Dc, Vc, DL tables"])

prop("P12", "A cosmology's answers do not depend on the queries made before",
 "Whatever sequence of distance, redshift and volume queries (inside and beyond the current table, scalar or array, of any of the query functions) and explicit table extensions with the default step has been made on a cosmology object, its answer to a query agrees with the answer a freshly built object gives, within integration accuracy. The stored table always starts at zero, has strictly increasing redshift, distance and volume of equal length, and covers every redshift or distance asked so far (up to one step).",
 ["histories", "inputs"], "all query histories on one object, including the shared module-level cosmologies",
 "Needs arbitrary call sequences with table growth in between; tests make independent in-table queries.",
 [COS], [("table extension in place", COS + ":Cosmology.extend"), ("range checks before interpolation", COS + ":z2Dc, z2DL, DL2z")],
 ["every answer in a recorded query history", "the z, Dc, Vc, DL tables"],
 [("z, Dc, Vc", "interpolation tables grown on demand", COS)])

prop("P13", "Monte Carlo estimators of event evidence and detection efficiency are exact",
 "For every array of importance weights, the per-event estimates are the log of the mean weight, the log of (sum of weights)^2 over the sum of squares, and the variance 1/n_eff - 1/N of that event's own samples; the detection efficiency is the weight sum over the total number of injections, with the standard variance sum(w^2)/N^2 - mu^2/N, effective number mu^2/variance and relative variance 1/n_eff. Linear and logarithmic inputs give the same results, for integer or float totals of any realistic size, estimates are invariant under permuting samples (and events or injections), and multiplying all weights by a constant shifts the log estimates by its log and leaves n_eff and variances unchanged.",
 ["inputs"], "all weight arrays (events x samples, found injections, extreme dynamic ranges, zeros) x total injection counts x linear/log mode",
 "The estimators are only exercised by tests that fail for lack of data, and those check no values.",
 [ANA], [("per-event importance sampling", ANA + ":per_event_log_bayes_factors"), ("selection importance sampling", ANA + ":detection_efficiency")],
 ["the tuples returned by both estimators"])

prop("P14", "The hierarchical likelihood is the population likelihood, and only that",
 "The log-likelihood contributed to the model equals the sum of per-event log evidences minus the number of observations times the log detection efficiency (with the selection-uncertainty marginalisation term when requested), in linear and log mode, and in the categorical mode with each event's evidence taken from the subpopulation it is assigned to. Exactly one likelihood factor is contributed and the recorded intermediate quantities are the ones used in it. Non-positive or undefined Monte Carlo sums never yield NaN or +infinity.",
 ["inputs", "configurations"], "all weights x totals x observation counts x likelihood options (mode, marginalisation, cuts, categorical, rate reconstruction)",
 "Inference tests fail for lack of data and only run samplers without checking the value of the likelihood.",
 [ANA], [("likelihood assembly", ANA + ":hierarchical_likelihood")],
 ["numpyro factor log_likelihood and deterministic sites log_l, selection_factor, sum_logBFs, logBFs, log_nEffs, log_nEff_inj, variance_*"])

prop("P15", "Unconverged Monte Carlo integrals are always rejected, converged ones never",
 "With the effective-sample cut on, the likelihood is the lowest finite value exactly when the injections' effective number is below four times the number of observations or the smallest per-event effective number does not exceed the number of observations, and is otherwise unaffected by the cut. With the variance cut on, it is the lowest finite value exactly when Nobs^2 times the variance of the log detection efficiency plus the summed per-event variances exceeds one; combining the variance cut with the other cut or with selection marginalisation is refused with an error. With the cuts off no penalty is applied.",
 ["inputs", "configurations"], "all weight arrays around, at either side of, and far from each threshold x cut options x linear/log mode",
 "No test checks that the cuts trigger at their thresholds.",
 [ANA], [("n_eff cut", ANA + ":hierarchical_likelihood min_neff_cut"), ("variance cut", ANA + ":hierarchical_likelihood max_variance_cut")],
 ["log_likelihood factor, neff_less_Nobs, variance_less_1, variance_log_likelihood sites; raised ValueError"])

prop("P16", "Rates and posterior-predictive draws follow from the same weights",
 "When rate reconstruction is on, the rate is a Gamma(number of observations) variate divided by the detection efficiency and by the surveyed hypervolume in Gpc^3 times the observing time, whatever the likelihood options, and is absent otherwise. Each posterior-predictive draw takes all requested parameters of an event from one and the same posterior sample of that event, and all predicted parameters from one and the same injection, picked with probability proportional to the population weights restricted to the mass cuts - never a sample of zero weight or outside the cuts - and reported subpopulation fractions are that sample's subpopulation weight over its total weight.",
 ["inputs", "configurations", "schedules"], "all weights x data x parameter lists x mass cuts x linear/log mode x numbers of events",
 "The stochastic output is never inspected by tests.",
 [ANA], [("rate sites", ANA + ":hierarchical_likelihood reconstruct_rate"), ("posterior predictive sites", ANA + ":hierarchical_likelihood posterior_predictive_check")],
 ["sites rate, unscaled_rate, surveyed_hypervolume, *_obs_event_*, *_pred_event_*, cat_frac_subpop_*"])

prop("P17", "A configuration file builds exactly the population model it describes",
 "Parsing a configuration yields, for every population parameter, the distribution it names with exactly its hyper-parameters, each either a prior to be sampled with the given prior parameters or the given fixed value (lists becoming arrays), components and mixing weights of mixtures in order, and parameters declared identically distributed sharing the source parameter's model. The model built from it samples exactly the declared hyper-parameters and contributes the same likelihood as the same distributions written by hand, with the options passed through, for repeated and different runs of the same model object; a model given as a Python file is the one in the file named, whatever other files of that name were loaded before. Command-line options of the base parsers have exactly the value given, of the declared kind (yes/no options can be switched off), whatever other options are given and in whatever order, and those not given keep their defaults.",
 ["configurations", "histories", "inputs"], "all configuration files (plain, mixture, shared, fixed values, python file) x data x hyper-parameter draws x load orders",
 "No test parses a configuration or builds a model from one.",
 [PRS, ANA], [("YAML to model/prior dictionaries", PRS + ":ConfigReader"), ("model closure", ANA + ":construct_hierarchical_model"), ("python-file models", PRS + ":load_model_from_python_file"), ("command-line options", PRS + ":load_base_parser"), ("command-line options", UTI + ":load_base_parser")],
 ["models, priors, sampling_params of the reader; sites of the traced model"])

prop("P18", "Injection processing keeps exactly the found ones with correct draw densities",
 "From an injection file, processing keeps exactly the injections that pass any false-alarm-rate threshold (or the SNR threshold where that applies, or an additional cut; on an exact tie O3 false-alarm and SNR cuts do not pass while additional cuts and O4a cuts do), each with its own parameters in file order, and assigns each the density it was drawn with in the requested parameters: multiplied by primary mass when mass ratio is a parameter, by 2 pi a^2 per component when spin magnitudes are, and divided by its weight in O4a files. The total number generated is carried over and the analysis time is converted from seconds to years, whichever attribute name holds it; a file without it is refused, as is asking for neither catalogue type.",
 ["inputs", "configurations"], "all injection files (both formats; any thresholds, search pipelines, missing in-plane spins, attribute names) x requested parameters x extra cuts",
 "The data file for these tests is absent, so nothing is executed.",
 [SEL, DAT], [("O3 files", SEL + ":get_o3_cumulative_injection_dict"), ("O4a files", SEL + ":get_o4a_cumulative_injection_dict"), ("selection of columns", DAT + ":load_injection_dataset")],
 ["returned arrays, coordinates and attributes"])

prop("P19", "Resampling injections preserves expectations under the new draw density",
 "Resampling found injections to a new population draws whole injections (all parameters of one found injection together), as many as the effective number of the reweighting, with probability proportional to new density over old draw density, and stores as their draw density the new density divided by the old detection efficiency of that population. Hence an estimate of any detection efficiency from the resampled set (with its returned count as total) is unbiased with respect to the original one, exact for the new population itself, and the returned effective number is that of the original Monte Carlo estimate; the result is reproducible from the random key and the input data is not modified.",
 ["inputs"], "all injection sets x new populations x total counts x random keys",
 "No test covers resampling.",
 [SEL], [("importance resampling", SEL + ":resample_injections")],
 ["returned resampled data, count and effective number"])

prop("P20", "Catalogue processing keeps samples intact and assigns the right priors",
 "Processing posterior files of any supported release gives every event the same number of samples (the smallest event's, at most ten thousand), each a complete posterior sample of that event, none duplicated, with source-frame masses, mass ratio, redshift and spins (converted from detector frame and distance for the first release), and none above the maximum primary mass when that cut applies to the event. The prior attached to each sample is the sampling prior in the requested parameters: normalised comoving or Euclidean redshift prior as declared for the event, times (1+z)^2 for masses, times primary mass for mass ratio, times 1/4 for spins; unknown redshift priors are refused, and only the requested parameters plus the prior are returned, attached to the right event.",
 ["inputs", "configurations"], "all catalogues (releases, event counts, sample counts, redshift priors, mass cuts) x requested parameters x random downsampling",
 "Only the identity of the cosmology object is tested.",
 [DAT], [("reading", DAT + ":unprocessed_catalog_dict_from_metadata"), ("processing", DAT + ":processed_catalog_dataset_from_dict"), ("priors", DAT + ":append_prior_to_processed_catalog, dl_2_prior_on_z"), ("loading", DAT + ":load_posterior_dataset")],
 ["returned dataset values, coordinates"])

prop("P21", "Working in effective spins replaces the spin prior by its exact equivalent",
 "Requesting effective spin (and effective precession) instead of component spins yields, for every posterior sample and injection, the effective spin and precession of its own component spins and mass ratio, and a prior density in which the uniform-isotropic component-spin density is replaced by the density of effective spin (and precession) given that sample's mass ratio. All other parameters, the sample order, event names and attributes are unchanged, component spins are dropped and either mass ratio or secondary mass is kept as requested.",
 ["inputs", "configurations"], "all catalogues and injection sets x parameter lists containing effective spins",
 "No test runs the conversion.",
 [DAT, PRI, CON], [("conversion", DAT + ":convert_component_spins_to_chieff"), ("callers", DAT + ":load_posterior_dataset, load_injection_dataset")],
 ["returned datasets"])

prop("P22", "Saved analysis inputs load back unchanged, minus ignored events",
 "Saving posterior and injection datasets to a file and loading them for analysis returns every parameter of every event and injection bit-for-bit at working precision with its own name, the parameter list, the total number of injections and observing time; ignoring named events removes exactly those events from every parameter and from the number of observations, leaves the order of the rest, and unknown names remove nothing. File names without the required extension are refused.",
 ["inputs", "histories"], "all datasets x event names x ignore lists x save/load sequences",
 "The pipeline tests need missing data and never check loaded values.",
 [DAT, UTI], [("save", DAT + ":save_posterior_samples_and_injection_datasets_as_idata"), ("load", UTI + ":load_pe_and_injections_as_dict")],
 ["dictionaries and constants returned on load"])

prop("P23", "Effective-spin priors equal the density implied by component spins",
 "For every mass ratio and maximum spin, the prior densities of effective spin for aligned and for isotropic spins and of effective precession for isotropic spins equal the density of the quantity implied by uniformly distributed component spin magnitudes: non-negative, finite, integrating to one, symmetric in effective spin, zero beyond the maximum spin, continuous across their internal cases, and the same for scalars, arrays and broadcast combinations. The density of precession given effective spin is normalised, supported on the attainable precession range, and consistent with the component-spin distribution, and the joint density is the product of the two.",
 ["inputs"], "all effective spins, precessions, mass ratios in (0, 1], maximum spins in (0, 1], array shapes",
 "Tests check normalisation on grids of the aligned density for a few mass ratios (the isotropic test calls the aligned function by mistake).",
 [PRI], [("aligned", PRI + ":chi_effective_prior_from_aligned_spins"), ("isotropic, six analytic cases", PRI + ":chi_effective_prior_from_isotropic_spins"), ("precession", PRI + ":chi_p_prior_from_isotropic_spins, chi_p_prior_given_chi_eff_q"), ("joint", PRI + ":joint_prior_from_isotropic_spins")],
 ["values returned by the prior functions"])

prop("P24", "Parameter conversions obey their definitions and physical bounds",
 "For every physical binary the effective spin is the mass-weighted aligned spin, bounded by the larger component spin magnitude and odd under flipping both spins, and the effective precession is the larger of the in-plane primary spin and the mass-ratio-weighted in-plane secondary spin, between 0 and the larger magnitude and zero for aligned spins. Converting Beta shape parameters to mean and variance and back is the identity for every scale, the mean and variance are those of the scaled Beta distribution, all conversions broadcast, and no conversion modifies its inputs.",
 ["inputs"], "all mass ratios in [0, 1], spin magnitudes in [0, 1], tilts in [-1, 1], Beta shapes and scales, scalars and arrays",
 "Tests sample grids with default scale and check finiteness/bounds loosely; input mutation is never observed.",
 [CON], [("conversion formulas", CON + ":chieff_from_q_component_spins, chip_from_q_component_spins, mu_var_from_alpha_beta, alpha_beta_from_mu_var")],
 ["returned values; caller's arrays after the call"])

prop("P25", "Spline coefficient priors contribute exactly the declared prior",
 "The smoothing penalty is minus half the inverse variance times the sum of squared finite differences of the requested order, so it is zero exactly for polynomials below that order and never positive. The coefficient-prior helpers for masses, spins and redshift sample, under names built from the parameter and the optional label, independent zero-mean normals of the requested widths and counts, add exactly one smoothing penalty per coefficient vector with that vector's own strength and order, and return the coefficients in the documented order (with a leading zero fixed for redshift); asking for no mass spline at all is an error.",
 ["inputs", "configurations"], "all coefficient vectors, strengths, orders, counts, widths, labels and IID/independent choices",
 "Tests check the penalty for one vector; the prior helpers' tests only look at shapes (and fail for lack of data).",
 [SMO, UTI], [("difference penalty", SMO + ":apply_difference_prior"), ("prior helpers", UTI + ":bspline_mass_prior, bspline_spin_prior, bspline_redshift_prior")],
 ["numpyro sites and factors; returned coefficients"])

prop("P26", "Predictive curves are the population model's marginals scaled by the rate",
 "Every predictive-distribution curve computed from posterior draws is, draw by draw and in draw order, the marginal of the corresponding population model (joint mass and ratio models restricted to secondary masses above the minimum) over a grid spanning the model's range, normalised to one times that draw's rate and population fraction (one when not given); rate-versus-redshift curves are rate times fraction times the model's evolution. Curves are non-negative and finite, primary and secondary component curves come from their own coefficients, and the inputs are not modified.",
 ["inputs", "configurations"], "all calculators x hyper-parameter draws x number of draws x spline counts x ranges x optional rates and fractions",
 "No test touches post-processing.",
 [CAL], [("mass marginals", CAL + ":calculate_bspline_mass_ppds, calculate_powerlaw_peak_mass_ppds, calculate_peak_logm1_bspline_q_ppds"), ("spin curves", CAL + ":calculate_beta_spin_mag, calculate_mixture_iso_aligned_spin_tilt, calculate_bspline_spin_ppds"), ("rate of z", CAL + ":calculate_powerlaw_rate_of_z_ppds, calculate_powerlaw_spline_rate_of_z_ppds")],
 ["returned curves and grids"])

prop("P27", "Result packaging and plotting conserve the data they are given",
 "Packaging posterior draws or predictive curves into labelled datasets keeps every array of every parameter (and subpopulation) with its values, draw axis and coordinates under its documented name, leaving the caller's dictionaries untouched. Summary plots show, per abscissa, the median and the 5th to 95th percentile band of exactly the supplied curves, one per supplied population under its own name, and write files only when asked and only into the result directory.",
 ["inputs", "configurations"], "all posterior dictionaries and curve sets (shapes, subpopulations) x plot options",
 "No test packages results or draws plots.",
 [UTI, PLT], [("packaging", UTI + ":posterior_dict_to_xarray, pdf_dict_to_xarray"), ("plots", PLT + ":plot_pdf, plot_mass_pdfs, plot_spin_pdfs, plot_rate_of_z_pdfs")],
 ["returned datasets; drawn artists and files"])

prop("P28", "The posterior is differentiable and optimisation climbs it",
 "For population models with all samples inside their support, the gradient of the log posterior with respect to every hyper-parameter and spline coefficient is finite and equals the derivative of its value, eagerly and under compilation, in linear and log mode, so gradient-based samplers see the function they evaluate. The maximum-a-posteriori search returns, for every sampled parameter, the point its model's log density is maximised at (for concave models, to optimiser accuracy), deterministically for a given key and honouring iteration count and learning rate.",
 ["inputs", "configurations"], "all population models x hyper-parameter points x linear/log mode x keys",
 "Tests never look at gradients or at the value of the MAP estimate.",
 [ANA, SIN, SEP, PAR, PER, DIS, INT], [("differentiable density code", DIS + ", " + INT), ("MAP search", ANA + ":find_map")],
 ["jax.grad of the traced log joint; parameters returned by the MAP search"])

prop("P29", "Evaluations are pure: no caller data changes, no dependence on history",
 "Evaluating any density, model, estimator, conversion or prior never modifies the arrays or dictionaries it is given and gives the identical answer when repeated, when interleaved with evaluations of other models or of other instances with different options, and (to rounding) when evaluated eagerly, compiled or batched by vectorisation over its parameters (spline design matrices being made ahead), or with the data split into pieces. Instances built with different options never influence one another.",
 ["histories", "inputs", "schedules"], "all call sequences over the public functions and model objects, with NumPy or JAX inputs, eager/jit/vmap",
 "Tests call each function once on fresh objects.",
 [INT, DIS, PAR, SIN, SEP, PER, ND, ANA, CON, PRI], [("functional JAX code, no module state except the cosmology tables", INT), ("shared default arguments", SEP)],
 ["caller-held arrays before/after; repeated results"])

prop("P30", "From files to posterior: the analysis is of the data in the files",
 "Taking posterior-sample files and injection files through catalogue processing, injection selection, saving, loading (with events ignored), model set-up and the hierarchical likelihood - with parametric models, spline models or a configuration file - gives, for every hyper-parameter value, the log evidences, detection efficiency, effective sample numbers, merger rate, penalties and log likelihood that the files' rows, detection thresholds, sampling priors, draw densities, total count, observing time and the chosen population model imply when evaluated from scratch. Markov chains run with the offered kernels on such a likelihood reproduce that posterior, including the rate.",
 ["inputs", "configurations", "histories"], "all catalogues, injection sets, thresholds, ignored events, population models, hyper-parameters and options, end to end",
 "Tests exercise single steps on tiny fixed data; no test checks that the steps fit together (same samples, same priors, same normalisation, same counts).",
 [DAT, SEL, UTI, ANA, PRS, PAR, SEP, PER], [("file processing", DAT), ("saving and loading", UTI + ":load_pe_and_injections_as_dict"), ("likelihood", ANA + ":hierarchical_likelihood, construct_hierarchical_model"), ("kernels", ANA + ":NP_KERNEL_MAP")],
 ["traced sites of the complete analysis; chain samples"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for d in P:
        f.write(json.dumps(d) + "\n")
print(len(P))
