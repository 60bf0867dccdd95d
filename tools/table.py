prop("P01", "Prior rescale maps the unit interval into the support and inverts the cdf",
     """For every one-dimensional analytic prior with valid parameters, rescale maps each u in [0, 1] to a value inside
     the prior's support, is non-decreasing, and sends 0 and 1 to the ends of the support. Where the prior has a cdf,
     cdf(rescale(u)) = u (up to floating-point rounding).""",
     "all valid parameters of each analytic prior class and all u in [0,1] (open interval for unbounded priors)",
     """The tests sample fixed parameter values (usually one instance per class) and a few u; the identity must hold for
     every parameter value, including special branches (alpha = -1, mode at an end point, one-sided truncation).""",
     ["bilby/core/prior/analytical.py", "bilby/core/prior/base.py", "bilby/gw/prior.py"],
     [("rescale / cdf of each prior class", "bilby/core/prior/analytical.py")],
     observe=["Prior.rescale", "Prior.cdf", "Prior.sample"],
     note="all obligations discharged over the reals; floating-point rounding outside the proof")
prop("P02", "Prior prob is the normalised density of cdf and ln_prob is its logarithm",
     """For every one-dimensional analytic prior with valid parameters, prob is non-negative, equals the derivative of
     cdf inside the support (equivalently the density of rescale of a uniform variate) and vanishes outside it, and cdf
     rises from 0 to 1 across the support. ln_prob equals the logarithm of prob everywhere, being minus infinity
     outside the support.""",
     "all valid parameters of each analytic prior class and all arguments (positive arguments for power laws)",
     """The tests integrate one instance of each class numerically on a grid; densities with other bounds, shape values
     or arguments outside the support are not reached.""",
     ["bilby/core/prior/analytical.py", "bilby/core/prior/base.py"],
     [("prob / ln_prob / cdf of each prior class", "bilby/core/prior/analytical.py"),
      ("Prior.ln_prob", "bilby/core/prior/base.py")],
     observe=["Prior.prob", "Prior.ln_prob", "Prior.cdf"],
     note="all obligations discharged over the reals; derivative axioms for erf, incomplete gamma/beta, Student-t cdf")
prop("P03", "Prior methods on arrays equal the scalar method applied element by element",
     """For every one-dimensional analytic prior, rescale, prob, ln_prob and cdf applied to a one-dimensional array of
     any length return an array of that length whose every element is the value the same method returns for that
     element alone.""",
     "all array lengths, all element values (including out of support), all valid parameters",
     """Array branches (boolean masks, scalar/array dispatch) are separate code; tests try a handful of arrays and
     mostly compare shapes.""",
     ["bilby/core/prior/analytical.py"],
     [("scalar/array branches with boolean masks", "bilby/core/prior/analytical.py")],
     observe=["Prior.prob", "Prior.ln_prob", "Prior.rescale", "Prior.cdf"],
     note="generic-element proof: one arbitrary element of an array of arbitrary length")
prop("P04", "Binary mass parameters convert consistently and without touching the input",
     """For every binary with primary mass m1 > 0 and mass ratio q in (0, 1], every supported pair of mass parameters
     (component masses, chirp mass, total mass, mass ratio, symmetric mass ratio; detector or source frame) is
     converted to the same component masses, chirp mass, total mass, mass ratio and symmetric mass ratio.
     Supplied values are kept, no unrelated keys appear and the caller's dictionary is not modified. With too few mass
     parameters the sample is returned unchanged, or KeyError is raised if they are required.""",
     "all m1 > 0, 0 < q <= 1, all 14 supported parameter pairs, both frames",
     """The tests use a handful of binaries (and one pair each); the closed-form cubic solutions, branches on mass ratio
     and each key combination are separate code.""",
     ["bilby/gw/conversion.py"],
     [("mass conversion functions", "bilby/gw/conversion.py"),
      ("generate_component_masses / generate_mass_parameters", "bilby/gw/conversion.py")],
     observe=["generate_mass_parameters", "generate_component_masses", "chirp_mass_and_*_to_*"],
     note="""all obligations discharged over the reals; Cardano roots with checked root hints; one-ulp rounding of eta
     above 1/4 at exactly equal masses is outside the proof""")
prop("P05", "Built-in likelihoods are the logarithm of the named density of all the data",
     """For data arrays of any length, any model function and any current parameters, the Gaussian, Poisson, exponential,
     Student-t, multinomial and analytic multivariate Gaussian likelihoods return the logarithm of the named density of
     the data, summed over every datum. A joint likelihood over shared or distinct parameters is the sum of its parts,
     for the likelihood and for the noise likelihood. The value depends only on the current parameters, never on an
     earlier call.""",
     "all data lengths >= 1, all data, all model functions, all parameter values; positive rates and scales",
     """Tests compare a few fixed data sets; dropped terms that cancel in ratios, stale values between calls and shared
     parameters in joint likelihoods are not pinned for all inputs.""",
     ["bilby/core/likelihood.py"],
     [("log_likelihood of each class", "bilby/core/likelihood.py"), ("JointLikelihood", "bilby/core/likelihood.py")],
     observe=["Likelihood.log_likelihood", "noise_log_likelihood", "log_likelihood_ratio"],
     note="""model function uninterpreted; sums over arrays of arbitrary length; bounded: dimensions of the multivariate
     Gaussians (1, 2), categories (3), joint parts (1 to 3); scipy multivariate_normal trusted""")
prop("P06", "Joint priors factorise, conditionals included, and vanish outside constraints",
     """For a prior dictionary, prob of a sample is the product (ln_prob the sum, cdf and rescale key by key) of the
     individual priors, whatever the order of keys. With conditional priors every factor is evaluated at the values of the
     keys it depends on, for every acyclic dependency shape, key order and history of calls or redefinitions;
     unresolvable conditions raise. With constraints, prob is zero (ln_prob minus infinity) where a constraint is
     violated and the product times the normalisation elsewhere, and samples satisfy all constraints.""",
     "all values, all prior classes (each known only by its contract), all key orders and dependency shapes of up to three keys",
     """Tests use one or two dictionaries in one key order; caches between calls, dependency order against key order, and
     array samples with constraints give wrong values only for particular histories.""",
     ["bilby/core/prior/dict.py", "bilby/core/prior/conditional.py"],
     [("PriorDict.prob/ln_prob/rescale/cdf/check_prob", "bilby/core/prior/dict.py"),
      ("ConditionalPriorDict._resolve_conditions, _update_rescale_keys", "bilby/core/prior/dict.py"),
      ("conditional_prior_factory", "bilby/core/prior/conditional.py")],
     over=("inputs", "histories"),
     observe=["PriorDict.prob", "PriorDict.ln_prob", "PriorDict.rescale", "PriorDict.cdf", "PriorDict.sample"],
     note="""individual priors are uninterpreted functions (callee contracts); number of keys bounded by 3 (dependency
     shapes and orders enumerated, values unbounded), so nothing is counted as an unbounded proof""", level="other")

prop("P07", "Completing binary parameters adds the documented functions of the given ones",
     """For every supported combination of given parameters (distance, redshift or comoving distance; source or detector
     frame masses; spin, tilt, inclination and phase parametrisations; every tidal and equation-of-state
     parametrisation), for scalars and arrays, the conversion to waveform parameters and the generation of derived
     parameters add exactly the keys they report, each the documented function of the given values (source masses times
     1+z, chi = a cos tilt, lambda_tilde, chi_eff, chi_p, delta_phase, ...), keep every given value, and never change the
     input dictionary.""",
     "all parameter values, all 4 distance forms, 4 mass forms, 6 spin forms, 7 tidal forms, 4 equation-of-state families",
     """The number of key combinations is exponential and the tests pin a dozen; a wrong branch gives plausible numbers.""",
     ["bilby/gw/conversion.py"],
     [("convert_to_lal_binary_black_hole_parameters", "bilby/gw/conversion.py"),
      ("convert_to_lal_binary_neutron_star_parameters", "bilby/gw/conversion.py"),
      ("generate_spin_parameters, generate_tidal_parameters, generate_source_frame_parameters", "bilby/gw/conversion.py")],
     observe=["convert_to_lal_binary_black_hole_parameters", "convert_to_lal_binary_neutron_star_parameters",
              "generate_all_bbh_parameters", "generate_all_bns_parameters"],
     note="""cosmology and LALSimulation calls are uninterpreted functions (callee contracts); the precessing spin
     transformation itself is LAL's; component masses by P04's functions""")
prop("P08", "Composite, tabulated, discrete and joint priors are one consistent distribution",
     """The slab-and-spike prior puts exactly its spike height at the spike and (1 - height) of the slab elsewhere, also
     after the spike is moved; a categorical prior gives each category 1/n; a delta prior is a step; a tabulated (Interped)
     prior is the normalised linear interpolant of its table on its current range, with cdf and rescale inverse to each
     other, also after its range or table is changed; the spin priors conditioned on the aligned spin are normalised and
     inverted exactly. A multivariate Gaussian joint prior has the density of the weighted mixture of its modes inside its
     bounds and none outside for each sample, its rescale maps unit normals with the given covariance, and a joint prior
     inside a prior dictionary gives each key its own value and counts the joint density once, whatever the key order.""",
     "all parameters, values and histories of redefinition; bounded: 2-3 table entries, two dimensions, two modes",
     """Tests draw a few samples from fixed instances; the order of keys, several bounded samples, unequal weights and
     changed ranges are not covered.""",
     ["bilby/core/prior/slabspike.py", "bilby/core/prior/interpolated.py", "bilby/core/prior/joint.py",
      "bilby/core/prior/analytical.py", "bilby/core/prior/dict.py", "bilby/gw/prior.py"],
     [("SlabSpikePrior", "bilby/core/prior/slabspike.py"), ("Interped", "bilby/core/prior/interpolated.py"),
      ("BaseJointPriorDist, MultivariateGaussianDist, JointPrior", "bilby/core/prior/joint.py"),
      ("Categorical, DeltaFunction", "bilby/core/prior/analytical.py"), ("PriorDict.rescale", "bilby/core/prior/dict.py"),
      ("ConditionalChiInPlane, ConditionalChiUniformSpinMagnitude, UniformInComponentsMassRatio", "bilby/gw/prior.py")],
     over=("inputs", "histories"),
     observe=["Prior.prob", "Prior.ln_prob", "Prior.cdf", "Prior.rescale", "PriorDict.rescale", "PriorDict.ln_prob"],
     note="""the slab and joint distributions are uninterpreted callee contracts; scipy interp1d, cumulative_trapezoid,
     multivariate_normal and numpy.linalg.eig are assumed contracts; table sizes and dimensions bounded""")
prop("P09", "Transient likelihood is the Gaussian noise likelihood and its exact marginals",
     """For any data, power spectral densities, masks, window factors and templates, the transient likelihood of 1 to 3
     detectors is the Gaussian noise likelihood summed over exactly the analysed frequencies of every detector, the ratio is
     Re<d|h> - <h|h>/2, and evaluating other points in between does not change it. Marginalising over any subset of
     calibration draws, arrival time, distance and phase gives exactly the mean over draws / integral over the prior
     (grid times with their own prior density, lookup table at the reference distance, Bessel function), fixes the
     callers' priors, and reconstructed samples of phase, distance, time and calibration are drawn from the conditional
     posterior given the others. A lookup table is only reused when it matches.""",
     "all data, templates and prior densities; time marginalisation with 4 bins, 2 calibration draws, 1-3 detectors",
     """The tests compare a marginalised likelihood with a numerical integral at a few points with loose tolerance; a bin
     shift, a missing normalisation for other durations or a stale detector term passes them.""",
     ["bilby/gw/likelihood/base.py", "bilby/gw/likelihood/basic.py", "bilby/gw/utils.py", "bilby/gw/detector/interferometer.py",
      "bilby/core/utils/calculus.py"],
     [("GravitationalWaveTransient", "bilby/gw/likelihood/base.py"),
      ("BasicGravitationalWaveTransient", "bilby/gw/likelihood/basic.py"),
      ("noise_weighted_inner_product, matched_filter_snr, optimal_snr_squared, ln_i0", "bilby/gw/utils.py"),
      ("Interferometer.inner_product, optimal_snr_squared, matched_filter_snr", "bilby/gw/detector/interferometer.py"),
      ("BoundedRectBivariateSpline", "bilby/core/utils/calculus.py")],
     over=("inputs", "histories"),
     observe=["GravitationalWaveTransient.log_likelihood_ratio", "GravitationalWaveTransient.noise_log_likelihood",
              "GravitationalWaveTransient.generate_posterior_sample_from_marginalized_likelihood"],
     note="""numpy.fft.fft by its definition on 4 or 8 points; the spline through the lookup table, waveform and detector
     response are uninterpreted callee contracts; i0e uninterpreted; explicit bin counts bounded where time or calibration
     is marginalised""")
prop("P10", "Interferometer data agree with each other after any history of use",
     """Whatever sequence of setting data (from time-domain or frequency-domain strain, gwpy series, frame, noise, zero noise),
     changing the analysed band, notches or window, and reading, the strain, time and frequency arrays, mask, window factor and
     spectral densities describe the last data set under the current settings: the mask is exactly the frequencies within the
     limits, at most Nyquist, and outside every notch; frequency-domain strain is the windowed transform of the time-domain
     strain (and back) with the mask applied; the spectral density carries the window factor; injections add exactly the
     masked response; a PSD estimate leaves out the analysis segment.""",
     """all strain values, limits and notches (mask: arrays of any length); histories of two data sets, changes and reads in
     every order; bounded: 4 or 8 samples where a transform is involved""",
     """Each test sets data once and reads once; caches and cooperating setters only go wrong for particular orders of
     setting, changing and reading.""",
     ["bilby/gw/detector/strain_data.py", "bilby/core/series.py", "bilby/gw/detector/interferometer.py"],
     [("InterferometerStrainData, Notch, NotchList", "bilby/gw/detector/strain_data.py"),
      ("CoupledTimeAndFrequencySeries", "bilby/core/series.py"),
      ("Interferometer strain properties, inject_signal_from_waveform_polarizations", "bilby/gw/detector/interferometer.py")],
     over=("inputs", "histories"),
     state=[("InterferometerStrainData._time_domain_strain, _frequency_domain_strain, _frequency_mask, _window", "caches",
             "bilby/gw/detector/strain_data.py")],
     observe=["InterferometerStrainData.frequency_domain_strain", "InterferometerStrainData.time_domain_strain",
              "InterferometerStrainData.frequency_mask", "Interferometer.power_spectral_density_array"],
     note="""numpy rfft/irfft by their definition on 4 and 8 points; the Tukey window values and the noise realisation are
     uninterpreted; the low pass filter, gwpy reading and resampling are assumed callees""")
prop("P11", "Spectral densities, noise and Fourier conventions are mutually consistent",
     """A power spectral density given as PSD or ASD, array, list or file, is interpolated linearly in PSD within its range and
     infinite outside, the ASD is its square root, and queries return the current density whatever was asked or set before.
     Coloured noise has variance T S / 4 per real component, no DC or Nyquist component and zero outside the table. Time and
     frequency series have spacing 1/fs and 1/T from the requested start, illegal combinations are refused, the parameters of
     a series are recovered from it; nfft is the continuous transform and infft inverts it; whitening gives unit variance.""",
     "all density values, frequencies, sampling rates and durations; bounded: tables of 2-3 entries, series of at most 8 samples",
     """Tests use one sampling rate and one table; caches across queries, decimal durations, list input and the ASD/PSD
     distinction are sampled at single points.""",
     ["bilby/gw/detector/psd.py", "bilby/core/utils/series.py", "bilby/gw/utils.py", "bilby/gw/detector/interferometer.py"],
     [("PowerSpectralDensity", "bilby/gw/detector/psd.py"),
      ("create_white_noise, create_time_series, create_frequency_series, nfft, infft", "bilby/core/utils/series.py"),
      ("asd_from_freq_series, psd_from_freq_series, inner_product", "bilby/gw/utils.py"),
      ("Interferometer.whiten_frequency_series", "bilby/gw/detector/interferometer.py")],
     over=("inputs", "histories"),
     state=[("PowerSpectralDensity._cache", "density at the last queried frequencies", "bilby/gw/detector/psd.py")],
     observe=["PowerSpectralDensity.get_power_spectral_density_array", "PowerSpectralDensity.get_noise_realisation",
              "create_white_noise", "nfft", "infft"],
     note="""scipy interp1d and numpy rfft/irfft by their definitions on explicit arrays; random draws are arbitrary reals;
     bounded table and series sizes; one concrete check of decimal durations is labelled bounded""")
prop("P12", "The detector response applies pattern, delay and calibration of its geometry",
     """For any polarizations, sky position, time, polarisation angle, frequencies and mask, the response of a detector is the
     sum of polarizations times their antenna pattern, shifted by the arrival time relative to the start of the data, times the
     calibration factor, zero outside the mask, inputs unchanged; injections give every detector the same signal. Geometry
     follows every change of location and orientation. The calibration factor is the not-a-knot spline in log frequency of the
     given nodes, draws belong to the parameters kept with them, networks only hold detectors with the same data segment, and
     sky-frame conversion uses the reference detector and frame row by row.""",
     """all polarizations, frequencies and masks (arrays of any length), parameters and geometry values; bounded: spline nodes
     (4-5, continuity 4-10), two geometry changes, three detectors""",
     """Tests check single sky positions with default geometry; stale geometry caches, starting indices, reordered sample
     tables and GPS-sized times are not covered.""",
     ["bilby/gw/detector/interferometer.py", "bilby/gw/detector/geometry.py", "bilby/gw/detector/calibration.py",
      "bilby/gw/detector/networks.py", "bilby/gw/likelihood/base.py", "bilby/gw/conversion.py", "bilby/gw/utils.py"],
     [("Interferometer.get_detector_response, antenna_response, inject_signal", "bilby/gw/detector/interferometer.py"),
      ("InterferometerGeometry", "bilby/gw/detector/geometry.py"),
      ("CubicSpline, Precomputed, build_calibration_lookup, read_calibration_file", "bilby/gw/detector/calibration.py"),
      ("InterferometerList, TriangularInterferometer", "bilby/gw/detector/networks.py"),
      ("GravitationalWaveTransient.get_sky_frame_parameters", "bilby/gw/likelihood/base.py"),
      ("generate_sky_frame_parameters", "bilby/gw/conversion.py")],
     over=("inputs", "histories"),
     state=[("InterferometerGeometry._x_updated ...", "cached arms, vertex, tensor", "bilby/gw/detector/geometry.py")],
     observe=["Interferometer.get_detector_response", "InterferometerGeometry.detector_tensor", "CubicSpline.get_calibration_factor",
              "build_calibration_lookup", "GravitationalWaveTransient.get_sky_frame_parameters"],
     note="""bilby_cython (antenna tensor, delays, arms) is an assumed dependency, uninterpreted in the proofs and compared with
     textbook formulae in a bounded check; calibration and detector files are checked bounded (concrete)""")
prop("P13", "Samplers evaluate and report every parameter under its own name",
     """Position i of a sampler's point is search_parameter_keys[i] in every likelihood, prior and prior-transform evaluation,
     including pools and wrappers; fixed parameters and constraints are classified as such; a point outside the constraints has
     the lowest value in nested sampling and zero prior otherwise; initial points are consistent with the prior. In the result
     the sample, likelihood, prior and weight of a row belong to the same point, for each sampler, whether rows are cut, thinned,
     resampled or reordered; boundaries and settings reach the sampler unchanged, and run statistics are those of the run.""",
     "all parameter values, likelihoods and orders of the prior; bounded: three search parameters, three to four samples or walkers",
     """Tests run few samplers with few parameters and compare posteriors statistically, so permuted rows or parameters
     with similar likelihoods pass; many sampler wrappers are never run.""",
     ["bilby/core/sampler/base_sampler.py", "bilby/core/sampler/__init__.py", "bilby/core/sampler/dynesty.py",
      "bilby/core/sampler/emcee.py", "bilby/core/sampler/kombine.py", "bilby/core/sampler/ptemcee.py", "bilby/core/sampler/zeus.py",
      "bilby/core/sampler/nestle.py", "bilby/core/sampler/ultranest.py", "bilby/core/sampler/nessai.py"],
     [("Sampler, NestedSampler, MCMCSampler", "bilby/core/sampler/base_sampler.py"),
      ("Dynesty._generate_result", "bilby/core/sampler/dynesty.py"), ("Emcee", "bilby/core/sampler/emcee.py"),
      ("Kombine", "bilby/core/sampler/kombine.py"), ("LikePriorEvaluator", "bilby/core/sampler/ptemcee.py"),
      ("Zeus", "bilby/core/sampler/zeus.py"), ("Nestle", "bilby/core/sampler/nestle.py"),
      ("Ultranest", "bilby/core/sampler/ultranest.py"), ("Nessai", "bilby/core/sampler/nessai.py")],
     over=("inputs",),
     state=[("Sampler._search_parameter_keys, _fixed_parameter_keys, parameters", "classification of parameters",
             "bilby/core/sampler/base_sampler.py")],
     observe=["Sampler.log_likelihood", "Sampler.prior_transform", "Sampler.result"],
     note="""the external sampler libraries are replaced by arbitrary outputs of their documented shape; bounded numbers of
     parameters, samples and walkers; statistical efficiency and convergence are not decided""")
prop("P14", "Proposals, acceptance, swaps and walks keep the target distribution",
     """For every state and draw, each MCMC proposal returns the logarithm of the proposal density ratio q(old|new)/q(new|old):
     symmetric moves have an equally likely way back, stretches z^(n-1), independent draws the ratio of their densities; points
     are folded into the prior range only at equivalent places. A step accepts exactly for u <= exp(log ratio) of the tempered
     posterior, excluded points never, and the chain records the state it goes on from with its own likelihood and prior.
     Temperature swaps exchange states with the right probability; evidence and hot-sample weights follow from the chains, which
     they leave unchanged. Nested-sampling walks return a point above the bound with its own parameters and likelihood.""",
     """all states, draws, likelihood and prior values, temperatures; bounded: one to three parameters, two internal steps, up to
     three temperatures, walks of two to three steps""",
     """Tests call proposals once and check types and ranges; a wrong weight or swap that is not carried on biases or slows the
     chain without any error, and is invisible in a short stochastic run.""",
     ["bilby/bilby_mcmc/proposals.py", "bilby/bilby_mcmc/sampler.py", "bilby/bilby_mcmc/chain.py", "bilby/core/sampler/proposal.py",
      "bilby/core/sampler/dynesty_utils.py"],
     [("BaseProposal and its subclasses", "bilby/bilby_mcmc/proposals.py"), ("BilbyMCMCSampler, BilbyPTMCMCSampler", "bilby/bilby_mcmc/sampler.py"),
      ("Chain", "bilby/bilby_mcmc/chain.py"), ("JumpProposal and its subclasses", "bilby/core/sampler/proposal.py"),
      ("FixedRWalk, ACTTrackingRWalk, AcceptanceTrackingRWalk, apply_boundaries_", "bilby/core/sampler/dynesty_utils.py")],
     over=("inputs", "histories"),
     state=[("Chain._chain_array, _current_sample", "recorded and current samples", "bilby/bilby_mcmc/chain.py"),
            ("ACTTrackingRWalk._cache", "stored points", "bilby/core/sampler/dynesty_utils.py")],
     observe=["BilbyMCMCSampler.step", "BaseProposal.__call__", "BilbyPTMCMCSampler.swap_tempered_chains", "Chain.__getitem__",
              "FixedRWalk.__call__"],
     note="""densities of fitted estimators (scipy, sklearn) are arbitrary functions; random generators return arbitrary values in
     their documented range; mixing speed and convergence are not decided; the normalising flow proposal needs torch and is not
     covered; Fisher matrices and adaptation make the proposal depend on history and are taken as given between updates""")
prop("P15", "Reweighting, combining and summarising results follow the samples they hold",
     """For every posterior, likelihood and prior, reweighting uses (new likelihood x new prior) / (old likelihood x old prior) of
     each sample, evaluated with that sample's own parameters, also after an interruption; samples are kept with probability
     proportional to their weight, the evidence and Bayes factor change by the mean weight, and the original result keeps its
     samples, priors and evidence. Results are combined only if consistent, weighting nested runs by evidence, with the mean
     evidence. Posterior columns, volumes, dimensionality, quantiles, credible levels of injections, and weights by a new prior
     are those of the current samples in order; the density estimate is renewed when the posterior is replaced.""",
     """all sample, likelihood, prior, weight and evidence values and draws; bounded: two to four samples of one or two parameters,
     two or three results""",
     """Tests reweight one example and compare lengths and labels; a permuted or stale weight gives a plausible but wrong posterior.""",
     ["bilby/core/result.py"],
     [("get_weights_for_reweighting", "bilby/core/result.py"), ("rejection_sample, reweight", "bilby/core/result.py"),
      ("ResultList.combine", "bilby/core/result.py"), ("Result.samples_to_posterior", "bilby/core/result.py"),
      ("Result.get_injection_credible_level", "bilby/core/result.py"), ("Result.get_weights_by_new_prior", "bilby/core/result.py"),
      ("Result.covariance_matrix, posterior_volume, bayesian_model_dimensionality, kde", "bilby/core/result.py")],
     over=("inputs", "histories"),
     state=[("Result._posterior, _kde, log_evidence, log_bayes_factor", "samples and summaries", "bilby/core/result.py")],
     observe=["reweight", "ResultList.combine", "Result.posterior", "Result.get_injection_credible_level"],
     note="""pandas keeps rows together and scipy's kernel density estimate is a function of the samples given to it; the pool maps in
     order; statistical error of finite samples is not decided""")
prop("P16", "Results and priors read back from files as they were saved",
     """Every value a result may hold is read back from JSON or HDF5 with its kind and value. Results (JSON, gzipped JSON, HDF5,
     pickle; by name, directory and label, or in lists) keep every saved attribute, their class and their priors, and saving
     leaves them unchanged; results a format cannot hold are pickled whole without partial files; existing files are kept as .old
     unless overwritten. Prior dictionaries written as JSON or text keep class, order, arguments, labels, bounds and shared joint
     distributions. safe_file_dump, interrupted at any point, leaves all of the old or all of the new content.""",
     """JSON: all numbers, enumerated kinds of values and priors; HDF5, text and pickle: fixed numbers in every enumerated kind;
     file dumps: every crash point around each step""",
     """Tests round-trip one result and the default priors; a lost class, bound, label or index, or a file broken by a crash, only
     shows in what a later analysis reads.""",
     ["bilby/core/utils/io.py", "bilby/core/result.py", "bilby/core/prior/base.py", "bilby/core/prior/dict.py", "bilby/core/prior/joint.py"],
     [("BilbyJsonEncoder, decode_bilby_json", "bilby/core/utils/io.py"), ("encode_for_hdf5, decode_from_hdf5", "bilby/core/utils/io.py"),
      ("safe_file_dump, move_old_file", "bilby/core/utils/io.py"), ("Result.save_to_file, from_json, from_hdf5, from_pickle", "bilby/core/result.py"),
      ("read_in_result, read_in_result_list", "bilby/core/result.py"), ("PriorDict.to_file, from_file, to_json, from_json", "bilby/core/prior/dict.py"),
      ("Prior.__repr__, from_repr", "bilby/core/prior/base.py")],
     over=("inputs", "crash_points"),
     state=[("result, prior and state files", "content on disk", "bilby/core/utils/io.py")],
     observe=["read_in_result", "PriorDict.from_json", "PriorDict(filename=...)", "safe_file_dump"],
     note="""in symbolic runs json is its documented mapping of nested values; h5py, dill, gzip and the file system are the real ones;
     a rename within a directory is atomic; Interped priors written as text (their repr holds arrays) are not covered; tuples in
     JSON come back as lists and lists in HDF5 as arrays""")
prop("P17", "Waveforms and derived quantities of a sample follow its own parameters",
     """A waveform generator returns its source model at the converted parameters and current waveform arguments, transformed if the
     model is in the other domain, whatever was asked before and however times, frequencies, model or arguments were changed. The
     source models ask the waveform library in its units with the given settings, keep every polarisation inside the band, apply
     the time shift, and give no waveform only for a caught domain error. SNRs, detector log likelihoods and reconstructed
     parameters of every posterior sample are those of its own row, also with pools, blocks or after an interruption.""",
     """all parameter and strain values; bounded: four to eight samples or frequencies, two to five posterior rows, every interruption""",
     """Tests compare one waveform with the library and lengths of columns; stale caches and permuted rows look plausible.""",
     ["bilby/gw/waveform_generator.py", "bilby/gw/source.py", "bilby/gw/conversion.py", "bilby/gw/utils.py"],
     [("WaveformGenerator", "bilby/gw/waveform_generator.py"), ("lal_binary_black_hole and the other source models", "bilby/gw/source.py"),
      ("compute_snrs, compute_per_detector_log_likelihoods", "bilby/gw/conversion.py"),
      ("generate_posterior_samples_from_marginalized_likelihood", "bilby/gw/conversion.py"),
      ("generate_all_bbh_parameters, generate_all_bns_parameters", "bilby/gw/conversion.py")],
     over=("inputs", "histories", "crash_points"),
     state=[("WaveformGenerator._cache", "last waveform", "bilby/gw/waveform_generator.py"),
            (".<label>_generate_posterior_cache.pickle", "rows reconstructed so far", "bilby/gw/conversion.py")],
     observe=["WaveformGenerator.frequency_domain_strain", "lal_binary_black_hole", "generate_all_bbh_parameters", "compute_snrs"],
     note="""the waveform library itself is outside (called through recording functions); the pool maps in order; editing a returned
     waveform in place changes what the generator returns next for the same parameters""")
prop("P18", "Accelerated likelihoods are the likelihood of the same data",
     """Relative binning keeps, for each detector and its own mask, the summary data of its definition, is exact at the fiducial
     parameters and takes the current ones as fiducial after an update. Reduced-order-quadrature weights are the documented inner
     products of data and basis; each call uses a basis whose range holds the parameters, whatever was asked before, interpolates
     the time, and refuses bases that do not cover analysis or prior. Multi-banding windows add to one; one band is exact and several
     are accurate for chirps. Weights saved and loaded give the same likelihood.""",
     """all data, spectral densities, waveforms and weights; bounded: nine frequencies or a few nodes, histories of two or three calls,
     fixed frequency bands; full-size constructions of weights and of bands are bounded to random choices""",
     """Tests compare one injection with a loose tolerance: lost bins, wrong masks, edges, stale bases or roundings change the
     likelihood by less than that, or only for other bands and durations.""",
     ["bilby/gw/likelihood/relative.py", "bilby/gw/likelihood/roq.py", "bilby/gw/likelihood/multiband.py", "bilby/gw/likelihood/base.py"],
     [("RelativeBinningGravitationalWaveTransient", "bilby/gw/likelihood/relative.py"),
      ("ROQGravitationalWaveTransient", "bilby/gw/likelihood/roq.py"),
      ("MBGravitationalWaveTransient", "bilby/gw/likelihood/multiband.py")],
     over=("inputs", "histories"),
     state=[("ROQGravitationalWaveTransient._cache", "basis of the last parameters", "bilby/gw/likelihood/roq.py"),
            ("summary_data, fiducial waveforms", "fiducial state", "bilby/gw/likelihood/relative.py")],
     observe=["log_likelihood_ratio", "calculate_snrs", "weights", "save_weights", "fiducial_parameters"],
     note="""the optimiser of the fiducial parameters returns some point of its bounds; relative binning keeps the first order of <h|h>
     as documented; multi-banded ROQ bases are covered by a single configuration; a ROQ parameter conversion must return a dict""")
