#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is reviewable)."""
import json, os
P = []


def _where(files, sym):
    """file of /repo in which the symbol is defined (first match)"""
    for f in files:
        try:
            src = open(os.path.join("/repo", f)).read()
        except OSError:
            continue
        parts = sym.split(".")
        if all(("def %s" % x) in src or ("class %s" % x) in src for x in parts):
            return f + ":" + sym
    return files[0] + ":" + sym


def p(id, title, statement, over, text, why, files, symbols):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=s, where=_where(files, s)) for s in symbols])))

p("C01", "Irregular-binning histograms conserve and place every weight",
  "In a histogram with user-given 1D edges, or 2D edges whose y edges differ from one x bin to the next, the content of each bin is exactly the sum of the weights of the events whose coordinates are above the bin's lower edge and not above its upper edge (with the y edges of the event's own x bin). Events outside the outermost edges of x, or outside the y edges of their x bin, contribute to no bin, and no event contributes to two bins.",
  ["inputs"], "all numbers of events and bins, all event positions and weights (of either sign), all strictly increasing edges",
  "Tests histogram a few random samples and only compare the total; they never check which bin an event on an edge, below, or above the range lands in.",
  ["appletree/hist.py"], ["make_hist_irreg_bin_1d", "make_hist_irreg_bin_2d"])
p("C02", "Linear interpolation is exact multilinear interpolation, clamped outside",
  "Linear (LERP) interpolation of a 1D point map or a regular 2D/3D grid returns, at any position inside the map, the multilinear combination of the values at the corners of the cell that contains it (so it is exact at every grid node and never leaves the range of those corner values). At positions outside the map every coordinate behaves as if moved to the nearest edge, and the result of one query does not depend on the other queries in the batch.",
  ["inputs"], "all query positions, map extents, grid sizes (at least two nodes per axis) and map values",
  "Tests query single points on one or two fixed grids; they cannot quantify over all cells, positions outside the grid or anisotropic grids.",
  ["appletree/interpolation.py"], ["map_interpolator_linear_1d", "map_interpolator_regular_binning_bilinear_2d", "map_interpolator_regular_binning_trilinear_3d"])
p("C03", "Inverse-distance interpolation is a finite convex combination of neighbours",
  "Inverse-distance-weighted interpolation of a map (1D point maps, 1D/2D/3D regular grids, and the k-nearest-neighbour variant) returns a weighted mean of the values at the nodes surrounding the query (the two bracketing nodes in 1D, the corners of the cell containing it in 2D and 3D, the k nearest points in the k-neighbour variant), with positive weights inversely proportional to distance. The result lies within the range of those node values for every query inside the map, and is finite even when the query coincides with a node, where it equals that node's value.",
  ["inputs"], "all query positions inside the map extent (on the upper faces of a 2D/3D grid only range and finiteness are claimed, not the exact weights), all grid sizes with at least two nodes per axis, all finite map values",
  "Tests query a handful of points and explicitly avoid grid nodes.",
  ["appletree/interpolation.py"], ["curve_interpolator", "map_interpolator_regular_binning_1d", "map_interpolator_regular_binning_2d", "map_interpolator_regular_binning_3d", "map_interpolator_knn"])
p("C04", "Nearest-neighbour interpolation returns the value of a nearest node",
  "Nearest-neighbour interpolation of a 1D point map or a regular 2D/3D grid returns, for every query position inside or outside the map, the stored value of the node whose coordinate is nearest to the query along each axis. The value is one of the map's stored values, unchanged, and axes are never mixed up.",
  ["inputs"], "all query positions, map extents, grid sizes and map values",
  "Tests check single queries on a small fixed grid.",
  ["appletree/interpolation.py"], ["find_nearest_indices", "map_interpolator_nearest_neighbor_1d", "map_interpolator_regular_binning_nearest_neighbor_2d", "map_interpolator_regular_binning_nearest_neighbor_3d"])
p("C05", "Map files are interpolated as their file declares",
  "A map built from a file is evaluated with the interpolation its method and dimension name; every axis the file declares logarithmic is interpolated in log10 of its coordinate, and every other axis in the coordinate itself, with the stored map values unchanged. Unknown methods or coordinate types, a per-axis type list of the wrong length, non-positive coordinates on a logarithmic axis, and logarithmic pdf/cdf axes are rejected with an error at build time, never silently accepted.",
  ["inputs", "configurations"], "all map files (point or regular grid, any mixture of linear and logarithmic axes), all methods, all query positions",
  "Tests build a few fixed maps and check a few values; no test ranges over the combinations of axis types, methods and invalid declarations.",
  ["appletree/config.py"], ["Map.build", "Map.build_point", "Map.build_regbin", "Map.preprocess", "Map._validate_log_coords", "Map._get_regbin_interpolator", "Map.map_point", "Map.map_regbin"])
p("C06", "A map with uncertainty interpolates between its median and its bands",
  "A map with uncertainty evaluates, at every position, to median + s*(upper - median) when its scaler s is positive and median + s*(median - lower) otherwise: s=0 gives the median, s=+1 the upper and s=-1 the lower map. The scaler is the configured fourth entry, or the option's own name followed by _sigma when three files are given, and this is the parameter reported as required; with a single file name no parameter is required and the value is that map.",
  ["inputs", "configurations"], "all maps, scaler values, positions, and all forms of configuration (list of 3, list of 4, string, per-likelihood dictionary)",
  "Tests apply one configuration at one scaler value.",
  ["appletree/config.py"], ["SigmaMap.apply", "SigmaMap.required_parameter", "SigmaMap.build", "SigmaMap.get_configs"])
p("C07", "A probability density map is converted into its normalised cumulative",
  "When a point map is given as a density, it is replaced by its inverse cumulative: coordinates are the running midpoint-rule integral of the density divided by the total integral, and values are the midpoints of the original coordinates. For any non-negative density with positive integral the resulting coordinates are non-decreasing, within [0, 1], and end exactly at 1, so uniform random numbers are mapped to values inside the original range.",
  ["inputs"], "all increasing coordinate arrays of at least two points and all non-negative densities with positive integral",
  "The existing tests only check the integral of one function against a library.",
  ["appletree/config.py", "appletree/utils.py"], ["Map.build_point", "Map.pdf_to_cdf", "integrate_midpoint", "cumulative_integrate_midpoint"])
p("C08", "Random samplers stay in their support and honour the requested shape",
  "Every sampler returns values in the support of its distribution: uniform between its limits, truncated normal between the given truncation limits, binomial an integer between 0 and its number of trials (exactly 0 or n for probability 0 or 1), Bernoulli 0 or 1, Poisson and its generalisations non-negative integers, gamma non-negative. With no shape given the result has the broadcast shape of the distribution parameters, otherwise exactly the requested shape, and location and scale enter as location + scale * (standard variate); for the two-sided half normal the choice of side is drawn independently of the magnitude.",
  ["inputs"], "all keys, all admissible distribution parameters (scalars or arrays) and shapes",
  "Tests draw a few samples and print or compare shapes for one or two parameter choices; supports at extreme parameters are never checked.",
  ["appletree/randgen.py"], ["uniform", "poisson", "gamma", "normal", "truncate_normal", "skewnormal", "bernoulli", "binomial", "binomial_hybrid", "negative_binomial", "generalized_poisson", "twohalfnorm", "TwoHalfNorm.rvs"])
p("C09", "No random key is ever used twice",
  "Every sampler and every simulation step that draws random numbers uses each random key it derives for at most one draw, and returns a new key that has not been used for any draw and from which none of the keys it used can be derived again; steps that draw nothing return the key they were given. Hence two draws anywhere in one simulation, or in consecutive simulations threaded through the returned key, never share a key.",
  ["inputs", "configurations"], "all keys, all samplers and bundled simulation steps, all parameter values and batch sizes",
  "Key reuse produces plausible-looking but correlated samples, which no example-based test notices.",
  ["appletree/randgen.py", "appletree/plugins/common.py", "appletree/plugins/detector.py", "appletree/plugins/er_microphys.py", "appletree/plugins/er_nestv2.py", "appletree/plugins/lyqy.py", "appletree/plugins/nestv2.py", "appletree/plugins/reconstruction.py", "appletree/plugins/efficiency.py"],
  ["uniform", "poisson", "normal", "binomial", "twohalfnorm", "Plugin.simulate"])
p("C10", "Microphysics conserves quanta",
  "In every bundled microphysics chain the simulated numbers of quanta, ions, excitons, photons and electrons are non-negative integers, ions plus excitons equal the quanta, electrons never exceed ions, and for electronic recoils photons plus electrons equal the quanta. For nuclear recoils photons are never fewer than the excitons nor than the quanta not turned into electrons, and expected yields are never negative.",
  ["inputs"], "all keys, energies, fields and parameter values in the physical domain (positive work function, probabilities in [0, 1], non-negative widths)",
  "Tests only run the simulations; they never look at the identities between the simulated counts.",
  ["appletree/plugins/er_microphys.py", "appletree/plugins/er_nestv2.py", "appletree/plugins/nestv2.py", "appletree/plugins/lyqy.py"],
  ["Quanta", "IonizationER", "RecombinationER", "TrueRecombER", "TrueExcitonIonER", "TruePhotonElectronER", "TrueExcitonIonNR", "TruePhotonElectronNR", "MeanNphNe", "LyER", "QyNR", "LyNR"])
p("C11", "Efficiencies and acceptances stay between 0 and 1",
  "Every reconstruction efficiency, cut acceptance and threshold acceptance lies between 0 and 1 for every event whatever the maps and their scaler parameters, the threshold acceptance is 1 exactly for signals strictly above the threshold and 0 otherwise, and the event weight is the product of all acceptances, hence also between 0 and 1. For literature constraints the weight is 1 exactly for energies inside the configured energy window and 0 otherwise.",
  ["inputs", "configurations"], "all events, all maps, all scaler and threshold values",
  "Tests never evaluate acceptances with scaler values that push a map outside [0, 1], nor signals exactly at a threshold.",
  ["appletree/plugins/efficiency.py", "appletree/plugins/nestv2.py"], ["S2Threshold", "S1ReconEff", "S1CutAccept", "S2CutAccept", "Eff", "MonoEnergiesClipEff", "BandEnergiesClipEff"])
p("C12", "The detector never detects more than was produced",
  "For every event the number of detected photons is an integer between 0 and the number of photons, photo-electrons lie between the number of detected photons and twice that number, drifted electrons lie between 0 and the number of electrons, the drift survival probability is in (0, 1] and decreases with drift distance, and the secondary signal is a non-negative integer number of photo-electrons that is zero when no electron drifted. Areas equal the photo-electron count times one plus the sampled bias, corrected areas are areas divided by their correction (and, for the ionisation signal, by the survival probability), and the reconstructed radius is the length of the reconstructed transverse position.",
  ["inputs", "configurations"], "all keys, events, maps and parameter values with probabilities in [0, 1] and positive gains, drift velocity and lifetime",
  "Tests only run the simulation; the inequalities between stages and the formulas are never asserted.",
  ["appletree/plugins/detector.py", "appletree/plugins/reconstruction.py"], ["EField", "S1LCE", "S2LCE", "PhotonDetection", "S1PE", "DriftLoss", "ElectronDrifted", "S2PE", "PositionRecon", "S1", "S2", "S1Correction", "S2Correction", "cS1", "cS2"])
p("C13", "Generated events lie inside the configured energy and volume ranges",
  "Generated energies lie between the configured lower and upper energy (or equal the mono-energy, or are a value of the energy spectrum map, or are non-negative for parameterised mono-energies whose recorded centre is the configured one), and generated positions lie between the configured depths and inside the configured radius, uniformly distributed in area. Exactly the requested number of events is generated.",
  ["inputs", "configurations"], "all keys, batch sizes and configured ranges",
  "Tests only check that a simulation runs.",
  ["appletree/plugins/common.py", "appletree/plugins/nestv2.py"], ["UniformEnergySpectra", "FixedEnergySpectra", "MonoEnergySpectra", "PositionSpectra", "MonoEnergiesSpectra", "UniformEnergiesSpectra"])
p("C14", "The simulation workflow is complete and in dependency order",
  "For any acyclic set of registered simulation steps and any requested observables, the deduced workflow contains every step needed for them exactly once and nothing else, each step comes after all steps whose outputs it takes, and a request for an observable nobody provides is refused with an error. The set of parameters the component reports as needed is exactly its rate parameter (if named) plus those declared by the steps in the workflow plus those required by their uncertainty maps.",
  ["inputs", "configurations"], "all acyclic plugin graphs (any size), multi-output plugins, any list of requested observables",
  "Tests deduce the two or three bundled components only.",
  ["appletree/component.py"], ["ComponentSim.register", "ComponentSim.dependencies_deduce", "ComponentSim.dependencies_simplify", "ComponentSim.deduce"])
p("C15", "The generated simulation function is the composition of its steps",
  "The simulation function generated for a component calls every step of its workflow exactly once in workflow order, giving each the current random key, the parameters and the values of the observables it depends on in the order it declares them, binds its outputs to the observables in the order it provides them, and returns the last key together with the requested observables in the requested order with the efficiency last. Functions of different components and likelihoods never replace each other, and the function of a component can be regenerated after its configuration changed.",
  ["inputs", "configurations", "histories"], "all workflows, observables, component and likelihood names",
  "Tests execute the generated code of the bundled components without comparing it with its workflow.",
  ["appletree/component.py", "appletree/plugin.py"], ["ComponentSim.deduce", "ComponentSim.flush_source_code", "ComponentSim.code", "ComponentSim.compile", "Plugin.__init__", "Plugin.__call__", "Plugin.sanity_check"])
p("C16", "Component histograms are scaled to the rate parameter",
  "With normalisation on the pdf, the histogram of a simulated or fixed component equals its unnormalised histogram times its own rate parameter divided by its total content, so that its bins sum to the rate; with normalisation on the number of simulated events it equals the unnormalised histogram times rate divided by that number. The histogram is made from exactly the requested observables in order with the efficiencies as weights (all ones when efficiency is switched off), it scales linearly with the rate and depends on no other component's rate, and any unsupported normalisation or binning is refused.",
  ["inputs", "configurations"], "all simulated outputs, binnings (1D and 2D), rates and batch sizes, both normalisations, simulated and fixed components",
  "Tests only check that a histogram of the bundled components can be produced.",
  ["appletree/component.py"], ["Component.implement_binning", "Component.get_normalization", "ComponentSim.simulate_hist", "ComponentFixed.simulate_hist", "ComponentFixed.deduce"])
p("C17", "The likelihood is the Poisson likelihood of the summed components",
  "The model histogram of a likelihood is the bin-by-bin sum of the histograms of all its components, each simulated once with the same parameters and with the random key threaded from one to the next. The log likelihood is the sum over bins of n*log(m) - m for data count n and model expectation m; it is minus infinity when any bin of the model is zero, negative, infinite or not a number, and it never returns NaN.",
  ["inputs", "configurations"], "any number and mixture of simulated and fixed components, all data and model histograms including zero, negative, infinite and NaN bins",
  "Tests evaluate the likelihood of one bundled configuration and never compare it with the Poisson formula or trigger the exceptional bins.",
  ["appletree/likelihood.py"], ["Likelihood._simulate_model_hist", "Likelihood.get_log_likelihood", "Likelihood.get_num_events_accepted"])
p("C18", "Parameter aliases rename exactly what they declare",
  "When a likelihood declares aliases, the simulation sees under the aliased name the value the user gave under the alias, all parameters without alias unchanged, and the alias name itself no longer; the caller's own parameter dictionary is never modified. The parameters a likelihood reports as needed contain the alias instead of the aliased name exactly when one of its components needs the aliased name, and every public evaluation of the likelihood applies the renaming exactly as declared.",
  ["inputs", "configurations"], "all alias tables whose names do not overlap, all parameter dictionaries, all likelihood entry points, positional or keyword arguments",
  "Tests use one alias in one configuration.",
  ["appletree/likelihood.py"], ["need_replacing_alias", "Likelihood.replace_alias", "Likelihood.register_component"])
p("C19", "The log prior is minus infinity outside and the declared sum inside",
  "The log prior is minus infinity as soon as any fitted parameter is outside its allowed range, and otherwise (bounds included) is the sum over the fitted parameters of their prior's term: -(v-mean)^2/(2 std^2) for normal, the two-half-normal log density for two-half-normal, and zero for uniform and free priors. Fixed parameters never contribute.",
  ["inputs", "configurations"], "any set of parameters and prior types, all parameter values and allowed ranges",
  "Tests evaluate the prior at one sampled point of one configuration.",
  ["appletree/parameter.py", "appletree/randgen.py"], ["Parameter.log_prior", "TwoHalfNorm.logpdf"])
p("C20", "Sampled parameters respect fixed values and allowed ranges",
  "Initialising or sampling from the prior, and sampling from the initial guess, assigns every configured parameter a value: its configured value if fixed, otherwise a value inside its allowed range, drawn with the location and width of its prior (of its initial guess for free priors and for initial-guess sampling). Fitted parameters are exactly the configured parameters that are not fixed, reported in sorted order, and the caller's configuration is never modified.",
  ["inputs", "configurations", "histories"], "any set of parameters and prior types, all random draws, any order of sampling calls",
  "Tests sample a few times from one configuration and look at single values.",
  ["appletree/parameter.py"], ["Parameter.__init__", "Parameter.init_parameter", "Parameter.sample_prior", "Parameter.sample_init", "Parameter.parameter_fit"])
p("C21", "The parameter store returns what was last set and nothing else changes",
  "Setting parameters by name, by list of names or by dictionary changes exactly the named parameters to exactly the given values, and reading by name, list or set returns the current values in the order asked for; the fitted-parameter vector lists values in the order of the sorted fitted names. Naming an unknown parameter, giving lists of different length or an unsupported key type is refused and leaves all values unchanged.",
  ["inputs", "histories"], "all sequences of set and get calls with any names, lists, sets, dictionaries and values",
  "Tests perform one or two calls of each kind.",
  ["appletree/parameter.py"], ["Parameter.set_parameter", "Parameter.get_parameter", "Parameter.check_parameter_exist", "Parameter.__getitem__", "Parameter.parameter_fit_array"])
p("C22", "The log posterior is the log prior plus all log likelihoods",
  "The log posterior of a context is its log prior plus the sum of the log likelihoods of all its likelihoods, each evaluated exactly once per repetition at the given parameters and batch size with the random key threaded from one to the next, and averaged over the repetitions if several are asked for. When the log prior is not finite the posterior is minus infinity and nothing is simulated; the log prior itself is always returned alongside.",
  ["inputs", "configurations"], "any number of likelihoods and repetitions, all parameter values, all likelihood values including minus infinity",
  "Tests evaluate the posterior of one configuration without comparing it with its parts.",
  ["appletree/context.py"], ["Context.log_posterior", "Context.get_num_events_accepted"])
p("C23", "Configured values override defaults and are resolved per likelihood",
  "An option takes the value the user configured if there is one and its default otherwise; a value configured as a dictionary is resolved by the name of the likelihood, and a likelihood missing in it is an error rather than a fallback. A default once used is what every later user of the option sees, an option without default and value is an error, and configuring file names stores their resolved path while numbers and lists are stored unchanged.",
  ["inputs", "configurations", "histories"], "all option values (numbers, lists, strings, dictionaries), all likelihood names, any order of configuring and building",
  "Tests cover a few literal configurations.",
  ["appletree/config.py", "appletree/share.py"], ["Config._resolve_cached_config", "Config.get_default", "Constant.build", "ConstantSet.build", "SigmaMap.get_configs", "SigmaMap._update_sigma_cache", "set_global_config"])
p("C24", "The literature likelihood is the efficiency-weighted log density",
  "A literature likelihood equals the sum over simulated points of efficiency times the log density of the yield under the declared normal, two-half-normal (normalised, with separate widths above and below the mode) or band distribution, where the band's mode and widths are interpolated at the energy and points outside the band have density zero. A NaN sum is reported as minus infinity, exactly one component may be registered, and only the three distributions in two dimensions are accepted.",
  ["inputs", "configurations"], "all yields, energies, efficiencies and distribution parameters",
  "Tests evaluate one configuration; the density of points outside a band or on the low side is not asserted.",
  ["appletree/likelihood.py", "appletree/randgen.py"], ["LikelihoodLit.get_log_likelihood", "LikelihoodLit.register_component", "LikelihoodLit.__init__", "TwoHalfNorm.logpdf", "BandTwoHalfNorm.logpdf"])
p("C25", "The context manages exactly the parameters its likelihoods need",
  "Every parameter a likelihood copies gets the configuration of the parameter it is copied from, a source parameter that is not itself some component's rate is dropped after the copies are made, and all other configured parameters stay. A fit is refused when a parameter is configured that no likelihood needs, and the parameters needed by the context are the union of the copied ones and those needed by each registered likelihood.",
  ["inputs", "configurations"], "any set of likelihoods, components, parameter copies and configured parameters",
  "Tests use the bundled instruction files only.",
  ["appletree/context.py"], ["Context.update_parameter_config", "Context._sanity_check", "Context.register_component", "Context.register_likelihood"])
p("C26", "Post-fit parameters come from the chain and keep fixed parameters",
  "The maximum-posterior estimate is the chain sample with the highest log probability, the median estimate is the per-parameter median and the random estimate is some chain sample; each is returned under the fitted parameters' names in the sampler's order together with the current values of all parameters that are not fitted. Asking for anything else is an error, and neither the parameter store nor the chain is modified.",
  ["inputs", "histories"], "all chains, log probabilities, numbers of fitted and fixed parameters",
  "Tests run a short fit and only check that a dictionary is returned.",
  ["appletree/context.py"], ["Context.get_post_parameters"])
p("C27", "Weighted simulated data keeps observables, weights and region aligned",
  "Weighted simulated data contains exactly the simulated events strictly inside the outermost bin edges of every observable, in order, each observable and the weight of an event staying at the same position; weights are efficiencies times the component's normalisation factor. Data of several components are concatenated event-wise in component order, and repeated simulations are concatenated observable-wise in order, optionally keeping only events with positive efficiency.",
  ["inputs", "configurations"], "all simulated outputs, edges, numbers of components and repetitions",
  "Tests only check that data is returned.",
  ["appletree/component.py", "appletree/likelihood.py"], ["Component._clip", "ComponentSim.simulate_weighted_data", "ComponentFixed.simulate_weighted_data", "Component.multiple_simulations", "Likelihood.simulate_weighted_data"])
p("C28", "Names are never silently overwritten",
  "Registering a second likelihood or component under an existing name, caching a second likelihood's functions under an existing name, specifying a configuration option twice on a class, or adding an extension class or module whose name exists (unless forced) raises an error and leaves the first registration in place. Registering two simulation steps in one component that give different defaults to the same option is refused, and clearing the cache forgets all configurations, functions and records of used options.",
  ["inputs", "histories"], "all sequences of registrations with any names",
  "Tests try one collision of a few kinds.",
  ["appletree/share.py", "appletree/component.py", "appletree/likelihood.py", "appletree/context.py", "appletree/config.py", "appletree/utils.py"], ["StaticValueDict.__setitem__", "RecordingDict", "clear_cache", "takes_config", "ComponentSim.register", "Likelihood.register_component", "Context.register_likelihood", "add_extensions", "_add_extension", "check_unused_configs"])
p("C29", "Files are found in the documented order or refused",
  "A file name resolves to itself if it names an existing file, else to the configured base folder (only if that is an absolute path and contains the file), else to the file bundled with the package, else to the auxiliary package if installed, and otherwise raises an error; a later place is never used when an earlier one has the file. Data files are read according to their suffix and other suffixes are refused.",
  ["inputs", "configurations"], "all file names, base folders and combinations of which places hold the file",
  "Tests resolve one bundled file.",
  ["appletree/utils.py"], ["get_file_path", "_get_abspath", "load_data"])
p("C30", "Data selection and binning follow the declared region of interest",
  "The data used by a likelihood are exactly the rows strictly inside the declared region of interest in each declared observable, the data histogram has the declared bins (n equal bins over the region for an integer in meshgrid binning, the given edges for arrays; all clipped to the region for equal-probability bins), and component histograms use the same edges. Unsupported binning types or dimensions, mismatched numbers of edges and non-integer equal-probability bins are refused.",
  ["inputs", "configurations"], "all data, regions, binning types and edge specifications in one and two dimensions",
  "Tests build the bundled configurations only.",
  ["appletree/likelihood.py", "appletree/utils.py"], ["Likelihood.__init__", "Likelihood.set_binning", "Likelihood._resolve_bin_edges", "Likelihood._resolve_explicit_bins", "Likelihood._validate_irreg_bins_2d", "get_equiprob_bins_1d", "get_equiprob_bins_2d"])
p("C31", "A fit can be restored from its backend file",
  "Creating a context from a backend file written by a fit restores the instructions that were dumped, whatever JSON values they contain, together with the number of walkers and the batch size, and attaches the given file as backend even when it was renamed. A fit continued from its own backend file or from the fit of another context starts every walker at the last step of the chain that is continued and keeps the steps already stored in its backend file.",
  ["inputs", "configurations"], "all instructions expressible as JSON (including true, false and null), all file names",
  "Tests restore one instruction without booleans or nulls.",
  ["appletree/context.py"], ["Context.from_backend", "Context._dump_meta", "Context.continue_fitting"])
p("C32", "Every sampler has the declared distribution",
  "Given base draws of the random library with the distribution they are named after, the value of every sampler has the declared distribution: uniform between its limits, normal with the mean and standard deviation, truncate_normal a normal value moved to the nearer limit when outside, skewnormal with shape, location and scale, Bernoulli and binomial with the given probability and number of trials, Poisson with the given expectation, gamma with shape and rate, negative binomial as number of failures, generalized_poisson with expectation lam (total of a branching process with fraction eta), twohalfnorm with the upper side taken with probability sigma_pos / (sigma_pos + sigma_neg), and uniform_key_vectorized one unit uniform draw per key. binomial_hybrid is exactly binomial up to its threshold of trials (its approximation above it is not part of this property). Different elements of the result are drawn independently.",
  ["inputs"], "all admissible distribution parameters, scalars or arrays, and all shapes",
  "Tests draw a few samples for one or two parameter choices and look at their shape.",
  ["appletree/randgen.py"], ["uniform", "poisson", "gamma", "normal", "truncate_normal", "skewnormal", "bernoulli", "binomial", "binomial_hybrid", "negative_binomial", "generalized_poisson", "twohalfnorm", "TwoHalfNorm.rvs", "uniform_key_vectorized"])
p("C33", "Solved two-half-normal widths reproduce the quoted errors",
  "The two widths returned for a pair of positive errors are positive and put the one-sigma tail probability (15.87%) of the two-half-normal distribution beyond each of the two quoted errors (the first beyond the upper, the second beyond the lower). When the equations are not solved, an error is raised and no widths are returned.",
  ["inputs"], "all pairs of positive errors, given as any sequence",
  "Tests solve one pair of errors.",
  ["appletree/utils.py"], ["errors_to_two_half_norm_sigmas"])
p("C34", "The plotter analyses exactly the usable samples of a fit",
  "For a backend file and any discard and thinning, the plotter's chain, posterior and prior consist, in order and aligned with each other, of exactly the kept steps in which the log posterior of every walker is finite, and their flat versions of exactly the kept samples whose own log posterior is finite. The reported best-fit values are those of a usable sample with the highest log posterior, under the names of the fitted parameters in the order of the fit, and the prior configuration is the one stored by the fit. The backend file is only read.",
  ["inputs", "histories"], "all chains (any number of steps, walkers and parameters, any pattern of infinite and NaN posteriors), discard and thinning",
  "Tests draw the plots of one short fit.",
  ["appletree/plot.py"], ["Plotter.__init__"])
p("C35", "Map plots show the nodes and values of the map",
  "Plotting maps draws one figure per map file used by the workflow (three for a two-dimensional map with uncertainty). The nodes of a gridded axis are drawn where the interpolation has them, equally spaced from the lower to the upper limit (in log10 on a log axis), each in the middle of its bin. An axis that is collapsed over a range is replaced by the mean over exactly its nodes inside the range (over all nodes if no range is given or none lies inside), all other axes keep their nodes, names, limits and scales; names that are no axis are ignored and the caller's lists are not modified.",
  ["inputs", "configurations"], "all grids of two and three axes with any number of nodes, linear, logarithmic and mixed, all limits, all sets of collapsed axes and ranges; the files of one uncertainty map share their grid",
  "Tests plot a few shipped maps and look at the type of the result.",
  ["appletree/plot.py"], ["_regbin_edges_centers", "_collapse_regbin_map", "plot_maps"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
