"""Writes ../properties.jsonl (one property per line).  Run after editing the list below."""
import json, os

S = "src/lightcurvelynx/"
PROPS = []


def P(id, title, statement, over, text, why, files, mech):
    PROPS.append(
        dict(
            id=id,
            title=title,
            statement=statement,
            quantifier=dict(over=over, text=text),
            why_tests_cant=why,
            anchors=dict(files=[S + f for f in files], mechanism=[dict(name=n, where=S + w) for n, w in mech]),
        )
    )


P("P01", "GraphState is a faithful keyed store under any history of operations",
  "After any history of set, update, copy and extraction calls a GraphState holds for every (node, parameter) exactly the last accepted value (a scalar broadcast to all samples, an array kept sample by sample), its length is the number of distinct parameters stored, and membership, lookup by node / full name / short name and extract_parameters agree with those contents and raise KeyError for what is absent. A parameter once stored as fixed keeps its value through every later set or update. A rejected call (wrong number of samples, a '.' in a name) changes nothing, and a copy never changes when the original does.",
  ["histories", "inputs"],
  "every sequence of GraphState operations, every number of samples, every mix of fixed and free parameters, scalar and array values",
  "Tests call each operation once or twice on a fixed state; overwrites after fixing, partial failures in a sequence, single-node lookups and name clashes between nodes need arbitrary histories.",
  ["graph_state.py"],
  [("set / update / fixed_vars", "graph_state.py:GraphState.set,update"), ("lookup", "graph_state.py:GraphState.__contains__,__getitem__,extract_parameters"), ("copy", "graph_state.py:GraphState.copy")])

P("P02", "GraphState slicing, concatenation and export lose and mix nothing",
  "For every sample i, extract_single_sample(i), iteration and get_node_state yield exactly the i-th value of every parameter (ValueError for an index out of range), from_list concatenates states in order and rebuilds a state from its slices, and mismatched parameter sets are rejected with ValueError. to_dict/from_dict, to_table/from_table and save_to_file/from_file return a state with the same parameters, values and number of samples, for one sample as for many. Two states compare equal exactly when their number of samples, parameters, values and fixed sets agree.",
  ["histories", "inputs"],
  "every GraphState (any number of nodes, parameters and samples, numeric and text values, fixed or free) and every chain of slicing / concatenation / export / import steps",
  "Tests round-trip one or two hand-made states of one size; chains of conversions and the single-sample form of each conversion are not covered.",
  ["graph_state.py"],
  [("slicing", "graph_state.py:GraphState.extract_single_sample,_iterate,get_node_state"), ("concatenation", "graph_state.py:GraphState.from_list"), ("round trip", "graph_state.py:GraphState.to_table,from_table,to_dict,from_dict,save_to_file,from_file"), ("equality", "graph_state.py:GraphState.__eq__")])

P("P03", "Sampling a parameter graph yields a jointly consistent assignment",
  "For every graph of nodes and every sample drawn by sample_parameters, a parameter set from a constant has that value, a parameter linked to another node's parameter or to a function's output equals it in the same sample, and a function node's outputs are the function applied to that node's inputs of the same sample; every reachable node is evaluated exactly once per call, however many paths lead to it. Values in given_args override exactly the named parameters and everything downstream is computed from the overriding value. Every stored parameter has num_samples entries.",
  ["programs", "inputs"],
  "every acyclic graph of parameter nodes and function nodes, every number of samples, every set of overridden parameters",
  "Tests build a handful of small graphs; diamonds, chains through several functions with several outputs, and overrides in the middle of a chain are combinatorial.",
  ["base_models.py", "graph_state.py", "math_nodes/single_value_node.py"],
  [("recursive sampling with a seen set", "base_models.py:ParameterizedNode._sample_helper,sample_parameters"), ("function evaluation", "base_models.py:FunctionNode.compute,_build_inputs,_save_results"), ("overrides as fixed parameters", "base_models.py:ParameterizedNode.sample_parameters")])

P("P04", "Node names, parameter wiring and structure reports stay true under edits",
  "Under any history of add_parameter and set_parameter calls each parameter's source is the one set last, and an unknown name, a duplicate or colliding name, a self reference or a missing parameter is rejected with the documented exception and does not change what sampling yields. After positions are assigned, distinct unlabelled nodes have distinct names, a label is used verbatim, and two nodes that share a label in one graph are rejected rather than overwriting each other. build_dependency_graph reports exactly the reachable parameters with an edge for every link (and from each function input to each output), and build_pytree contains exactly the reachable parameters that allow gradients.",
  ["histories", "programs"],
  "every history of adding and re-setting parameters on every graph shape, every labelling of the nodes",
  "Tests check one edit or one graph at a time; re-wiring an already sampled graph and label clashes deep in a graph are not covered.",
  ["base_models.py", "graph_state.py"],
  [("set_parameter cases", "base_models.py:ParameterizedNode.set_parameter,add_parameter"), ("positions and names", "base_models.py:ParameterizedNode.set_graph_positions,_update_node_string"), ("duplicate labels", "base_models.py:ParameterizedNode._sample_helper"), ("dependency graph and pytree", "base_models.py:ParameterizedNode.build_dependency_graph,build_pytree")])

P("P05", "Randomness is reproducible and comes only from the given generator",
  "If a numpy Generator is given to sampling (sample_parameters, generate), evaluation (evaluate_sed, evaluate_bandfluxes) or simulate_lightcurves, every random node, sampler, model, effect and noise draw of the package uses that generator and nothing else: a generator of the same seed and history gives the same states, fluxes and light curves in this or another process, whatever the nodes' own seeds and earlier draws were, the nodes' own sequences are not advanced, and the global numpy random state is neither read nor changed. Without a given generator, nodes created with the same seeds produce the same sequence of draws again, set_seed restarts a node's own sequence, successive calls continue it instead of repeating it, every draw has one value per sample (a scalar for a single one), nodes without a seed differ from each other, and numpy's global state is still left alone (bilby priors, pzflow without a generator, user functions and opsim_add_random_data, which have generators of their own, are not covered).",
  ["histories", "inputs"],
  "every model graph, every seed, every sequence of sampling and evaluation calls, every interference with numpy's global generator between the calls",
  "Tests compare two runs of one node at one seed; that no component anywhere in a graph, effect list or survey falls back to a private or global generator needs all combinations.",
  ["base_models.py", "math_nodes/np_random.py", "math_nodes/scipy_random.py", "math_nodes/given_sampler.py", "math_nodes/ra_dec_sampler.py", "effects/white_noise.py", "simulate.py", "astro_utils/noise_model.py", "models/snia_host.py", "astro_utils/agn_utils.py"],
  [("rng_info threading", "base_models.py:ParameterizedNode._sample_helper"), ("seeded nodes", "math_nodes/np_random.py:NumpyRandomFunc"), ("noise", "astro_utils/noise_model.py:apply_noise"), ("simulation", "simulate.py:simulate_lightcurves")])

P("P06", "Given-value and table samplers deliver rows in order, aligned and bounded",
  "Over any history of draws an in-order sampler (GivenValueList, in-order TableSampler) delivers its values consecutively, exactly once each, continuing where the previous draw stopped and starting over only on reset, and raises an error instead of wrapping when more values are requested than remain. A random sampler only ever returns given values (never one of zero weight), a table sampler returns all columns of one draw from the same row, GivenValueSelector returns the value at the chosen index and rejects indices outside the list, a BinarySampler returns only 0/1 with the endpoints 0 and 1 deterministic, and a DistributionSampler never leaves the support of its tabulated density. The pointings of the random survey tables are valid directions spread uniformly over the sphere.",
  ["histories", "inputs"],
  "every value list or table, every sequence of draw sizes and resets, every weight vector",
  "Tests draw a fixed number of times from one list; cursor state across histories and the row alignment of each draw need arbitrary sequences.",
  ["math_nodes/given_sampler.py", "math_nodes/distribution_sampler.py", "obstable/opsim.py", "obstable/ztf_obstable.py"],
  [("cursor", "math_nodes/given_sampler.py:GivenValueList,TableSampler"), ("weights", "math_nodes/given_sampler.py:GivenValueSampler"), ("selector", "math_nodes/given_sampler.py:GivenValueSelector"), ("binary", "math_nodes/given_sampler.py:BinarySampler")])

P("P07", "range_search returns exactly the observations in view and in the time window",
  "For every survey table and every query position, range_search and is_observed return exactly the rows whose pointing centre lies within the search radius of the query (the table's own radius unless one is given, any position on the sphere including poles and RA wrap), whose time lies in the inclusive window if bounds are given (scalars or one per query), and whose rotated detector footprint contains the query if a footprint is set. Array queries give query by query the answer of the scalar query, indices always refer to rows of the current (possibly filtered) table, a footprint may be given in any projection or as a region on the sky, positions relative to a rotated detector (rotate_to_center) are at most 180 degrees to either side and in the right place, and a coverage map built from the table contains every position within the radius of a pointing and none much farther away.",
  ["inputs", "histories"],
  "every table of pointings, every scalar or array query, radius, time window, footprint and every preceding filter_rows",
  "Tests query a dozen fixed points; boundary times, rows after filtering, mixed scalar/array bounds and rotated footprints are combinatorial.",
  ["obstable/obs_table.py", "astro_utils/detector_footprint.py"],
  [("KD-tree search", "obstable/obs_table.py:ObsTable.range_search,is_observed"), ("index maintenance", "obstable/obs_table.py:ObsTable._build_spatial_data,filter_rows"), ("footprint", "astro_utils/detector_footprint.py:DetectorFootprint.contains")])

P("P08", "An observation table stays consistent through every edit and round trip",
  "Under any history of filter_rows, add_column, lookups and get_observations, an ObsTable has exactly the rows that every filter kept, in their original order with all columns row-aligned, a rejected call changes nothing, and its length, filters, time bounds, column lookups (standard or mapped names) and get_observations all describe those rows. Writing to a database or a parquet file and reading it back preserves the rows and column values (and, for parquet, the survey values).",
  ["histories", "inputs"],
  "every table, column map, mask or index list, and every sequence of edits and lookups",
  "Tests apply one filter to one table; state kept beside the table (spatial index, filter list, survey values) can only go stale in a sequence.",
  ["obstable/obs_table.py"],
  [("filter_rows", "obstable/obs_table.py:ObsTable.filter_rows"), ("column map", "obstable/obs_table.py:ObsTable.__getitem__,get_value_per_row,add_column"), ("persistence", "obstable/obs_table.py:ObsTable.write_db,from_db")])

P("P09", "Simulated light curves contain exactly the qualifying observations",
  "For every simulation each requested sample gives one output row, in sample order, with its own id, ra, dec, redshift, t0 and requested parameters, and nested rows that are exactly the survey rows that see the object's position, fall in the requested time window around the object's t0 and (with apply_obs_mask) lie in the model's own time range, for each survey in order. Every nested row carries the time, filter, survey index and requested observation columns of its own survey row (null if that survey lacks the column), nobs is their number, objects without any observation are kept without a light curve, and a qualifying observation in a filter that the survey's passband group lacks is an error rather than dropped.",
  ["inputs", "configurations"],
  "every set of objects, surveys, passband groups, time windows and saved columns",
  "Tests simulate a few objects on one or two tables and check totals; row-level identity across surveys, windows and filters needs arbitrary layouts.",
  ["simulate.py", "obstable/obs_table.py"],
  [("per-object assembly", "simulate.py:simulate_lightcurves"), ("time window", "simulate.py:get_time_windows"), ("visibility", "obstable/obs_table.py:ObsTable.range_search")])

P("P10", "Simulated fluxes are those of the saved parameters at the observed times",
  "In every simulation the noise-free flux of each row equals the model's band flux for that row's time and filter under exactly the parameters saved for that object, whichever survey the row comes from, and the result is the same when the saved state is evaluated again. flux is that value plus noise drawn with the fluxerr reported on the same row, so flux equals flux_perfect wherever fluxerr is zero, and fluxerr is the survey's noise for that observation and that flux.",
  ["inputs", "configurations"],
  "every model, number of samples, combination of surveys and survey noise",
  "Tests check sizes or one constant model; alignment of fluxes, filters and noise across rows, samples and surveys needs asymmetric scenarios.",
  ["simulate.py", "models/physical_model.py", "astro_utils/noise_model.py", "obstable/obs_table.py"],
  [("flux evaluation", "simulate.py:simulate_lightcurves"), ("noise", "astro_utils/noise_model.py:apply_noise"), ("error model", "obstable/fake_obs_table.py:FakeObsTable.bandflux_error_point_source")])

P("P11", "Each observation's noise follows its own row's conditions",
  "For every observation table the band flux error of row i is the documented noise model evaluated with row i's own conditions (exposure time, sky, seeing or footprint, zero point, read noise, dark current; per-filter values looked up by the row's filter) and the flux of that observation. Given or derived columns take precedence over survey defaults as documented, the result does not depend on the order of rows or on which other rows are asked for, errors are finite and non-negative and grow with flux, sky and read noise, and zero points convert so that brighter magnitudes mean larger fluxes.",
  ["inputs", "configurations"],
  "every table, filter set, survey value and per-filter setting, every subset and order of rows",
  "Tests evaluate a few rows of one configuration; mixed filters and permuted subsets of rows are needed to expose misalignment.",
  ["astro_utils/noise_model.py", "obstable/fake_obs_table.py", "obstable/opsim.py", "obstable/ztf_obstable.py", "obstable/obs_table.py", "obstable/roman_obstable.py", "astro_utils/zeropoint.py"],
  [("poisson error", "astro_utils/noise_model.py:poisson_bandflux_std"), ("per filter values", "obstable/obs_table.py:ObsTable.get_value_per_row"), ("zero points", "obstable/fake_obs_table.py, obstable/opsim.py, obstable/ztf_obstable.py")])

P("P12", "Passbands integrate correctly and groups agree with their members",
  "A passband's normalized response always integrates to one, so a flat spectrum gives its own value in every filter, and band flux is linear and monotone in the spectrum. A PassbandGroup returns for each filter, under any history of building, adding, subsetting and re-gridding, exactly what that passband returns alone on its own wavelengths, its wavelength grid is the sorted union of its members' grids (up to the merge threshold), and filters are found by full name or unambiguous filter name, with unknown or ambiguous names rejected.",
  ["inputs", "histories"],
  "every set of transmission tables, overlapping or not, every grid setting and every order of group construction",
  "Tests use a few smooth tables; index maps between member grids and the group grid depend on how grids interleave.",
  ["astro_utils/passbands.py"],
  [("processing", "astro_utils/passbands.py:Passband.process_transmission_table"), ("group index map", "astro_utils/passbands.py:PassbandGroup._update_internal_data"), ("lookup", "astro_utils/passbands.py:PassbandGroup.__getitem__"), ("integration", "astro_utils/passbands.py:Passband.fluxes_to_bandflux")])

P("P13", "The SED pipeline applies redshift, effects and extrapolation in order",
  "evaluate_sed returns for each sample, time and wavelength the rest-frame model at ((t - t0)/(1+z) + t0, wavelength/(1+z)) after the rest-frame effects in the order added, converted to the observer frame by the factor (1+z) of flux densities per frequency, then the observer-frame effects in order; without a redshift, or with apply_redshift off, no conversion takes place. Outside the model's wavelength range the configured extrapolation or zero padding is used and inside it never. Evaluating many samples at once equals evaluating each alone, and the result for a time or wavelength does not depend on the others requested.",
  ["inputs", "configurations"],
  "every model, redshift, t0, list of effects, time and wavelength arrays in any order, every number of samples",
  "Tests check one effect or one redshift at a time; order of composition and interaction with extrapolation need combinations.",
  ["models/physical_model.py", "astro_utils/redshift.py", "utils/wave_extrapolate.py", "effects/effect_model.py", "models/periodic_model.py", "models/periodic_variable_star.py", "models/basic_models.py", "models/galaxy_models.py", "models/static_sed_model.py", "models/spline_model.py", "models/redback_models.py"],
  [("pipeline", "models/physical_model.py:SEDModel._evaluate_single"), ("extrapolation", "models/physical_model.py:SEDModel.compute_sed_with_extrapolation"), ("redshift", "astro_utils/redshift.py")])

P("P14", "Band fluxes stay aligned with their times and filters",
  "evaluate_bandfluxes returns for each (time, filter) pair, in the order given, the integral through that filter of the model's SED at that time (or the band-flux model's value), for every sample. Permuting, repeating or splitting the list of observations permutes, repeats or splits the result in the same way, and a filter that is not in the group is rejected (a band-flux model rejects a filter that it has no value for), as are filters that do not match the times in number or are missing for a group. A single passband without filters stands for that filter at every time, and evaluating without a state samples one first.",
  ["inputs", "configurations"],
  "every list of (time, filter) pairs, sorted or not, every passband group and every number of samples",
  "Tests use sorted times and blocks of equal filters; misalignment appears only with interleaved unsorted observations.",
  ["models/physical_model.py", "astro_utils/passbands.py", "models/static_sed_model.py", "models/basic_models.py"],
  [("per filter masks", "models/physical_model.py:SEDModel._evaluate_bandfluxes_single"), ("group integration", "astro_utils/passbands.py:PassbandGroup.fluxes_to_bandflux")])

P("P15", "Composite models are exactly the sum, or the selected one, of their parts",
  "An additive model's flux and band flux equal the weighted sum of its objects' own fluxes under the same sampled parameters, with rest-frame effects applied to each object and observer-frame effects once to the sum. A random multi-object model evaluates, per sample, exactly the object named by its selected_object parameter and no other, never selects an object of weight zero, and settings such as apply_redshift reach every object. The wavelength range that a random model states is the selected object's, that of an additive model the list of its objects'. The dependency graph of a composite holds its own parameters and those of every object.",
  ["inputs", "configurations"],
  "every list of SED and band-flux objects, weights, effects, redshifts and numbers of samples",
  "Tests use two constant sources; combinations of differing redshift, effects, weights and model kinds are not covered.",
  ["models/multi_object_model.py"],
  [("additive", "models/multi_object_model.py:AdditiveMultiObjectModel"), ("random", "models/multi_object_model.py:RandomMultiObjectModel")])

P("P16", "Light curve templates reproduce their curves at the right phase and filter",
  "A light curve template model returns in each filter the linear interpolation of that filter's curve at phase t - t0 (relative to the template's own reference time), the baseline value outside the curve's range (zero if none), and for a periodic template the curve at the phase modulo its period; the SED it reports integrates to that value in each filter. Magnitudes become fluxes by the AB zero point, a model with several templates evaluates exactly the one chosen for the sample, the filters' order and the caller's input arrays are never changed, and a filter without a curve is rejected or zero as documented.",
  ["inputs", "configurations"],
  "every set of curves, baselines, periods, t0 values, filters and unsorted query times",
  "Tests query the knots of one or two curves; phase wrapping, filters with different ranges and multi-template selection need combinations.",
  ["models/lightcurve_template_model.py"],
  [("interpolation", "models/lightcurve_template_model.py:LightcurveData, BaseLightcurveBandTemplateModel"), ("SED basis", "models/lightcurve_template_model.py:_create_sed_basis"), ("multi", "models/lightcurve_template_model.py:MultiLightcurveTemplateModel")])

P("P17", "Post-processing columns follow their definitions for every row",
  "results_augment_lightcurves adds for every observation of every object snr = flux/fluxerr, the AB magnitude and its error (all three missing where flux or fluxerr is not positive), detection exactly when a present snr reaches the threshold, and (when every object has a t0) time relative to that object's own t0; it changes no other column, value or row order. results_drop_empty keeps exactly the objects with at least one observation, unchanged and in order.",
  ["inputs", "histories"],
  "every result frame including objects without observations, zero or negative fluxes, zero errors, masked or missing values, after dropping or re-ordering rows",
  "Tests use one small frame with a regular index; misalignment shows only with empty objects and filtered indices.",
  ["utils/post_process_results.py"],
  [("augment", "utils/post_process_results.py:results_augment_lightcurves"), ("drop", "utils/post_process_results.py:results_drop_empty")])

P("P18", "BasicMathNode evaluates exactly the expression and only safe expressions",
  "A BasicMathNode's value is the given arithmetic expression evaluated sample by sample on its inputs with normal precedence, the same for every backend (math for single samples, numpy and jax for any number). Any expression with other syntax, attribute access, calls outside the listed math functions, or names that are not inputs is rejected with an error when the node is created, before anything is evaluated.",
  ["programs", "inputs"],
  "every expression tree over the supported operators and functions, every unsupported construct at every position in a tree",
  "Tests evaluate a dozen expressions; nested unsupported constructs and precedence need enumeration of trees.",
  ["math_nodes/basic_math_node.py"],
  [("AST whitelist", "math_nodes/basic_math_node.py:BasicMathNode._prepare,_validate")])

P("P19", "Sampled sky positions lie in their coverage and stay row-aligned",
  "UniformRADEC returns positions on the sphere, ObsTableRADECSampler returns ra, dec (and time) of one and the same table row, displaced by no more than the requested radius, only from rows present in the table, and ObsTableUniformRADECSampler and ApproximateMOCSampler return only positions inside the survey's or (at its depth) the MOC's coverage, evenly over the covered area. dec lies in [-90, 90] and ra in [0, 360] (displaced table rows may carry an ra beyond it), and every draw returns exactly the requested number of samples (scalars for one).",
  ["inputs", "histories"],
  "every survey footprint including poles and RA wrap, every radius, seed, sample count and filtered table",
  "Tests draw from one or two well-behaved tables; edge positions and filtered tables need variety.",
  ["math_nodes/ra_dec_sampler.py"],
  [("samplers", "math_nodes/ra_dec_sampler.py")])

P("P20", "Each effect is applied with its own parameters to its own frame and band",
  "An effect added to a model contributes its parameters to the model's sampled state once, is evaluated with the values of the same sample, and applies only in its declared frame: extinction scales each wavelength of an SED by the factor for that wavelength, constant dimming every flux by a common fraction, microlensing by its magnification at each time, and white noise adds draws of its own sigma. Effects neither modify the arrays they are given nor change the order or shape of fluxes, effects with parameters of their own stay separate, and an effect parameter whose name the model already has takes the model's value.",
  ["configurations", "inputs"],
  "every combination and order of effects on SED and band-flux models, every parameter value including sampled ones",
  "Tests apply one effect with constant parameters; combinations with sampled parameters and several frames are not covered.",
  ["effects/effect_model.py", "effects/basic_effects.py", "effects/white_noise.py", "effects/extinction.py", "effects/microlensing.py", "models/physical_model.py"],
  [("parameter wiring", "models/physical_model.py:BasePhysicalModel.add_effect"), ("effects", "effects/")])

P("P21", "Data files are read back faithfully, whole, and only what belongs together",
  "Reading a data file yields exactly the numbers written in it. A light curve library (SNANA LCLIB text, plain or gzipped) yields one table per completed event, in order, with that event's own id, rows (type, time, one value per filter, in the file's units), the metadata of the file header overridden by its own lines, and its own parameters by name; documentation blocks, comments and an unfinished last event contribute nothing, and malformed events (wrong number of values or parameters, mismatched END_EVENT, no FILTERS) raise ValueError. A grid file yields the sorted coordinates and the matrix of values, and raises ValueError if it is incomplete, or out of order when validation is asked for; arrays written by write_numpy_data are read back unchanged; a transmission table is returned in Angstrom whatever its unit or format, with duplicate wavelengths averaged, and a directory of tables (or a preset stored on disk, such as the several bands in Roman's effective area file) yields a passband per file or per wanted filter. A file that is present is not downloaded again unless forced; a forced download replaces it, a failed one leaves it.",
  ["inputs", "histories"],
  "every sequence of lines of a library file including every truncation, every grid / table content, unit, text or binary format, and every history of writes, removals, downloads and reads in a directory",
  "Tests read one well-formed file of each kind once; line order, missing per-event entries, truncation, other formats and units, and repeated or forced downloads are not covered.",
  ["utils/io_utils.py", "utils/data_download.py", "astro_utils/passbands.py", "models/static_sed_model.py", "models/spline_model.py"],
  [("LCLIB state machine", "utils/io_utils.py:_read_lclib_data_from_open_file"), ("grids and arrays", "utils/io_utils.py:read_grid_data,read_numpy_data,write_numpy_data"), ("transmission tables", "astro_utils/passbands.py:Passband.load_transmission_table,from_file,PassbandGroup.from_dir"), ("downloads", "utils/data_download.py:download_data_file_if_needed")])

P("P22", "Astrophysical relations hold sample by sample in the declared units",
  "For every sample of a population the derived parameters follow from that sample's own inputs, also after an input is changed: luminosity distance (parsec) and distance modulus belong to the redshift in the given cosmology (every model given a redshift and a cosmology, and no distance, has that distance), X0FromDistMod is the Tripp relation 10^(-0.4 (mu - alpha x1 + beta c + M - 10.635)), SNCoordGivenPhysicalSep places the supernova at the angle sep / d_A from its host in a direction uniform on the circle, HostmassX1Func draws from the standard normal for host masses of 10 and more and from the normal damped by exp(-x1^2) below zero otherwise, and the AGN parameters are the published functions of the black hole mass and the Eddington ratio. The flux of an AGN is, for given random numbers, the same function of its parameters and the rest frame phase and wavelength in every evaluation. Magnitudes and nJy are inverse to each other with zero point 31.4, f_lambda and f_nu are converted with the stated units, row by row, and mismatched shapes rejected with ValueError, black body and accretion disk fluxes obey their scaling laws, and the numbers of SNe Ia per redshift bin are the integral of the rate over the comoving volume of the bin, for the given solid angle.",
  ["inputs", "histories"],
  "every redshift, cosmology (flat, any H0 and Omega_m), sample count, constant or sampled input, unit and shape, and every order of adding relations, changing inputs and sampling",
  "Tests compare a few values of each function with stored results; the wiring per sample, branches within one batch, other units, shapes and cosmologies, and changes of inputs after construction are not covered.",
  ["astro_utils/snia_utils.py", "astro_utils/redshift.py", "astro_utils/mag_flux.py", "astro_utils/unit_utils.py", "astro_utils/black_body.py", "astro_utils/obs_utils.py", "models/agn.py", "models/physical_model.py", "astro_utils/agn_utils.py", "models/snia_host.py", "models/periodic_variable_star.py"],
  [("supernovae", "astro_utils/snia_utils.py:X0FromDistMod,HostmassX1Func,DistModFromRedshift,SNCoordGivenPhysicalSep,num_snia_per_redshift_bin"), ("distances", "astro_utils/redshift.py:RedshiftDistFunc"), ("units", "astro_utils/unit_utils.py:flam_to_fnu,fnu_to_flam"), ("AGN", "models/agn.py:AGN")])

P("P23", "Gridded spectra are interpolated as defined and zero outside their grid",
  "A BicubicInterpolator passes through its grid, is linear in both coordinates in the outermost cells, is the Catmull-Rom bicubic in the inner ones and is zero outside the grid, for regular and irregular axes, for every order and number of queries, and whether given as arrays or as a file (times the scale factor); axes with fewer than three or non-increasing values, and values of another shape, are rejected with ValueError. SALT2JaxModel is x0 (M0 + x1 M1) 10^(-0.4 c CL(w)) of two such surfaces (in 1e-12 erg/s/cm2/A) converted to nJy, with the phase counted from t0 and the redshift applied, separately for every sample; its colour law is the polynomial of the file within the wavelength bounds, extended linearly beyond, zero in B and minus one in V, and other versions are rejected; BayesnModel is the amplitude times its template times 10^(-0.4 (W0 + theta W1)) times the F99 extinction with its own Rv and E(B-V) = Av/Rv, both surfaces being natural cubic splines through their knots (for templates that are a sum of a function of phase and one of wavelength). The times of interest of both are those strictly within 20 rest-frame days before and 50 after t0. SplineModel passes through its grid for every degree, reproduces bilinear data between its points, scales with the amplitude and is zero outside its wavelengths; StaticSEDModel is the linear interpolation of the selected spectrum at every time and zero outside it, and states that spectrum's wavelength range, also when made from a synphot spectrum (in photons, at rest). A wrapped sncosmo time series is its amplitude times the series at the phase, converted to nJy, keeps the last spectrum afterwards and the first one before unless it is dark there, is zero outside its wavelengths, and its times of interest are those strictly within its phases.",
  ["inputs"],
  "every grid (size, spacing, values), query position (grid point, inside a cell, on the boundary, outside), parameter values and sample counts, colour law coefficients and bounds, t0 and redshift",
  "Tests compare one reference light curve and a few interpolated points with stored results; irregular axes, boundaries of cells, unsorted queries, several samples, other colour laws and redshifts are not covered.",
  ["utils/bicubic_interp.py", "astro_utils/salt2_color_law.py", "models/salt2_jax.py", "models/spline_model.py", "models/static_sed_model.py", "models/bayesn.py", "models/sncomso_models.py"],
  [("interpolation", "utils/bicubic_interp.py:BicubicInterpolator.__call__,BicubicAxis.find_indices"), ("SALT2", "models/salt2_jax.py:SALT2JaxModel.compute_sed,mask_by_time"), ("colour law", "astro_utils/salt2_color_law.py:SALT2ColorLaw"), ("BayesN", "models/bayesn.py:BayesnModel.compute_sed,evaluate_2d_cubic_spline,mask_by_time"), ("spline", "models/spline_model.py:SplineModel.compute_sed"), ("spectrum", "models/static_sed_model.py:StaticSEDModel.compute_sed,from_synphot"), ("series", "models/sncomso_models.py:SncosmoWrapperModel.compute_sed,mask_by_time,set")])

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
