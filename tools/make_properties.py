"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os

E = "simple_einet/einet.py"
L = "simple_einet/layers/"
D = L + "distributions/"
P = []


def prop(id, title, statement, over, quant, why, files, mech, observe, state=None):
    assert len(title) <= 80, title
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": quant},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": state or [],
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            "observe_at": observe,
            "hook_needed": None,
        },
    })


prop("P01", "Every model head is a normalised probability distribution",
     "For every valid Einet configuration and every parameter value, each output head exponentiated and summed (discrete features) or integrated (continuous features) over the whole data domain gives exactly one. In particular a completely missing input has log-likelihood zero for every head.",
     ["inputs", "configurations"],
     "every structure (top-down, bottom-up), layer type, depth, width, number of channels/classes/repetitions, leaf family and every real parameter tensor",
     "The tests only check output shapes on random inputs for a handful of configurations; no test sums a distribution, and the configuration and parameter spaces are unbounded.",
     [E, L + "linsum.py", L + "einsum.py", L + "sum.py", L + "mixing.py", L + "factorized_leaf.py", "simple_einet/abstract_layers.py"],
     [("softmax-projected sum weights", "simple_einet/abstract_layers.py:logits_to_log_weights"), ("region structure built top-down / bottom-up", E), ("leaf factorisation", L + "factorized_leaf.py")],
     ["Einet.forward"])

prop("P02", "Missing features are marginalised exactly",
     "Evaluating an Einet with some features missing (NaN entries, row by row and channel by channel, or features listed in marginalized_scopes, or both) returns exactly the log of the sum/integral of the complete-data likelihood over the missing values. The value stored at a feature listed in marginalized_scopes has no influence, and marking whole features by NaN or listing them as marginalised gives the same result.",
     ["inputs", "configurations"],
     "every model, every input, every subset of missing features, per row and channel, list or tensor of scopes, leaf families with one variable per leaf",
     "Tests check only that a marginalised call runs or that fully marginalised output is 0 for one leaf; the identity quantifies over all subsets, inputs and parameters.",
     [E, D + "abstract_leaf.py", L + "factorized_leaf.py", D + "multidistribution.py"],
     [("NaN replacement and marginalisation constant", D + "abstract_leaf.py:_marginalize_input"), ("marginalized_scopes plumbing", E)],
     ["Einet.forward"])

prop("P03", "Every input variable enters every evaluation exactly once",
     "In an Einet of any size, depth, structure and layer type, every input variable (feature and channel) contributes through exactly one leaf distribution to each induced tree: the sensitivities of the log-likelihood to the leaf log-densities of any one variable are non-negative and sum to exactly one, for every head and every input. Adding a constant to all leaf log-densities of one variable therefore shifts every head by exactly that constant.",
     ["inputs", "configurations", "programs"],
     "all configurations including large and odd feature counts, feature counts not divisible by 2^depth, user-defined leaf classes",
     "Tests use small power-of-two models and look at shapes; a dropped, duplicated or mispadded scope does not change a shape.",
     [E, L + "factorized_leaf.py", L + "linsum.py", L + "product.py"],
     [("random scope assignment", L + "factorized_leaf.py:FactorizedLeaf.__init__"), ("dummy-node padding", L + "factorized_leaf.py:FactorizedLeafSimple"), ("padding of odd feature counts", L + "linsum.py"), ("feature permutation", E)],
     ["Einet.forward", "custom AbstractLeaf"])

prop("P04", "Inner layers compute their weighted sums and products exactly and stably",
     "For every input of log-densities and all weights, linsum, linsum2, einsum, sum, mixing and product layers return the log of the mixture/product their definition prescribes, to floating-point accuracy. This holds for log-densities of any magnitude (very negative, very large, widely spread, zero-probability children), for odd feature counts where the layer pads, and adding a constant to all inputs of a region shifts the output by that constant.",
     ["inputs", "configurations"],
     "layer type, feature count, number of input/output sums, repetitions, batch size, logits and inputs of any magnitude",
     "Layer tests check the output shape, or one value at uniform weights, with inputs near zero.",
     [L + "linsum.py", L + "einsum.py", L + "sum.py", L + "mixing.py", L + "product.py", "simple_einet/abstract_layers.py"],
     [("log-einsum-exp trick", L + "einsum.py:forward"), ("logsumexp", L + "linsum.py:forward"), ("padding", L + "linsum.py")],
     ["layer.forward"])

prop("P05", "Unconditional and class-conditional samples follow the model density",
     "Samples drawn from an Einet without evidence are distributed according to the density its forward pass reports, jointly over all features and channels; with class_index given (one class, or a list with one class per sample) they follow that class's head, and without it the classes are equally likely. Every sample lies in the support the leaves define and has shape (num_samples, channels, features).",
     ["inputs", "configurations"],
     "every configuration, parameter value, class request, sample count and seed",
     "Tests check the shape of samples only; a sampler that follows a different tree or another component than the one evaluated produces the same shapes.",
     [E, L + "factorized_leaf.py", L + "linsum.py", L + "einsum.py", L + "sum.py", L + "mixing.py", L + "product.py", D + "abstract_leaf.py"],
     [("top-down index propagation", E + ":sample"), ("leaf index gathering", L + "factorized_leaf.py:_index_leaf_samples"), ("class sampling root", E)],
     ["Einet.sample", "Einet.forward"])

prop("P06", "Samples given evidence follow the conditional distribution",
     "Sampling with partial evidence (NaN entries, or marginalized_scopes) fills the missing entries with draws from the model's exact conditional distribution of the missing given the observed values, independently for every row with its own missing pattern. For a multi-class model this is the conditional of the uniform mixture of the classes.",
     ["inputs", "configurations"],
     "every configuration, evidence, missing pattern per row, seed",
     "Tests check that evidence sampling returns the right shape without NaN; the conditional distribution cannot be judged from that.",
     [E, "simple_einet/sampling_utils.py", L + "linsum.py", L + "einsum.py", L + "sum.py", L + "mixing.py"],
     [("input caches filled by an evidence pass", "simple_einet/sampling_utils.py:sampling_context"), ("posterior reweighting", "_condition_weights_on_evidence in each sum layer")],
     ["Einet.sample(evidence=...)", "Einet.forward"])

prop("P07", "Conditional queries keep the evidence and fill exactly what is missing",
     "Sampling or MPE with evidence returns a tensor of the evidence's shape in which every observed entry is bit-identical to the evidence, every missing entry is filled with an in-support finite value, and the caller's tensors are left unmodified. Evidence may be given as (N,F), (N,C,F) or image-shaped (N,C,H,W), in float32 or float64, with any missing pattern including none or everything missing. Listing features in marginalized_scopes asks the same as giving NaN for them, and mpe() the same as sample(is_mpe=True).",
     ["inputs", "configurations"],
     "every model, evidence layout, missing pattern, query flavour (sample, mpe, mpe_at_leaves, temperatures, differentiable, marginalized_scopes)",
     "The tests use one evidence layout and do not compare observed entries or the caller's tensor after the call.",
     [E, "simple_einet/sampling_utils.py"],
     [("evidence cloned and filled under a mask", E + ":sample")],
     ["Einet.sample", "Einet.mpe"])

prop("P08", "MPE follows the most probable branches and leaf modes",
     "The most probable explanation is deterministic (independent of seeds, of the batch and of repeated calls) and is obtained by taking, at every sum node, the most probable branch given the evidence (and class, if given), and the mode at every leaf. Hence, whenever the model's conditional distribution given the evidence is concentrated on one completion, MPE returns exactly that completion; without evidence it is the limit of sampling with temperatures going to zero.",
     ["inputs", "configurations"],
     "every configuration, evidence, class index and parameter value",
     "Tests only check the shape of the MPE result.",
     [E, D + "abstract_leaf.py", L + "linsum.py", L + "einsum.py", L + "sum.py", L + "mixing.py"],
     [("argmax instead of sampling", "_sample_from_weights in each sum layer"), ("leaf modes", D + "abstract_leaf.py:dist_mode")],
     ["Einet.mpe", "Einet.sample(is_mpe=True)"])

prop("P09", "Differentiable sampling agrees with ordinary sampling and carries gradients",
     "With is_differentiable=True, MPE returns the same values as the ordinary MPE, and sampling follows the same (conditional and class-conditional) distribution as ordinary sampling, for every configuration (differentiable binomial leaves draw from a documented Gaussian approximation clipped to the support). The result is connected to the parameters: backpropagation through it yields finite gradients, non-zero for the parameters of leaves that can be drawn and of sums whose choice matters.",
     ["inputs", "configurations"],
     "every configuration and leaf family with differentiable sampling, evidence or not, class index or not, repetitions or not",
     "Tests run differentiable sampling for shapes only and never compare it with the non-differentiable path.",
     [E, "simple_einet/sampling_utils.py", L + "factorized_leaf.py", L + "linsum.py", L + "einsum.py", L + "sum.py", L + "mixing.py"],
     [("one-hot indexing", "simple_einet/sampling_utils.py:index_one_hot"), ("SIMPLE straight-through sampling", "simple_einet/sampling_utils.py:SIMPLE")],
     ["Einet.sample(is_differentiable=True)", "Einet.mpe(is_differentiable=True)"])

prop("P10", "Seeds make sampling reproducible and temperatures rescale as documented",
     "Two sampling calls with the same arguments and seed return identical results regardless of the global random state, and a seeded call leaves the global random state exactly as it found it; different seeds and unseeded calls give fresh draws. A sum temperature T makes every sum node sample from its weights raised to 1/T and renormalised (given evidence, these are then reweighted by the likelihood of the evidence), a leaf temperature T scales the variance of normal leaves and the logits of categorical leaves, and temperature 1 changes nothing.",
     ["inputs", "histories", "configurations"],
     "every model, query, seed, temperature and prior random state",
     "No test passes a seed or a temperature other than by default.",
     ["simple_einet/sampling_utils.py", E, "simple_einet/abstract_layers.py", D + "abstract_leaf.py"],
     [("RNG state saved and restored", "simple_einet/sampling_utils.py:sampling_context"), ("temperature in the weight projection", "simple_einet/abstract_layers.py:logits_to_log_weights")],
     ["Einet.sample", "torch.get_rng_state"])

prop("P11", "Queries are pure: no history of calls changes later results",
     "After any sequence of likelihood, posterior, sampling, conditional sampling, MPE and differentiable queries, including calls that fail on invalid arguments, every further query returns what a freshly built model with the same parameters would return for the same random state. Parameters, buffers, the training/evaluation mode, the gradient mode the stored gradients, the global random state (for seeded calls) and the caller's arguments are never altered by a query.",
     ["histories", "fault_sequences"],
     "every sequence of valid and invalid calls on every model",
     "Tests make one call per fresh model; state left behind by an evidence query or by a failing call only shows in a later call.",
     ["simple_einet/sampling_utils.py", E, "simple_einet/abstract_layers.py"],
     [("input caches enabled/disabled by the sampling context", "simple_einet/sampling_utils.py:sampling_context")],
     ["Einet.forward", "Einet.sample", "state_dict"],
     [{"name": "_input_cache", "meaning": "lls of the last evidence pass", "where": "simple_einet/abstract_layers.py"}])

prop("P12", "The leaf cache returns exactly what was computed for its index",
     "A forward call with a cache_index returns what the first call with that index since the last reset_cache would return for its input, under the current weights of the sum layers, and calls with a new index, without an index, or after reset_cache are computed from their own input. The cache never changes any result otherwise: cached tensors are not altered by later evaluations, indices do not interfere, and sampling and conditional queries do not read it.",
     ["histories"],
     "every sequence of cached and uncached forwards, resets, sampling and evidence queries on every structure",
     "No test uses cache_index at all.",
     [E],
     [("_leaf_cache dictionary", E + ":forward")],
     ["Einet.forward(cache_index=...)", "Einet.reset_cache"],
     [{"name": "_leaf_cache", "meaning": "leaf lls per cache index", "where": E}])

prop("P13", "Class posteriors obey Bayes' rule",
     "For a model with several classes, posterior(x) is the log of a normalised distribution over classes proportional to the class likelihoods under a uniform class prior, for any number of classes and any input including missing values and inputs on which all likelihoods underflow, and its gradient is the derivative of that. The discriminative training wrapper's loss and accuracy are the negative mean log-posterior of the labels and the fraction of correctly predicted labels, and the generative wrapper's loss is the negative mean (or sum) log-likelihood.",
     ["inputs", "configurations"],
     "every multi-class model, input (also extreme ones), label vector, batch size",
     "One test compares the helper with a hand computation on one random tensor; the model method, missing values and extreme likelihoods are not exercised.",
     [E, "models_pl.py", "main.py"],
     [("log-space Bayes", E + ":posterior"), ("NLL of posterior", "models_pl.py:SpnDiscriminative")],
     ["Einet.posterior", "simple_einet.einet.posterior", "SpnDiscriminative", "SpnGenerative", "main.log_likelihoods"])

prop("P14", "Rows of a batch are evaluated independently and layouts are equivalent",
     "The log-likelihood, posterior and MPE completion of a data point do not depend on which other rows are in the batch or on their order, and batching, splitting or permuting rows commutes with evaluation. Inputs given as (N,F), (N,C,F) or (N,C,H,W), contiguous or not, integer or floating point, holding the same values give the same result, and the input tensor is never modified.",
     ["inputs", "configurations"],
     "every model (Einet, ConvPc, Mixture), batch size from one up, row order, input layout and dtype",
     "Tests evaluate one batch once per model.",
     [E, L + "factorized_leaf.py", "simple_einet/conv_pc.py", "simple_einet/mixture.py", D + "abstract_leaf.py"],
     [("shape normalisation", E + ":forward"), ("NaN handling on a copy", D + "abstract_leaf.py:forward")],
     ["forward", "posterior", "mpe"])

prop("P15", "Saving and restoring a state dict reproduces the model exactly",
     "Loading the state_dict of one model into another model built from the same configuration (with different random initialisation and random structure) makes both models agree on every likelihood, posterior, MPE and seeded sample. The same holds for deep copies and pickles, and nothing a model needs for inference other than its configuration lives outside the state dict.",
     ["configurations", "histories"],
     "every Einet, ConvPc and initialised Mixture configuration, with random scopes/permutations",
     "No test saves or loads a model; the random region structure makes this depend on every buffer being registered.",
     [E, L + "factorized_leaf.py", L + "einsum.py", "simple_einet/mixture.py", "simple_einet/conv_pc.py"],
     [("register_buffer for scopes and permutations", L + "factorized_leaf.py"), ("register_buffer for feature permutations", E), ("mixture weights and centroids buffers", "simple_einet/mixture.py")],
     ["state_dict", "load_state_dict", "forward", "sample"])

prop("P16", "Exactly the valid configurations are accepted, and every accepted one works",
     "Constructing an Einet raises an error if and only if the configuration is invalid: a count below its minimum (features 2; channels, classes, sums, leaves, repetitions 1; depth 0), a dropout outside [0,1), 2^depth exceeding the number of leaf regions, an unknown layer type or structure, a missing or non-leaf leaf type, or bottom-up with a layer type other than linsum. A ConvPc rejects invalid fields likewise, and leaves reject invalid arguments (empty or reversed parameter ranges, too few bins, a cardinality below one). Every accepted configuration yields a model whose likelihood, sample and MPE calls work and return the documented shapes.",
     ["configurations"],
     "all combinations of field values around and beyond each bound",
     "One test checks two invalid depths; bounds of zero and cross-field combinations are not covered.",
     [E, "simple_einet/type_checks.py"],
     [("field checks", E + ":EinetConfig.assert_valid"), ("bounds check", "simple_einet/type_checks.py:_check_bounds")],
     ["Einet.__init__", "EinetConfig.assert_valid", "check_valid"])

prop("P17", "check_valid accepts exactly the values of the type inside the half-open range",
     "check_valid returns the value converted to the expected type if and only if the value is an int/float, a numpy scalar or a torch tensor of that kind whose value lies in [lower_bound, upper_bound) with absent bounds meaning unbounded (a bound of zero is a bound; bounds are of the expected type), and raises otherwise. None is accepted and returned only when allow_none is set.",
     ["inputs"],
     "all values, types and bound pairs, zero and negative bounds included",
     "No test covers the validator; every layer and leaf relies on it.",
     ["simple_einet/type_checks.py"],
     [("type dispatch", "simple_einet/type_checks.py:_check_type"), ("bounds", "simple_einet/type_checks.py:_check_bounds")],
     ["check_valid"])

prop("P18", "Leaf log-densities equal those of the named distribution",
     "Every leaf layer (Normal, RatNormal, Bernoulli, Categorical, Binomial, MultivariateNormal) returns, for each feature, channel, component and repetition, the log-density of the distribution it names with the documented parameterisation: log-variance for Normal, standard deviation and mean constrained to the configured ranges for RatNormal, logits for the discrete ones, a lower-triangular scale for the multivariate normal over consecutive feature groups. Missing entries contribute zero and never produce NaN.",
     ["inputs", "configurations"],
     "every leaf, parameter value, number of features/channels/components/repetitions, in-support inputs and missing patterns",
     "Leaf tests look at shapes and a few marginalisation cases; values are compared against nothing.",
     [D + "normal.py", D + "bernoulli.py", D + "categorical.py", D + "binomial.py", D + "multivariate_normal.py", D + "abstract_leaf.py"],
     [("parameter projections", D), ("dist_forward broadcasting", D + "abstract_leaf.py")],
     ["leaf.forward"])

prop("P19", "Leaf samples and modes agree with the leaf density",
     "Sampling a leaf layer draws each component from the distribution its log-density describes (scaled by the leaf temperature where supported), the mode it reports maximises that log-density over the support, and component and repetition selection returns the value of the selected component and repetition. Samples and modes always lie in the support, also at extreme parameters.",
     ["inputs", "configurations"],
     "every leaf, parameter value (saturating ones included), selection of component and repetition per sample, temperature",
     "Tests check sample shapes only.",
     [D + "abstract_leaf.py", D + "normal.py", D + "binomial.py", D + "bernoulli.py", D + "categorical.py", D + "multivariate_normal.py"],
     [("dist_sample", D + "abstract_leaf.py"), ("dist_mode", D + "abstract_leaf.py")],
     ["leaf.sample"])

prop("P20", "A heterogeneous leaf layer treats each feature by its own distribution",
     "A MultiDistributionLayer evaluates, marginalises, samples and takes modes of each feature exactly as the distribution assigned to that feature would on its own, whatever the order in which the scopes list the features. Assignments that do not cover every feature exactly once are rejected.",
     ["inputs", "configurations"],
     "every partition of the features into scopes in any order, every mix of leaf families, channels, components, repetitions",
     "One test uses a fixed assignment; ordering mistakes cancel for sorted or self-inverse orders.",
     [D + "multidistribution.py"],
     [("inverse permutation of concatenated scopes", D + "multidistribution.py")],
     ["MultiDistributionLayer.forward", "MultiDistributionLayer.sample", "Einet with MultiDistributionLayer"])

prop("P21", "Returned leaf parameters belong to the leaves that generated the sample",
     "With return_leaf_params=True, sampling returns for every sample, channel and feature the parameters of a leaf component the model would select: the same distribution over components as plain sampling (conditioned on evidence or class, deterministic for MPE), with all features of a sample taken from one consistent induced tree.",
     ["inputs", "configurations"],
     "every top-down configuration whose leaf exposes parameters, differentiable or not, evidence or not",
     "Tests check the shape of the returned parameters only.",
     [L + "factorized_leaf.py", E, D + "multidistribution.py", D + "normal.py"],
     [("parameter gathering", L + "factorized_leaf.py:_index_leaf_params")],
     ["Einet.sample(return_leaf_params=True)"])

prop("P22", "Piecewise-linear leaves are normalised fits of their data and sample from it",
     "After initialisation on data, every piecewise-linear leaf density is non-negative, continuous piecewise linear with unit area (continuous) or proportional to the smoothed value counts over the domain (discrete), practically zero (at most exp(-300)) outside the support, its samples follow that density and stay in the domain, its mode is a maximiser, missing values marginalise, and the reported mixture weights are the cluster proportions of the data. An Einet with such leaves is a normalised distribution.",
     ["inputs", "configurations"],
     "data sets of any size and spread, discrete and continuous domains, smoothing strengths, channels, components, repetitions",
     "The only test of this leaf needs a package that is absent here and checks shapes.",
     [D + "piecewise_linear.py", "simple_einet/histogram.py", "simple_einet/dist.py"],
     [("histogram + trapezoid normalisation", D + "piecewise_linear.py:initialize"), ("inverse-CDF sampling", D + "piecewise_linear.py:sample")],
     ["PiecewiseLinear.initialize/forward/sample"])

prop("P23", "Histogram binning equals NumPy's automatic rule",
     "For every one-dimensional data set the torch re-implementation of automatic histogram binning yields the same number of bins and the same edges (to float32 accuracy) as numpy.histogram_bin_edges with bins='auto', including constant, tiny, heavily tied and skewed data and explicit ranges.",
     ["inputs"],
     "all finite data vectors and ranges",
     "No test touches the module.",
     ["simple_einet/histogram.py"],
     [("Freedman-Diaconis / Sturges", "simple_einet/histogram.py")],
     ["_get_bin_edges_torch"])

prop("P24", "Convolutional circuits are normalised and marginalise exactly",
     "For every valid ConvPc configuration and parameters, the exponentiated output sums to one over the image domain, missing pixels (NaN) are marginalised exactly, and every pixel and channel contributes exactly once.",
     ["inputs", "configurations"],
     "structure, order, kernel size, channel lists (first entry one included), image sizes divisible as required, parameter values, missing patterns",
     "No test instantiates ConvPc.",
     ["simple_einet/conv_pc.py"],
     [("sum and product convolutions", "simple_einet/conv_pc.py")],
     ["ConvPc.forward"])

prop("P25", "Convolutional circuits sample, condition and explain as their density says",
     "Samples of a ConvPc follow the distribution its forward pass reports, samples given evidence follow the exact conditional and keep observed pixels (binomial leaves sample from a documented clipped Gaussian approximation), MPE is deterministic and returns the dominating completion when there is one, and seeds reproduce samples and leave the global random state untouched.",
     ["inputs", "configurations"],
     "as for the density, plus evidence patterns and seeds",
     "No test instantiates ConvPc.",
     ["simple_einet/conv_pc.py"],
     [("one-hot top-down routing", "simple_einet/conv_pc.py:sample"), ("input caches", "simple_einet/conv_pc.py:sampling_context")],
     ["ConvPc.sample"])

prop("P26", "A mixture routes every row to its cluster's model and keeps row order",
     "For an initialised Mixture, likelihoods and conditional queries of a row are those of the component model whose centroid is nearest to the row (over the non-marginalised features), returned in the input's row order for every cluster assignment and batch; unconditional sampling draws components by the cluster proportions of the initialisation data, or exactly num_samples_per_cluster from each. Seeds and query flags reach the component models.",
     ["inputs", "configurations", "histories"],
     "every number of components, data set, batch composition (empty clusters, single rows), marginalised scopes, query flavour",
     "The mixture tests need a package that is absent here and check shapes.",
     ["simple_einet/mixture.py"],
     [("cluster separation and inverse ordering", "simple_einet/mixture.py")],
     ["Mixture.initialize/forward/sample/mpe"])

prop("P27", "Dropout is inert in evaluation and only removes mass in training",
     "In evaluation mode the dropout setting has no influence on any result. In training mode with dropout the log-likelihood is finite on every input (no region ever loses all its children), is a random draw controlled by the global seed, and with probability p each child is removed; without dropout, training and evaluation mode agree.",
     ["inputs", "configurations", "histories"],
     "every layer type and structure, dropout in [0,1), number of sums down to one, repetitions down to one, mode switches",
     "A test only checks that a forward with dropout runs.",
     [L + "linsum.py", L + "einsum.py", L + "sum.py", L + "mixing.py"],
     [("Bernoulli masks with resampling of fully dropped regions", L)],
     ["forward in train()/eval()"])

prop("P28", "Gradients of the log-likelihood are the true derivatives",
     "For every model and input, automatic differentiation of the log-likelihood with respect to every trainable parameter and to continuous inputs equals the numerical derivative, is finite, is zero for missing inputs, and does not vanish identically for any parameter that influences the density; a gradient step on the mean negative log-likelihood with a small enough rate never lowers the likelihood.",
     ["inputs", "configurations"],
     "all structures, layer types and leaf families, inputs with missing values, batch sizes",
     "No test computes a gradient of the likelihood.",
     [E, L + "einsum.py", L + "linsum.py", D + "normal.py", D + "abstract_leaf.py"],
     [("differentiable log-space operations", L)],
     ["Einet.forward + backward"])

prop("P29", "Image preprocessing maps pixel levels one-to-one onto model bins",
     "Preprocessing an image of k/255 levels with n bits gives exactly the bin floor(k / 2^(8-n)) as an integer for discrete leaves, so all 2^n bins and only those occur, and bin/2^n - 1/2 for Gaussian leaves, with dequantisation adding noise in [0, 2^-n) that keeps values of different bins apart; images outside [0,1] are rejected and the input is not modified. The leaf configuration derived for n bits supports exactly those values.",
     ["inputs", "configurations"],
     "all 256 levels, all bit depths 1 to 8, both leaf kinds, dequantisation on or off, image shapes",
     "No test covers preprocessing.",
     ["simple_einet/utils.py", "simple_einet/dist.py", "exp_utils.py"],
     [("reduce_bits", "simple_einet/utils.py"), ("get_distribution", "simple_einet/dist.py")],
     ["preprocess", "reduce_bits", "dequantize_image", "get_distribution"])

prop("P30", "Data-driven leaf initialisation reflects the data statistics",
     "init_einet_stats sets the normal leaves of an Einet or of every Mixture component close to the per-feature, per-channel mean and variance of the whole data for every batching (each feature to its own statistics, small noise aside), leaves every other parameter and other leaf families alone, produces finite parameters and makes the likelihood of the data finite.",
     ["inputs", "configurations"],
     "every data set and batching, feature/channel counts, components, repetitions",
     "No test calls it.",
     ["simple_einet/sampling_utils.py"],
     [("per-feature broadcasting", "simple_einet/sampling_utils.py:init_einet_stats")],
     ["init_einet_stats"])

prop("P31", "Data sets split, scale and iterate without loss or leakage",
     "The tabular, text and synthetic data sets are split into disjoint train/validation/test parts that together are the whole data, scaled by training statistics only, and have the shape and number of classes their metadata announces, identically on every call and in the same class proportions; image data sets keep the official test part and are split, resized and normalised likewise; the endless training sampler yields consecutive full permutations of the data determined by its seed.",
     ["inputs", "configurations", "histories"],
     "every offline-available data set, seed, size, prefix length, batch size",
     "No test touches the data module.",
     ["simple_einet/data.py", "exp_utils.py"],
     [("fixed-seed splits", "simple_einet/data.py:get_datasets"), ("seeded permutations", "simple_einet/data.py:TrainingSampler")],
     ["get_datasets", "get_data_shape", "get_data_num_classes", "TrainingSampler", "build_dataloader", "generate_data"])

prop("P32", "Differentiable categorical sampling yields exact one-hots with sound gradients",
     "Differentiable categorical sampling returns, for any tensor of logits or log-weights and any dimension, one-hot vectors along that dimension that follow the categorical distribution (the argmax for MPE) and whose straight-through gradient equals the gradient of the probabilities; indexing by one-hot vectors returns the indexed entries for every shape, dimension and broadcast. Soft Gumbel samples are distributions relaxed at the temperature asked for.",
     ["inputs"],
     "tensor ranks and dimensions, logits of any magnitude, both methods, hard and soft",
     "The utilities are only exercised through shape tests.",
     ["simple_einet/sampling_utils.py"],
     [("SIMPLE", "simple_einet/sampling_utils.py"), ("index_one_hot", "simple_einet/sampling_utils.py")],
     ["sample_categorical_differentiably", "SIMPLE", "index_one_hot"])

prop("P33", "Stand-alone layers route samples to children exactly as they weigh them",
     "For every sum layer (linsum, linsum2, einsum, sum, mixing), every parent choice and repetition per sample, sampling selects in each region a child (a pair of children for einsum) with exactly the probability of its normalised weight, scaled by the temperature and reweighted by the evidence seen in the last forward pass, independently over regions and samples; MPE selects the most probable child and differentiable sampling makes the same choice as one-hot vectors. Product and cross-product layers hand the parent's choice on to each of their factors, padding removed, and forward and sampling agree about which child is meant.",
     ["inputs", "configurations"],
     "every layer type, odd and even feature counts, widths and repetitions down to one, weights of any magnitude, evidence of any magnitude including impossible children, temperatures, all four sampling flavours",
     "The layer tests compare shapes and one-hot against index selection; no test compares a frequency with a weight.",
     [L + "linsum.py", L + "einsum.py", L + "sum.py", L + "mixing.py", L + "product.py"],
     [("sampling of layers", L)],
     ["layer(x)", "layer.sample(ctx)"])

prop("P34", "A built circuit has the size and random structure its configuration asks for",
     "The number of trainable parameters of an Einet is that of the documented structure for every configuration; the leaf regions of a repetition are 2^depth sets that partition the features with sizes differing by at most one, every repetition gets its own assignment, drawn uniformly and independently (bottom-up: uniformly random pairs are multiplied first). Building twice with the same seeds gives identical models, with different seeds different ones; initial parameters are finite and pairwise different, the initial likelihood of any input is finite, and the configuration object is not changed.",
     ["inputs", "configurations"],
     "all structures, layer types, leaf families, feature counts (powers of two or not), depths, widths, repetitions, classes, seeds",
     "Tests build a handful of sizes and never look at the regions or at more than one seed.",
     [E, L + "factorized_leaf.py"],
     [("random feature assignment", L + "factorized_leaf.py"), ("random permutations", E)],
     ["Einet(config)", "Einet.parameters"])

prop("P35", "Training and evaluation programs optimise and report the likelihoods they name",
     "Every training loop takes one optimiser step per batch on the mean negative log-likelihood of the preprocessed batch (classification: the mean negative log-posterior of the labels), with Adam at the configured rate, divided by ten at 70 % and 90 % of the epochs; evaluation reports the averages over the whole data set for every batching and leaves the model unchanged. The circuit built is the configured one (size, leaves, bit depth, structure, mixture), the scripts end with the trained parameters saved such that a reload evaluates the same, report the metrics of the trained model under their names, and keep observed pixels when reconstructing.",
     ["inputs", "configurations", "histories"],
     "data shapes, circuit sizes, structures, leaf families, bit depths, classes, batch sizes (last batch short or single), epochs, learning rates; Einet, ConvPc and Mixture",
     "No test imports main.py, main_pl.py or models_pl.py.",
     ["main.py", "main_pl.py", "models_pl.py", "args.py"],
     [("training loop and evaluation", "main.py"), ("Lightning wrappers", "models_pl.py"), ("orchestration", "main_pl.py")],
     ["main.train", "main.test", "main_pl.main", "make_einet", "make_convpc", "SpnGenerative", "SpnDiscriminative"])

prop("P36", "Runs keep their files apart and seeds determine the random streams",
     "Making directories for runs, results, data and files returns an existing directory at the documented place, never overwrites or removes anything that exists, and gives a new run a directory of its own when asked to; a failed or interrupted run is renamed with all its files, the error is reported and re-raised. Seeding fixes the streams of Python, NumPy and PyTorch (also without an explicit seed): equal seeds give equal, different seeds and different data-loader workers different streams. Non-finite losses and only those are reported; the temperature schedule, parameter counts, loss reports and worker-scaled solver settings are what their names say, without changing their arguments.",
     ["histories", "inputs"],
     "histories of directory operations with colliding names, timestamps and pre-existing files; seeds, pairs of seeds and sets of workers; any loss values; exceptions of any kind",
     "No test touches exp_utils.",
     ["exp_utils.py"],
     [("run directories", "exp_utils.py"), ("seeding", "exp_utils.py:seed_all_rng")],
     ["make_results_dir", "generate_run_base_dir", "seed_all_rng", "worker_init_reset_seed", "catch_exception", "detect_anomaly", "anneal_tau", "count_params", "auto_scale_workers"])

prop("P37", "Bits per dimension and the dependence coefficient are what they are named for",
     "calc_bpd is the mean over the batch of -log2 of the probability of the image on its grid of bins per pixel and channel, for discrete models and for densities of images scaled to unit range; the randomised dependence coefficient lies in [0, 1], is invariant to strictly increasing maps of either variable, near one for functional dependence and small for independence, determined by the random state, and changes no input; several repetitions give the median; invert_permutation inverts every permutation.",
     ["inputs"],
     "image shapes, bit depths, single and double precision; samples of different sizes and kinds of dependence with ties; permutations of any size",
     "No test calls these utilities.",
     ["simple_einet/utils.py"],
     [("calc_bpd", "simple_einet/utils.py"), ("rdc", "simple_einet/utils.py")],
     ["calc_bpd", "rdc", "invert_permutation"])

prop("P38", "Double precision keeps the model and the evidence",
     "A model converted to double precision computes the same density as in single precision up to single-precision rounding and is itself exact to double precision: discrete models sum to one, missing everything costs zero, marginals equal sums over the missing values and posteriors sum to one within 1e-9; converting back restores the parameters. Every query of a double model runs, returns values of the leaf's support, agrees with the single-precision model on the most probable completion, and returns observed double values bit for bit; the same holds for double evidence given to single-precision models. Evidence of integer, boolean or half type denotes the same values.",
     ["inputs", "configurations"],
     "all structures, layers, leaf families, classes and repetitions; Einet, convolutional circuits and mixtures; all query flavours",
     "All tests use single precision.",
     [E, "simple_einet/conv_pc.py", "simple_einet/mixture.py", D + "abstract_leaf.py", L + "sum.py"],
     [("type promotion of evidence", E), ("constants and buffers of the dtype of the model", L)],
     ["model.double()", "model(x)", "model.sample", "model.mpe", "model.posterior"])

prop("P39", "Mixed precision keeps the model",
     "Under bfloat16 autocast, the default precision of the training programs, every likelihood, posterior and gradient of a circuit is that of single precision up to the bfloat16 rounding of its log-densities and probabilities, and comes in single precision. Unconditional, class-conditional and differentiable draws and the most probable explanation are exactly those of single precision for the same seed; draws given evidence differ only where rounding moves a choice, are reproducible, keep observed values bit for bit and fill missing ones within the support. Later single-precision results are unaffected.",
     ["inputs", "configurations"],
     "all structures, layers, leaf families, classes and repetitions of Einet and ConvPc; all query flavours",
     "No test uses autocast although every training run does by default.",
     [E, "simple_einet/conv_pc.py", L + "einsum.py", L + "factorized_leaf.py"],
     [("einsum under autocast", L + "factorized_leaf.py"), ("einsum under autocast", L + "einsum.py"), ("precision: bf16-mixed", "conf/config.yaml")],
     ["model(x)", "model.sample", "model.mpe", "model.posterior"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
