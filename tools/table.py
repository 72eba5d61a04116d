"""The property table: source of properties.jsonl and MANIFEST.json (run tools/gen.py)."""

P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe, note, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                  mech=mech, observe=observe, note=note, state=state or []))


B = "ssspy/bss/"
NONE_RUN = ("The offline test suite constructs the separation methods and checks their text representation, but runs "
            "no iteration of any of them; ")

prop("C01", "Majorization-minimization and EM methods never increase their objective",
     "Each iteration of an auxiliary-function, iterative-projection, multiplicative (MM), ME or EM separation method "
     "leaves the objective the method records no larger than before, up to rounding. This holds for every spatial "
     "algorithm (IP1, IP2, ISS1, ISS2, IPA, block coordinate descent), every pair selection order, source model, domain, "
     "partitioning and normalization option (except where the documentation says that a normalization changes the objective: GaussMNMF with partitioning).",
     ["inputs", "configurations"],
     "all well-posed mixtures (more frames than free parameters), all methods with a descent guarantee x all their options, all iterations",
     NONE_RUN + "descent must hold at every iteration from every reached state, for every option combination.",
     [B + "iva.py", B + "fdica.py", B + "ilrma.py", B + "ipsdta.py", B + "mnmf.py", B + "cacgmm.py", B + "_update_spatial_model.py"],
     [("closed-form coordinate updates of the demixing filter", B + "_update_spatial_model.py"),
      ("multiplicative updates of the source model", B + "ilrma.py, mnmf.py, ipsdta.py"),
      ("recorded objective", "compute_loss of each class")],
     ["loss record after a call"],
     "exhaustive over the option product and input letters within the bounds; says nothing about inputs outside the alphabet or about longer runs")

prop("C02", "The recorded loss is the documented objective of the current parameters",
     "Each value a method records or computes as its loss equals the objective given in its documentation, evaluated at the "
     "parameters it holds at that moment: the contrast or negative log-likelihood of the separated signals averaged over frames and "
     "summed over sources and frequencies, minus the log-determinant terms. This holds for every method and every option "
     "(domain, degrees of freedom, shape parameter, partitioning, number of penalties, output-only updates).",
     ["inputs", "configurations", "histories"],
     "all methods x options, all states reached from all starts within the bound",
     NONE_RUN + "a wrong weight or axis in the objective is invisible to a constructor test.",
     [B + "iva.py", B + "fdica.py", B + "ica.py", B + "ilrma.py", B + "ipsdta.py", B + "mnmf.py", B + "cacgmm.py", B + "proxbss.py"],
     [("loss computation", "compute_loss in each class")],
     ["loss record", "demixing filter / source-model parameters seen by a callback"],
     "scalar-loop reference objective re-evaluated in every explored state of every configuration")

prop("C03", "Iteration protocol: updates, losses and callbacks happen exactly as announced",
     "A call with n iterations performs exactly n updates; before the first one (only when the initial call is requested) and after "
     "each one it records one loss (if recording) and then calls every callback once in the given order, so that a callback "
     "sees the parameters after exactly that many updates and the loss belonging to them. Recording the loss or observing through callbacks "
     "never changes the trajectory or the result.",
     ["histories", "configurations"],
     "all methods x options, all iteration counts, all observer arrangements",
     NONE_RUN + "counts, order and non-interference must hold for every history of calls.",
     [B + "base.py", B + "pdsbss.py", B + "admmbss.py", B + "iva.py", B + "ilrma.py"],
     [("iteration loop", B + "base.py IterativeMethodBase.__call__"), ("delegation of each class", "__call__ of each class")],
     ["callback", "loss record", "return value"],
     "every history up to the bound is executed on the real objects against a counter automaton")

prop("C04", "Interrupted runs resume: n+m iterations equal n then m",
     "With the final rescaling switched off, running a method for n iterations and calling it again for m more (without a new initial call) "
     "gives the same parameters, output and loss record as a single call of n+m iterations; handing the estimated parameters "
     "as keyword arguments to a fresh method continues the run in the same way. A call with zero iterations changes nothing.",
     ["histories", "configurations"],
     "all methods that keep their parameters x options, all ways of cutting a run into calls, all hand-over points",
     NONE_RUN + "resumption is a statement about every split of a history.",
     [B + "iva.py", B + "fdica.py", B + "ica.py", B + "ilrma.py", B + "ipsdta.py", B + "mnmf.py", B + "proxbss.py", B + "pdsbss.py", B + "admmbss.py"],
     [("parameter (re)initialization", "_reset/_init_* of each class")],
     ["return value", "parameters", "loss record"],
     "all compositions of the bounded run and all hand-over points, state compared after every step")

prop("C05", "Caller data untouched, instances isolated, runs reproducible",
     "A method never modifies the input, parameter arrays or callback list it is given, does not depend on their memory layout or on "
     "the caller overwriting its buffer later, and never overwrites a result it returned before. Two methods do not influence each other however "
     "their calls are interleaved or nested, and results depend only on the arguments and the given random generator, never on the global random state.",
     ["histories", "schedules", "inputs"],
     "all methods x options, all buffer situations, all merges of the call sequences of two instances, nesting in any callback",
     NONE_RUN + "isolation must hold under every interleaving of calls.",
     [B + "base.py", B + "iva.py", B + "ilrma.py", B + "mnmf.py", B + "_update_spatial_model.py"],
     [("defensive copies", "__call__/_reset of each class"), ("overwrite flags of in-place updates", B + "_update_spatial_model.py")],
     ["return value", "the caller's arrays"],
     "all buffer situations and all merges within the bound are executed; single-threaded interleavings at call and callback granularity")

prop("C06", "Output is the demixing filter applied to the input, with the requested scale",
     "After a call the returned signal equals the method's output and the final demixing filter applied to the (preprocessed) input. With projection back each frequency's "
     "sources sum to the reference channel and the rescaling is a per-source factor given by the inverse filter; with the minimal distortion principle each source is "
     "scaled by the least-squares factor to the reference channel; with scale restoration off the last iterate is returned unscaled. All documented names of a "
     "rescaling technique are equivalent, and any reference channel can be chosen.",
     ["inputs", "configurations"],
     "all methods x scale-restoration names x reference channels x inputs",
     NONE_RUN + "only the rescaling functions are tested in isolation, on one random shape.",
     [B + "iva.py", B + "fdica.py", B + "ilrma.py", B + "ipsdta.py", B + "ica.py", B + "proxbss.py", "ssspy/algorithm/projection_back.py", "ssspy/algorithm/minimal_distortion_principle.py"],
     [("scale restoration", "restore_scale/apply_projection_back/apply_minimal_distortion_principle of each class")],
     ["return value", "demixing filter"],
     "full product of methods, rescaling names and reference channels, decided against the unscaled run and scalar formulas")

prop("C07", "Spatial updates solve their documented subproblems exactly",
     "One spatial update, in isolation (for given weighted covariances or weights) or as an iteration of auxiliary-function FDICA and IVA (with the weights of the selected contrast), is the exact coordinate-wise minimizer it is documented to be: iterative projection makes each filter row "
     "satisfy its orthogonality and unit-norm conditions in turn, pairwise projection and pairwise steering reach the global optimum of the two-source problem, source steering is the corresponding rank-one change of the output, "
     "projection with adjustment minimizes over one row and the steering of all other sources, and block coordinate descent minimizes over one filter row at a time. Only the addressed sources change, options (overwriting, pair order, custom flooring) do not alter the mathematics.",
     ["inputs", "configurations"],
     "all positive definite weighted covariances, filters, weights, numbers of sources, pair selections",
     "the tests check one property of the result on a few random tensors; optimality must hold for every matrix and pair order.",
     [B + "_update_spatial_model.py", "ssspy/linalg/lqpqm.py", "ssspy/linalg/eigh.py"],
     [("update_by_* functions", B + "_update_spatial_model.py")],
     ["returned filter or output"],
     "scalar reference updates and optimality conditions over the enumerated matrices and pair sequences")

prop("C08", "Nonnegative and PSD source-model updates follow their multiplicative rules",
     "In the low-rank methods (ILRMA, IPSDTA, multichannel NMF) each iteration changes basis, activation, latent and spatial variables exactly by the documented multiplicative rule of the selected "
     "model and algorithm (Gauss, Student's t, generalized Gauss; MM or ME; any domain, shape parameter and degrees of freedom; with or without partitioning) followed by the spatial update. "
     "Normalization only rescales: it leaves the modelled source variances relative to the separated signals unchanged (except where documented otherwise: GaussMNMF with partitioning).",
     ["inputs", "configurations"],
     "all options x inputs x iterations",
     NONE_RUN + "the update rules have no test at all.",
     [B + "ilrma.py", B + "ipsdta.py", B + "mnmf.py"],
     [("update_basis/update_activation/update_latent/update_spatial", B + "ilrma.py, ipsdta.py, mnmf.py"), ("normalize_by_*", B + "ilrma.py")],
     ["parameters seen by a callback"],
     "one scalar-loop reference step from every explored state of every configuration")

prop("C09", "Gradient methods step along the (natural) gradient of their objective",
     "Each iteration of a gradient-based ICA, FDICA or IVA method moves the demixing filter by the given step size along the negative gradient of the documented objective, or along its natural gradient, "
     "in the holonomic or non-holonomic form selected; the Laplace and Gauss variants use the contrast and score function of their model, and the signals published after each iteration are those of the filter published with them.",
     ["inputs", "configurations"],
     "all gradient methods x options x step sizes x inputs x iterations",
     NONE_RUN + "the direction of a step has to be right at every state.",
     [B + "ica.py", B + "fdica.py", B + "iva.py"],
     [("update_once of gradient methods", B + "ica.py, fdica.py, iva.py")],
     ["demixing filter seen by a callback"],
     "scalar reference step in every explored state plus finite differences of the recorded objective")

prop("C10", "Fixed-point methods keep orthonormal filters and take the documented step",
     "FastICA, FastIVA and FasterIVA work on whitened input, after every iteration hold demixing filters with orthonormal rows, and each iteration is the documented fixed-point step for the given contrast function followed by "
     "orthonormalization (deflation in order for FastICA, symmetric for the IVA variants). The output is the filter applied to the whitened input.",
     ["inputs", "configurations"],
     "all fixed-point methods x contrast functions x inputs x iterations",
     NONE_RUN + "orthonormality must hold after every step from every state.",
     [B + "ica.py", B + "iva.py", "ssspy/transform/whiten.py"],
     [("update_once of FastICA/FastIVA/FasterIVA", B + "ica.py, iva.py")],
     ["demixing filter seen by a callback", "return value"],
     "scalar reference step in every explored state, phase-aware")

prop("C11", "Proximal splitting methods take the documented primal-dual and ADMM steps",
     "Each iteration of the primal-dual splitting and ADMM separation methods (with one or several penalties, with masks, and the harmonic-vector-analysis mask) updates demixing filter, auxiliary and dual variables exactly by the documented "
     "scheme with the given step sizes and relaxation. A mask-based method equals the penalty-based one whose proximal operator multiplies by that mask, and repeated penalties act jointly.",
     ["inputs", "configurations"],
     "all proximal methods x penalties x step sizes x relaxation x inputs x iterations",
     NONE_RUN + "a wrong relaxation or dual step only shows after an iteration.",
     [B + "pdsbss.py", B + "admmbss.py", B + "hva.py", B + "iva.py", B + "proxbss.py"],
     [("update_once of proximal methods", B + "pdsbss.py, admmbss.py"), ("mask of HVA", B + "hva.py")],
     ["filter, auxiliary and dual variables seen by a callback"],
     "scalar reference step in every explored state")

prop("C12", "Equivalent configurations give identical results",
     "Documented synonyms and special cases coincide: IP is IP1 and ISS is ISS1; the Laplace and Gauss classes equal the generic class given the same functions; generalized-Gauss source models with shape approaching 2 approach the Gauss model, "
     "Student's t with growing degrees of freedom approaches it; for two sources pairwise steering equals pairwise projection in the magnitudes of the separated signals; partitioned models with one-hot latent variables equal unpartitioned ones; a single-penalty list equals the bare penalty; "
     "the deprecated step parameter equals relaxation; harmonic vector analysis equals its primal-dual form; one-frequency IVA equals one-frequency FDICA.",
     ["configurations", "inputs"],
     "all pairs of equivalent configurations x inputs x iterations",
     NONE_RUN + "equivalence relates two runs for every input.",
     [B + "iva.py", B + "fdica.py", B + "ica.py", B + "ilrma.py", B + "ipsdta.py", B + "pdsbss.py", B + "admmbss.py", B + "hva.py"],
     [("algorithm selection", "update_once of each class")],
     ["return value", "parameters", "loss record"],
     "both members of every pair are run on every letter and compared after every iteration")

prop("C13", "Symmetry: relabelling channels, frequencies or frames relabels the result",
     "Separation commutes with the symmetries of the problem: permuting frequency bins (given the correspondingly permuted initial parameters; not for the frequency-structured HVA and, within a block, IPSDTA), permuting frames, complex conjugation, permuting sources (where all are updated at once), and starting from a filter W on input x versus from W times the inverse of A on Ax (A unitary, or any A where the updates are equivariant) "
     "permute or transform the result accordingly; frequencies are separated independently where the model has no cross-frequency coupling; scaling the input by a positive constant scales the projected-back output by it for scale-invariant methods.",
     ["inputs", "configurations"],
     "all methods x options, all permutations of a small number of bins and frames",
     NONE_RUN + "a symmetry relates all inputs to each other.",
     [B + "iva.py", B + "fdica.py", B + "ilrma.py", B + "mnmf.py", B + "cacgmm.py", B + "ipsdta.py", B + "pdsbss.py", B + "admmbss.py"],
     [("vectorized updates", "update_once of each class")],
     ["return value"],
     "every permutation of the bounded axes is executed; comparison with the relabelled base run")

prop("C14", "Posteriors are probabilities and separated images sum to the reference channel",
     "In the cACGMM the posteriors are nonnegative, sum to one over sources in every time-frequency point and equal the Bayes posterior of the current mixture, the weights sum to one, covariances are Hermitian positive with fixed trace when normalized, and "
     "each iteration is the documented EM step. The separated signals of the cACGMM and of the multichannel NMF methods are the posterior masks or multichannel Wiener filters of the current parameters applied to the mixture, and sum over sources to the chosen reference channel.",
     ["inputs", "configurations"],
     "all mask-based methods x options x numbers of sources x inputs x iterations",
     NONE_RUN + "only a zero-norm frame of the cACGMM is tested.",
     [B + "cacgmm.py", B + "mnmf.py"],
     [("posterior and parameter updates", B + "cacgmm.py"), ("multichannel Wiener filter", B + "mnmf.py separate")],
     ["posterior, parameters and output"],
     "scalar EM reference and partition check in every explored state")

prop("C15", "Silent and degenerate inputs never poison the result",
     "Inputs containing silent frames (at any position), repeated frames, real or integer-valued data, or very loud and very quiet signals never make a default-configured method produce NaN or infinite filters, outputs or losses, as long as the "
     "mixture is of full rank in every frequency; flooring only acts where a denominator vanishes.",
     ["inputs", "configurations"],
     "all methods x options, all placements of silent frames up to the bound",
     NONE_RUN + "silence is only tested for the cACGMM normalisation.",
     [B + "iva.py", B + "fdica.py", B + "ilrma.py", B + "ipsdta.py", B + "mnmf.py", B + "cacgmm.py", "ssspy/special/flooring.py"],
     [("flooring of denominators", "flooring_fn in each class")],
     ["return value", "parameters", "loss record"],
     "every subset of silent frames of the bounded signal and every degenerate letter")

prop("C16", "Invalid configurations are rejected, defaults are the documented ones",
     "Every constructor accepts exactly the documented option values: unknown spatial algorithms, source algorithms, keyword arguments or missing mandatory functions raise an error at construction, and unknown rescaling, permutation or normalization names raise at the latest at the call, instead of silently running something else. "
     "Omitted options behave exactly as the documented defaults given explicitly, and custom flooring functions, step sizes, pair selectors and reference channels given by the user are the ones used.",
     ["configurations"],
     "all classes x all options x all valid and invalid values, single and pairwise",
     "the tests enumerate a few valid values and only look at the text representation.",
     [B + "iva.py", B + "fdica.py", B + "ica.py", B + "ilrma.py", B + "ipsdta.py", B + "mnmf.py", B + "cacgmm.py", B + "pdsbss.py", B + "admmbss.py", B + "hva.py"],
     [("argument validation", "__init__ of each class")],
     ["raised errors", "return value"],
     "full enumeration of the option alphabet against a table of documented values")

prop("C17", "Rescaling functions: projection back and minimal distortion principle",
     "Projection back of a filter multiplies each row by the matching entry of the inverse filter's reference row; projection back of separated signals multiplies each source by its least-squares coefficient in the reference channel (jointly over sources), so the rescaled sources sum to the reference when it lies in their span; "
     "both agree when signals come from a filter. Minimal distortion scales each source by its own least-squares coefficient. All are invariant to prior rescaling of the sources, support every batch shape, every or all reference channels, real and complex data, and leave the arguments unchanged.",
     ["inputs"],
     "all small filters and signals over an integer alphabet, all reference channels",
     "tests compare two code paths on one random tensor.",
     ["ssspy/algorithm/projection_back.py", "ssspy/algorithm/minimal_distortion_principle.py"],
     [("projection_back", "ssspy/algorithm/projection_back.py"), ("minimal_distortion_principle", "ssspy/algorithm/minimal_distortion_principle.py")],
     ["return value"],
     "exhaustive over small integer filters/signals with scalar references")

prop("C18", "Permutation solvers permute, consistently, and recover aligned order",
     "A permutation solver only reorders sources within each frequency, applies the same reordering to every accompanying array, respects the overwrite option, and reports sequences with consistent activity aligned: whatever the per-frequency shuffling of clearly correlated sources, the result of the correlation-based solver is the aligned order up to one global permutation. "
     "All choices (correlation- and score-based, global and local rounds) equal the exhaustive maximization of the documented criterion.",
     ["inputs"],
     "all per-frequency permutations of up to 3 sources in a small number of bins",
     "tests shuffle once at random; correctness is over all combinations of permutations.",
     ["ssspy/algorithm/permutation_alignment.py", B + "fdica.py", B + "cacgmm.py"],
     [("correlation_based_permutation_solver, score_based_permutation_solver", "ssspy/algorithm/permutation_alignment.py")],
     ["return value", "accompanying arrays"],
     "every combination of per-bin permutations within the bound; scalar reference solver")

prop("C19", "WAV files round-trip and partial reads are slices",
     "Writing samples and reading them back returns the same samples (exactly for integer data, to quantization for floats), the same sampling rate and channel layout in either orientation; reading any window of frames equals the corresponding slice of the whole. "
     "Invalid windows and unsupported data are rejected rather than silently misread.",
     ["inputs", "histories"],
     "all small sample words, dtypes, channel counts, orientations, offsets and lengths",
     "tests read a few fixed windows of one file.",
     ["ssspy/io/__init__.py"],
     [("wavread/wavwrite", "ssspy/io/__init__.py")],
     ["returned samples", "file bytes"],
     "exhaustive over small words, windows and formats, against an independent byte-level codec")

prop("C20", "Malformed or truncated WAV files never yield wrong samples",
     "For every truncation point of a valid file and every corruption of a header field, reading either raises an error or returns exactly the samples an independent decoder finds in the data present; it never hangs and never returns samples of the wrong count, channel or scale. "
     "Unknown extra chunks before the data are handled or rejected.",
     ["crash_points", "inputs"],
     "all truncation points and single header-field corruptions of small files",
     "tests read well-formed files only.",
     ["ssspy/io/__init__.py"],
     [("header parsing", "ssspy/io/__init__.py")],
     ["returned samples or error"],
     "every truncation point and header byte variant within the bound")

prop("C21", "Matrix functions satisfy their defining equations",
     "The (generalized) Hermitian eigensolvers return ascending eigenvalues and vectors satisfying the equation of the requested type and its normalization; the 2x2 inverse, matrix square root and inverse square root, and the three kinds of geometric mean satisfy their defining equations; the quadratic form and the linear solver "
     "agree with their scalar definitions. All work elementwise over batches, for real and complex matrices.",
     ["inputs"],
     "all small Hermitian positive definite matrices over an integer alphabet",
     "tests check a few random matrices per function.",
     ["ssspy/linalg/eigh.py", "ssspy/linalg/inv.py", "ssspy/linalg/sqrtm.py", "ssspy/linalg/mean.py", "ssspy/linalg/quadratic.py", "ssspy/linalg/_solve.py"],
     [("linear algebra helpers", "ssspy/linalg")],
     ["return value"],
     "exhaustive over integer matrices within the bound, defining equations evaluated")

prop("C22", "Cubic roots and the log-quadratic program are solved for all coefficients",
     "The cubic solver returns three numbers whose elementary symmetric functions are the given coefficients (all roots with multiplicity, also for multiple and zero roots and for coefficients with leading factor), and rejects a zero leading coefficient. The log-quadratically penalized quadratic minimization returns a "
     "point that satisfies the stationarity condition and is a global minimizer, whether or not the linear term vanishes.",
     ["inputs"],
     "all coefficients on a grid including all multiplicity patterns; all small problem instances",
     "tests try a handful of random coefficients.",
     ["ssspy/linalg/polynomial.py", "ssspy/linalg/cubic.py", "ssspy/linalg/lqpqm.py"],
     [("solve_cubic, cbrt", "ssspy/linalg/polynomial.py, cubic.py"), ("lqpqm2", "ssspy/linalg/lqpqm.py")],
     ["return value"],
     "exhaustive over coefficient grids, symmetric functions and grid minimization as oracle")

prop("C23", "Proximal operators minimize their proximal objective",
     "Each proximal operator (soft thresholding, group soft thresholding, negative log, negative log-determinant) returns the unique minimizer of step times penalty plus half squared distance, for every input (including zeros, ties with the step, real and complex) and every positive step size, and does not modify its argument.",
     ["inputs"],
     "all inputs and step sizes over an alphabet including all boundary cases",
     "tests compare shapes or single values.",
     ["ssspy/linalg/prox.py"],
     [("l1, l21, neg_log, neg_logdet", "ssspy/linalg/prox.py")],
     ["return value"],
     "exhaustive over an alphabet with boundary cases; subgradient optimality and scalar closed forms as oracle")

prop("C24", "Special functions are exact and stable",
     "Log-sum-exp and softmax equal their mathematical definitions for every axis, keep-dims option and input range without overflow or NaN (including infinities where defined); maximum flooring and the projection to Hermitian positive definite matrices "
     "return the nearest value that dominates the floor and leave admissible input unchanged, additive flooring adds the floor, and none modifies its argument.",
     ["inputs"],
     "all inputs over an alphabet with extreme values, all axes and shapes",
     "tests check one random tensor.",
     ["ssspy/special/logsumexp.py", "ssspy/special/softmax.py", "ssspy/special/flooring.py", "ssspy/special/psd.py", "ssspy/utils/flooring.py"],
     [("special functions", "ssspy/special")],
     ["return value"],
     "exhaustive over words of extreme values, high-precision scalar reference")

prop("C25", "Pair selectors enumerate exactly the documented pairs",
     "For every number of sources, stop, step and sorting option the sequential selector yields the neighbouring (wrapping) pairs in order and the combination selector every unordered pair once in lexicographic order; pairs are valid distinct indices and, when sorted, ascending; deprecated entry points behave identically.",
     ["inputs"],
     "all numbers of sources, stops, steps and sort flags up to a bound",
     "tests check a few values.",
     ["ssspy/utils/select_pair.py", B + "_select_pair.py"],
     [("selectors", "ssspy/utils/select_pair.py")],
     ["yielded pairs"],
     "full enumeration against an index-arithmetic model")

prop("C26", "PCA and whitening decorrelate",
     "For every full-rank signal, real or complex, single or per frequency, the principal component transform yields uncorrelated components with powers in the requested order while preserving total power and being an invertible unitary change of basis, and whitening yields identity covariance, as an invertible linear map of the channels of each frequency. Arguments are unchanged.",
     ["inputs"],
     "all small full-rank signals over an alphabet, 2 and 3 dimensions, both orders",
     "tests check one random signal per layout.",
     ["ssspy/transform/pca.py", "ssspy/transform/whiten.py"],
     [("pca, whiten", "ssspy/transform")],
     ["return value"],
     "exhaustive over small signals; covariance and linear-map identities")

prop("C27", "Dataset helpers serve what was asked for across any history and crash",
     "Whatever sequence of requests was made before (other sources, durations, options) and wherever an earlier download or write was cut off, a dataset request returns the data for the arguments given, in the given order, or raises; it never returns stale, partial or mislabelled data, and downloads only what is missing.",
     ["histories", "crash_points", "fault_sequences"],
     "all short request histories, all interruption points of download and cache writing",
     "the tests for this need the network and never run here.",
     ["ssspy/utils/dataset/__init__.py", "ssspy/utils/dataset/mird.py", "ssspy/utils/dataset/sisec2010.py"],
     [("caching", "ssspy/utils/dataset")],
     ["returned data", "cache files in a scratch directory"],
     "all request histories and crash points within the bound with a stubbed downloader in a scratch directory")

prop("C28", "Estimated parameters stay in their domain",
     "After every iteration basis, activation and spatial variables stay strictly positive and finite (at the floor or above before a final rescaling), latent variables are nonnegative and sum to one over sources, PSD bases and spatial covariances are Hermitian positive definite, normalized quantities have the advertised normalization, and declared shapes and counts match the input.",
     ["inputs", "configurations"],
     "all low-rank methods x options x inputs x iterations",
     NONE_RUN + "invariants must hold in every reachable state.",
     [B + "ilrma.py", B + "ipsdta.py", B + "mnmf.py", B + "cacgmm.py"],
     [("flooring, PSD projection and normalization", B + "ilrma.py, ipsdta.py, mnmf.py, cacgmm.py")],
     ["parameters seen by a callback"],
     "invariants evaluated in every explored state of every configuration")

prop("C29", "The printed form of a method reports the options in effect",
     "Printing a method never fails and changes neither its attributes nor the later course of a run; before, between and after runs every option it lists shows the value in effect: the one given at construction, reassigned since, or the default.",
     ["configurations", "histories"],
     "all methods x options x histories of runs, continued runs and reassignments",
     "tests print objects without looking at the text.",
     [B + "base.py", B + "iva.py", B + "ilrma.py"],
     [("__repr__", B + "*.py")],
     ["printed form", "attributes after printing"],
     "all histories up to the bound, printed form parsed in every state")

prop("C30", "The flooring function in effect is the one applied, everywhere",
     "Wherever a method floors a quantity - initial parameters, source models, filters, masks, normalisation, loss - it applies the flooring function in effect: the one handed to the step, otherwise the one given at construction or assigned since (the identity for None), and no other; a floor handed to one step does not stick. Every transition is the documented step with that floor, and without a given floor it is the maximum with 1e-10.",
     ["configurations", "histories"],
     "all methods x flooring functions x points of the run where it is handed or reassigned",
     "tests run with the default floor only, whose effect is invisible, and never hand one to a step.",
     ["ssspy/special/flooring.py", B + "ilrma.py", B + "iva.py", B + "mnmf.py"],
     [("choose_flooring_fn", "ssspy/special/flooring.py"), ("update_once", B + "*.py")],
     ["states of the running method", "results of the update functions"],
     "all (constructed, handed, assigned) floors up to the bound in every running method, against reference steps and a register model")

prop("C31", "Query operations answer from their arguments and change nothing",
     "Asking a method to separate a given signal with a given filter (or posterior), to reconstruct a spectrogram or covariance from given factors, for the log-determinant of given matrices, or for its current loss, answers the documented expression of exactly those arguments (and, where documented, of its current parameters), whatever sizes, values and memory layout they have and whatever the method did before; no attribute and no argument changes, and asking again gives the same answer. Restoring the scale after a run is the same as having asked for it at construction.",
     ["inputs", "configurations", "histories"],
     "all methods x query operations x states of the method x sequences of queries x argument sizes and layouts",
     "tests never call these operations: the methods call them with their own parameters only, where reading the object instead of the argument is invisible.",
     [B + "base.py", B + "iva.py", B + "fdica.py", B + "ica.py", B + "ilrma.py", B + "ipsdta.py", B + "mnmf.py", B + "cacgmm.py", B + "proxbss.py"],
     [("separate, reconstruct_*, compute_logdet, compute_loss, restore_scale of each class", B + "*.py")],
     ["results of the operations", "attributes before and after"],
     "all sequences of queries up to the bound in every method and state, against entry-by-entry formulas of the arguments")

prop("C32", "Results do not depend on the number format of signals and parameters",
     "Handing over the same numbers in another format - single, double or big-endian, real or complex, integer - never changes the result beyond the rounding of that format: neither for the signal, nor for initial parameters (filters, source models, latent, spatial, dual and auxiliary parameters), nor for numeric options, nor for arguments of the numerical functions; no imaginary part or fraction is cut off, and the arrays handed over stay as they are.",
     ["inputs", "configurations"],
     "all methods x signals, initial parameters and options x number formats; all numerical functions x number formats",
     "tests hand over double-precision signals and no initial parameters.",
     [B + "base.py", B + "iva.py", B + "fdica.py", B + "ica.py", B + "ilrma.py", B + "ipsdta.py", B + "mnmf.py", B + "proxbss.py", B + "pdsbss.py", B + "admmbss.py", "ssspy/linalg/eigh.py", "ssspy/linalg/prox.py"],
     [("_reset of each class, numerical functions", B + "*.py")],
     ["outputs, losses and final parameters", "results of the functions"],
     "all formats of the alphabet for every signal, parameter, option and argument, against the run with double-precision numbers")

prop("C33", "A step depends only on the parameters and options in effect",
     "Whatever happened before - steps, queries, parameters or options assigned to the running method, as a callback may do - the next step and the loss are the ones of a method just constructed with the options in effect and put into the state in effect: nothing else is remembered, and an option reassigned between two steps takes effect as if given at construction. Options of the final stage (rescaling, reference channel, permutation alignment) count as they stand when the run ends. An object called on another mixture answers as a new one handed its parameters; the method that starts afresh at every call (CACGMM) answers each call as a new method would, whatever was separated before.",
     ["histories", "configurations"],
     "all methods x options x histories of steps, queries and assignments of parameters and options",
     "tests run a method from start to end: a value remembered from an earlier step, or an option read once at construction, is invisible.",
     [B + "base.py", B + "iva.py", B + "fdica.py", B + "ica.py", B + "ilrma.py", B + "ipsdta.py", B + "mnmf.py", B + "cacgmm.py", B + "pdsbss.py", B + "admmbss.py", B + "hva.py"],
     [("update_once, compute_loss, __call__ of each class", B + "*.py")],
     ["parameters after each step", "loss", "final output"],
     "all histories up to the bound in every method, against the memoryless model (a fresh object with these options in this state)")
