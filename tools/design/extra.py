# property -> (oracle, why beyond tests, cost of quick in seconds on 8 cores)
X = {
"C01": ("invariant on the loss record in every state: no step raises the recorded objective beyond 1e-9 relative", "descent must hold at every reached state, for every option product; an update that is slightly off (wrong exponent, stale weight) still separates well in ordinary use", 30),
"C02": ("scalar-loop objective of the published model (`ref/loss.py`) evaluated at the observed parameters of every state, also after the rescaling and by a fresh `compute_loss`", "a wrong weight or axis changes only the number, not the separation", 12),
"C03": ("counter automaton: k-th callback sees the state after k updates and k(+1) losses; observers do not interfere (states of all histories are prefixes of one trajectory)", "needs all combinations of n_iter, initial_call, recording and callbacks on every class", 10),
"C04": ("the uninterrupted trajectory of the real code: every composition of N and every hand-over point must reach its very states", "a hidden counter, cache or dual variable that is reset shows only after a second call", 8),
"C05": ("the solo run of a fresh instance (bitwise or rounding-level) under every buffer situation, merge of two call sequences and nesting; bitwise unchanged arguments", "aliasing and shared state show only in particular histories", 15),
"C06": ("scalar formulas for the rescaling applied to the unscaled run; published filter reproduces the result", "needs every rescaling name x reference channel x method", 60),
"C07": ("coordinate-wise textbook minimizers, optimality conditions, global optimum of the two-source problem (closed form), complete enumeration of small integer problems", "an inexact minimizer still descends, only an exact oracle sees it", 8),
"C08": ("one reference iteration by loops over sources, bins and frames (`ref/lowrank.py`, `ref/aux.py`), plus an invariance check of the normalization", "wrong exponents still descend or separate", 10),
"C09": ("reference gradient step, and central differences of the documented objective along the realized direction", "sign/conjugation errors of single terms still look like learning", 8),
"C10": ("reference fixed-point step, orthonormality in every state", "an incomplete orthonormalization shows after several steps only", 7),
"C11": ("reference primal-dual / ADMM step with independently coded pieces (row-wise least squares, scalar shrinkage, cosine-sum cepstra)", "relaxation and duals are visible only in the second step and later", 14),
"C12": ("the other member of each documented equivalence, executed side by side", "two code paths that must coincide in every state, not just converge to similar results", 8),
"C13": ("the transformed run of the real code for every relabelling (all permutations of 3/4 bins, group generators beyond)", "an axis mix-up or a coupling between bins is invisible on one input", 30),
"C14": ("Bayes posterior, reference EM step, Wiener filter bin by bin; sums and positivity in every state", "needs all alignments x references x source counts", 10),
"C15": ("finiteness of every state, silence stays silent, unfloored run coincides where nothing vanishes, runs without the silent frames coincide", "every placement of silent frames must be tried: a single unfloored denominator is enough", 40),
"C16": ("table of documented option values (every invalid value must raise), run with omitted option = run with the documented default, recorded calls of user-supplied functions", "the cross product of classes, options and invalid values is far beyond hand-written tests", 25),
"C17": ("scalar least-squares formulas; invariances; complete lattice of small integer filters", "wrong conjugates or reference rows cancel for symmetric inputs", 7),
"C18": ("exhaustive maximization of the documented criterion bin by bin; all shufflings of aligned data must give the same order", "needs all shufflings; a wrong accompanying permutation is silent", 35),
"C19": ("byte-level encoder/decoder (`ref/wav.py`), slices of the whole, histories of reads and writes on one path", "all windows and all words over the extreme sample values", 6),
"C20": ("independent decoder on every truncation and corruption: same samples or an error", "every truncation point and byte value is tried", 8),
"C21": ("defining equations entry by entry; complete lattice of small integer Hermitian pairs", "degenerate spectra, types of the generalized problem, batch shapes", 8),
"C22": ("elementary symmetric functions of the roots; stationarity and dominance over all stationary points found by bracketing every interval", "multiple/zero roots and vanishing excitation are measure-zero for tests", 16),
"C23": ("closed-form minimizer and dominance over a lattice of competitors", "ties with the step size, zeros, complex phases", 3),
"C24": ("mathematical definition in exact/extended arithmetic; nearest dominating value", "infinities, overflow ranges, all axis combinations", 2),
"C25": ("literal lists of pairs", "all counts, stops and steps within the bound", 1),
"C26": ("covariance of the result; linear map recovered by least squares must be unitary / invertible", "all layouts, spectra, degenerate lengths", 4),
"C27": ("model of the cache directory and of the archives; every write call is a crash point (before / half-way / after, interrupt or kill)", "histories of requests and crash points", 30),
"C28": ("positivity, simplex, Hermitian positive definiteness, advertised normalization in every state", "must hold after every iteration on every letter, including silent ones", 11),
"C29": ("parsed listing against the options given at construction or reassigned since; the same history without printing", "histories of runs, continued runs and reassignments", 7),
"C30": ("reference steps evaluated with the same flooring function; a register model of handed and assigned floors; the library's own default disabled", "floors x points of hand-over, histories of steps and reassignments", 7),
"C31": ("entry-by-entry formulas of the arguments; the attributes before the query; the method constructed with the rescaling", "method states x sequences of queries x argument sizes x layouts", 7),
"C32": ("the run of the real code with the same numbers in double precision", "every parameter x format combination is a path of its own: an in-place assignment into a real array cuts imaginary parts off silently", 30),
"C33": ("memoryless model: a fresh object with the options in effect, put into the state in effect", "a remembered value shows only when parameters or options change between two steps of one run", 60),
}
