#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand, output committed)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = "ssspy/bss/"


def P(id, title, statement, over, qtext, why, files, mech, level_note, technique, observe=None):
    return dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": qtext},
                why_tests_cant=why,
                anchors={"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                         "observe_at": observe or ["return values and public attributes of the library"],
                         "hook_needed": None},
                _level_note=level_note, _technique=technique)


PROPS = []

PROPS += [
P("C19", "Whitening and PCA transform the channel covariance as documented",
  "For real or complex multichannel data in any documented layout with full-rank channel covariance, whitening returns "
  "data of the same shape and kind, an invertible linear function of the channels, whose sample channel covariance "
  "(no mean removal) is the identity in every bin and batch item. PCA returns a unitary rotation of the channels whose "
  "outputs are uncorrelated and carry the covariance eigenvalues, largest first by default and largest last on request. "
  "Neither modifies its input.",
  ["inputs", "configurations"], "all full-rank inputs in the four documented layouts, any channel/bin/batch/frame count",
  "Existing tests check a single seed per layout, and only that the covariance is close to identity/diagonal.",
  ["ssspy/transform/whiten.py", "ssspy/transform/pca.py"],
  [("eigendecomposition of the sample covariance", "ssspy/transform/whiten.py:whiten"),
   ("rotation by ordered eigenvectors", "ssspy/transform/pca.py:pca")],
  "Random search over layouts, sizes 1-6 channels, conditioning up to 1e2, scales 1e-3..1e3; rank-deficient data excluded.",
  "property-based testing: covariance/unitarity invariants and eigenvalue reference"),
P("C20", "Hermitian linear algebra satisfies its defining equations",
  "For Hermitian and positive definite matrices (real or complex, any batch shape), the generalised eigenproblems of the three "
  "documented types return ascending real eigenvalues and eigenvectors satisfying the corresponding equation and normalised in "
  "the metric of the second matrix; the geometric mean solves its Riccati equation, is positive definite and symmetric in its "
  "arguments; square root and (floored) inverse square root, eigenvalue-floored projection to positive definite matrices, 2x2 inverse, "
  "quadratic form and batched linear solve satisfy their defining identities. No argument is modified.",
  ["inputs", "configurations"], "all well-conditioned inputs, batch shapes, real/complex and mixed dtypes, problem types and floors",
  "Tests use a few fixed seeds and sizes per routine.",
  ["ssspy/linalg/eigh.py", "ssspy/linalg/mean.py", "ssspy/linalg/sqrtm.py", "ssspy/linalg/inv.py", "ssspy/linalg/quadratic.py",
   "ssspy/linalg/_solve.py", "ssspy/special/psd.py"],
  [("Cholesky reduction of the generalised eigenproblem", "ssspy/linalg/eigh.py"),
   ("geometric mean through the generalised eigenproblem", "ssspy/linalg/mean.py"),
   ("eigenvalue flooring", "ssspy/special/psd.py")],
  "Random search, condition numbers up to ~25 per matrix (scales 1e-4..1e4), sizes 1-6.",
  "property-based testing: defining equations as oracle"),
P("C21", "Polynomial and penalised quadratic solvers return true solutions",
  "The cubic solver returns all three roots with multiplicity (or one root on request) of any real or complex cubic, with or without an "
  "explicit leading coefficient, to rounding accuracy, and refuses a vanishing leading coefficient; the cube root of a real number is real "
  "and of a complex number principal. The log-quadratically penalised quadratic solver, given enough Newton iterations, returns the global "
  "minimiser of its objective for every positive definite quadratic term, including a vanishing linear term in some or all batch items.",
  ["inputs"], "all coefficients (random, repeated roots, near-degenerate), all positive definite terms in generic position",
  "Tests evaluate residuals for one seed of normal coefficients; nothing checks minimality.",
  ["ssspy/linalg/polynomial.py", "ssspy/linalg/cubic.py", "ssspy/linalg/lqpqm.py"],
  [("Cardano's formula", "ssspy/linalg/polynomial.py:_find_cubic_roots"),
   ("Newton iteration on the secular equation", "ssspy/linalg/lqpqm.py:solve_equation")],
  "Random search incl. vanishing and tiny linear terms; other LQPQM linear terms have a component along the leading eigenvector; 200 Newton iterations.",
  "property-based testing: residual/Vieta relations and bisection reference minimiser"),
P("C22", "Proximal operators solve their defining minimisation",
  "For every input and positive step size, the proximal operators of the l1 norm, the l2,1 norm, the negative logarithm and the negative "
  "log-determinant return the point satisfying the (sub)differential optimality condition of step*f(y) + |y-x|^2/2, with shape and real/complex "
  "kind preserved and the input unmodified.",
  ["inputs"], "all real/complex arrays incl. zeros and singular matrices, all step sizes, grouping axes",
  "The repository has no direct test of the proximal operators.",
  ["ssspy/linalg/prox.py"],
  [("soft thresholding", "ssspy/linalg/prox.py:l1/l21"), ("singular value map", "ssspy/linalg/prox.py:neg_logdet")],
  "Random search with steps 1e-3..10 and data scales 1e-2..1e2.",
  "property-based testing: subdifferential optimality condition"),
P("C25", "Log-sum-exp, softmax and flooring are exact and overflow-safe",
  "Log-sum-exp and softmax along any axis (or over all entries) equal their mathematical definitions for inputs of any offset and spread, "
  "including entries of negative infinity, never overflow, keep or drop dimensions as requested, and softmax sums to one. The flooring functions "
  "are exactly the maximum with, or the addition of, the floor.",
  ["inputs"], "all finite arrays up to 4-D with offsets up to 1e6, spreads up to 1e5, partial -inf entries",
  "Tests compare with scipy on one standard normal array.",
  ["ssspy/special/logsumexp.py", "ssspy/special/softmax.py", "ssspy/special/flooring.py"],
  [("max subtraction", "ssspy/special/logsumexp.py"), ("max subtraction", "ssspy/special/softmax.py")],
  "Random search against exact-summation references; slices that are entirely -inf are outside the property.",
  "property-based testing: fsum reference implementation"),
P("C26", "Pair selectors enumerate the documented source pairs",
  "The sequential selector yields cyclically adjacent pairs from index 0 up to the stop index with the given step, so a default sweep pairs every "
  "source; the combination selector yields every unordered pair exactly once. Requested sorting makes the first index smaller, indices are distinct and in range.",
  ["inputs", "configurations"], "all source counts, stops, steps and ordering flags",
  "Tests enumerate a few small source counts.",
  ["ssspy/utils/select_pair.py"],
  [("generators of index pairs", "ssspy/utils/select_pair.py")],
  "Random search (nearly exhaustive for small counts) against an explicit model.",
  "property-based testing: explicit model of the enumeration"),
]

PROPS += [
P("C04", "Every ILRMA iteration is the documented source, spatial and normalisation step",
  "For GaussILRMA, TILRMA and GGDILRMA, with or without partitioned bases, every supported domain, MM/ME source rule, spatial rule "
  "(IP/IP1, IP2, ISS/ISS1, ISS2, IPA), pair order and normalisation, each iteration maps the public state (filter or separated signal, bases, "
  "activations, latent variables) to exactly the state given by the documented multiplicative updates of the bases, activations and latent "
  "variables, followed by the documented spatial update with the resulting weights and the normalisation; the update flow is independent of "
  "memory layout and data scale.",
  ["inputs", "configurations", "histories"], "all mixtures, initial states, option combinations, at every iteration of a run",
  "Tests run each option combination once and check only output shapes.",
  [B + "ilrma.py", B + "_update_spatial_model.py"],
  [("multiplicative updates", "ssspy/bss/ilrma.py:update_basis_mm/update_activation_mm/update_latent"),
   ("spatial update", "ssspy/bss/ilrma.py:update_spatial_model"),
   ("normalisation", "ssspy/bss/ilrma.py:normalize_by_power/normalize_by_projection_back")],
  "Random search over 2-3 sources, 2-5 bins, 30-45 frames; each step recomputed by an independent model from the class's previous public "
  "state; steps on which flooring acts or the reference is ill-conditioned are skipped and counted.",
  "property-based testing: one-step differential oracle against a reference model"),
P("C05", "Spatial update rules minimise the surrogate they are derived from",
  "The iterative projection (IP1, IP2, one pair), iterative source steering (ISS1, ISS2), iterative projection with adjustment (IPA) and "
  "block-decomposition vector-wise coordinate descent updates return, for every filter or separated signal, weights and pair order, the exact "
  "(block) coordinate minimiser of their quadratic minus log-determinant surrogate, computed source by source in the documented order, "
  "never increase the surrogate, honour the overwrite flag and leave data and weights unmodified.",
  ["inputs", "configurations"], "all full-rank inputs, weights (per bin or shared), pair orders incl. negative and descending indices, Newton counts",
  "Tests check shapes and one numeric descent for single seeds.",
  [B + "_update_spatial_model.py", "ssspy/linalg/lqpqm.py"],
  [("row-wise closed forms", "ssspy/bss/_update_spatial_model.py")],
  "Random search, 1-5 sources, 1-4 bins, 15-40 frames; inputs with non-unique minimisers (tied eigenvalues) excluded by the generator margin.",
  "property-based testing: closed-form reference, stationarity and descent oracles"),
P("C06", "Auxiliary-function FDICA and IVA iterate the documented majoriser step",
  "For AuxFDICA, AuxLaplaceFDICA, AuxIVA, AuxLaplaceIVA and AuxGaussIVA with any super-Gaussian contrast, spatial rule and pair order, each "
  "iteration maps the public filter or separated signal (and the variance of the Gaussian model) to the one given by weights G'(r)/(2r) of the "
  "current outputs followed by the documented spatial update.",
  ["inputs", "configurations", "histories"], "all mixtures, initial filters, contrasts, spatial rules, pair orders, at every iteration",
  "Tests run each option once and check only output shapes.",
  [B + "fdica.py", B + "iva.py", B + "_update_spatial_model.py"],
  [("auxiliary weights and updates", "ssspy/bss/fdica.py:AuxFDICA / ssspy/bss/iva.py:AuxIVA, AuxGaussIVA")],
  "Random search over 2-4 sources, small bins/frames; ill-conditioned or floored steps skipped and counted.",
  "property-based testing: one-step differential oracle against a reference model"),
P("C10", "Gradient ICA, FDICA and IVA take exactly the documented gradient step",
  "For gradient and natural-gradient ICA, FDICA and IVA (generic, Laplace and Gauss variants) each iteration subtracts step size times the "
  "documented gradient, holonomic or non-holonomic as requested or by the class's documented default, computed from the scores of the current "
  "outputs (and the current variance for Gauss models).",
  ["inputs", "configurations", "histories"], "all mixtures, initial filters, contrasts, step sizes, holonomy flags, at every iteration",
  "Tests run each option once and check only output shapes.",
  [B + "ica.py", B + "fdica.py", B + "iva.py"],
  [("gradient steps", "ssspy/bss/ica.py, fdica.py, iva.py: Grad*/NaturalGrad* update_once")],
  "Random search over small sizes; one-step comparison from the class's own previous state.",
  "property-based testing: one-step differential oracle against a reference model"),
P("C11", "FastICA, FastIVA and FasterIVA keep orthonormal filters on whitened data",
  "The fixed-point methods operate on whitened data, perform in every iteration the documented fixed-point update followed by the documented "
  "orthogonalisation (deflation for FastICA, symmetric for FastIVA and FasterIVA; FasterIVA takes the eigenvector of the smallest eigenvalue of its weighted covariance), so the filters stay "
  "orthonormal and the outputs uncorrelated with unit power, and the returned output is the filter applied to the whitened input.",
  ["inputs", "configurations", "histories"], "all mixtures, initial unitary filters, contrasts, at every iteration",
  "Tests run each class once and check only output shapes.",
  [B + "ica.py", B + "iva.py", "ssspy/transform/whiten.py"],
  [("fixed-point and orthogonalisation", "ssspy/bss/ica.py:FastICABase / ssspy/bss/iva.py:FastIVA, FasterIVA")],
  "Random search over small sizes; scale restoration off for the step comparison.",
  "property-based testing: one-step differential oracle and orthonormality invariants"),
P("C12", "PDS, ADMM and masking separation perform the documented iteration",
  "Primal-dual splitting and ADMM separation (generic with one or several penalties, IVA, and masking variants) map primal, dual and auxiliary "
  "variables in each iteration exactly as documented, for all step sizes, relaxations and given or default initial variables; a mask realising "
  "a proximal operator gives the same filters as the proximal variant; a run that settles has reached a stationary point of its objective.",
  ["inputs", "configurations", "histories"], "all mixtures, penalties, masks, steps, relaxations, initial variables, at every iteration",
  "Tests run each class for a few iterations and check only output shapes.",
  [B + "pdsbss.py", B + "admmbss.py", B + "proxbss.py", B + "iva.py"],
  [("primal-dual update", "ssspy/bss/pdsbss.py:update_once"), ("ADMM update", "ssspy/bss/admmbss.py:update_once")],
  "Random search over small sizes; runs that do not settle within the iteration budget are skipped for the stationarity part only.",
  "property-based testing: one-step differential oracle, metamorphic equality, stationarity"),
P("C27", "Harmonic vector analysis applies the documented cosine-shrinkage mask",
  "The mask of HVA is, for every spectrogram, attenuation, number of mask iterations and floor, the documented cosine shrinkage of the liftered "
  "cepstrum followed by Wiener-like normalisation over sources: values lie in [0, 1], are invariant to a common scale of the sources, and each iteration of "
  "HVA, MaskingPDSHVA and MaskingADMMHVA is the masking PDS/ADMM iteration with that mask.",
  ["inputs", "configurations", "histories"], "all spectrograms incl. exact zeros, attenuations, mask iterations, floors; every iteration of a run",
  "Tests run each class for a few iterations and check only output shapes.",
  [B + "hva.py", B + "pdsbss.py", B + "admmbss.py"],
  [("cosine shrinkage operator", "ssspy/bss/hva.py:mask")],
  "Random search with an explicit cosine transform as reference.",
  "property-based testing: reference model of the mask and one-step differential oracle"),
]

PROPS += [
P("C13", "Separation is a pure deterministic function and outputs are the filtered input",
  "Every separation class returns a finite output of the input's shape and real/complex kind that equals the demixing filter it exposes applied bin by bin "
  "to the input (to the whitened input for the fixed-point methods); algorithms that expose no filter return an invertible per-bin linear "
  "function of the input channels. Neither the input nor given initial values are modified (read-only arrays are accepted). A fresh object with the same options, seed and "
  "data repeats a run bit for bit, independently of NumPy's global random state and of other separation objects used before, "
  "between, inside its callbacks or at the same time in other threads, and what a run returned or exposed is never overwritten by later runs.",
  ["inputs", "configurations", "histories", "schedules"], "all classes, option combinations, memory layouts, initial values, interleavings of objects, thread schedules",
  "Tests check output shapes of single runs; none checks purity, linearity or repeatability.",
  [B + "base.py", B + "ica.py", B + "fdica.py", B + "iva.py", B + "ilrma.py", B + "ipsdta.py", B + "mnmf.py", B + "cacgmm.py", B + "pdsbss.py",
   B + "admmbss.py", B + "hva.py"],
  [("copying of the input and initial values", "ssspy/bss/*.py:__call__/_reset"), ("demixing", "ssspy/bss/*.py:separate")],
  "Random search over all 40 classes of the catalogue, small sizes, up to 3 iterations.",
  "property-based testing: linear-map oracle, purity and interleaving metamorphic relations"),
P("C14", "Scale restoration yields the projection-back or minimal-distortion scaling",
  "Projection back of spectrograms (any channel/source count, one reference or all) returns the sources scaled by the least-squares coefficients of the "
  "reference channel, so they add up to its projection; of filters, rows scaled to add up to the reference selector; the minimal distortion principle scales each source by its own "
  "least-squares factor; both are independent of the gains of their argument and leave it unmodified. Every separation class with scale "
  "restoration, for every documented keyword and reference channel, returns exactly that scaling of what the run without restoration returns (projection back by default), "
  "exposes the matching filter, does not disturb iterations or recorded losses, and refuses unknown keywords and missing references with ValueError.",
  ["inputs", "configurations"], "all estimates, filters, references, keywords and all classes with scale restoration",
  "Tests check shapes and a single agreement between filter and spectrogram form.",
  ["ssspy/algorithm/projection_back.py", "ssspy/algorithm/minimal_distortion_principle.py", B + "iva.py", B + "fdica.py", B + "ilrma.py",
   B + "ipsdta.py", B + "proxbss.py"],
  [("scale restoration of each class", "ssspy/bss/*.py:restore_scale/apply_projection_back/apply_minimal_distortion_principle")],
  "Random search; runs whose filters become near singular are skipped.",
  "property-based testing: least-squares reference and with/without metamorphic relation"),
P("C15", "Iterations, callbacks and recorded losses follow the documented protocol",
  "Every separation class runs exactly n_iter iterations (100 by default) and calls every callback in list order with the method itself once before the first "
  "iteration (unless initial_call is false) and once after each; with loss recording on, the loss of the state visible to the callback has been appended before, as a float, and "
  "computing it changes nothing; with recording off there is no loss list. The states of a j-iteration run are the first states of a longer run, given initial values are "
  "the starting point, and, where a filter is kept, continuing on the same object or from the exposed state in a fresh object equals one "
  "uninterrupted run. An exception raised by a callback reaches the caller and leaves exactly the state of that moment, from which the run can be continued.",
  ["histories", "configurations"], "all classes, iteration counts, callback lists, call sequences and split points",
  "Tests pass one callback and check at most the number of losses for a fixed iteration count.",
  [B + "base.py", B + "ipsdta.py", B + "cacgmm.py", B + "proxbss.py"],
  [("iteration loop", "ssspy/bss/base.py:IterativeMethodBase.__call__"), ("state (re)initialisation", "ssspy/bss/*.py:_reset")],
  "Random search over call histories and interruption points, up to 6 iterations; CACGMM (restarts by design) and filter-less spatial algorithms (known finding) are "
  "excluded from resumption.",
  "property-based testing: history model, prefix and split metamorphic relations"),
P("C23", "Permutation alignment permutes bins consistently and recovers common order",
  "The correlation-based and score-based solvers return every bin as a permutation of the given one and apply the same permutation to all companion "
  "arrays (any number, shape and type), in place or on copies as requested; sources with clearly different activity come back in one common order, from any order "
  "per bin for the correlation-based solver (independent of those orders and equal to the documented greedy search), from a permuted minority of bins for the score-based one, whose majority order is kept (its result is that of the documented global search against the centroids and local search against neighbouring and harmonic bins); mismatching shapes are refused. FDICA and CACGMM with alignment return the results of the run "
  "without, all parameters permuted jointly per bin, leaving losses unchanged.",
  ["inputs", "configurations"], "all sequences, per-bin orders, companions, iteration counts and overwrite flags",
  "Tests align one synthetic example and check shapes.",
  ["ssspy/algorithm/permutation_alignment.py", B + "fdica.py", B + "cacgmm.py"],
  [("greedy search over permutations", "ssspy/algorithm/permutation_alignment.py"), ("joint permutation", "ssspy/bss/fdica.py:solve_permutation, ssspy/bss/cacgmm.py:solve_permutation")],
  "Random search over 2-4 sources and up to 17 bins; ties excluded where uniqueness matters; recovery claimed for clearly distinct activity only.",
  "property-based testing: planted-permutation recovery, permutation invariants, greedy reference model"),
P("C24", "WAV files are read and written exactly",
  "Reading returns exactly the stored PCM samples (8, 16 or 32 bits, any channel count and rate) divided by full scale, for any excerpt and layout flag; excerpts outside the file and "
  "malformed, truncated or unsupported files are refused. Writing produces a file other readers decode to the same rate, channels and "
  "samples (integers verbatim, floats within one quantisation step, saturating beyond full scale), whatever the memory layout; unsupported waveforms are refused and leave an existing file untouched. Reading and writing back reproduces a 16-bit file byte for byte.",
  ["inputs", "configurations"], "all PCM files and waveforms, excerpts, dtypes, layouts, malformed headers",
  "Tests round-trip a few random waveforms through the library itself.",
  ["ssspy/io/__init__.py"],
  [("RIFF parsing", "ssspy/io/__init__.py:wavread"), ("RIFF writing", "ssspy/io/__init__.py:wavwrite")],
  "Random search against Python's wave module in a scratch directory; 24-bit files and empty excerpts are outside the property.",
  "property-based testing: differential oracle against the standard library, round trips, malformed-file generation"),
]

PROPS += [
P("C01", "Separation: mixtures of sources with different activity come out separated",
  "On determined convolutive (per-bin) mixtures of sources whose activities differ over time or frequency, the separation methods separate: auxiliary-function FDICA/IVA, "
  "ILRMA, IPSDTA, PDS, ADMM, HVA, FastMNMF, FastIVA and FasterIVA started from a rough separation raise the source-to-interference ratio to a high value or keep it there, "
  "natural-gradient methods improve it, auxiliary-function FDICA/IVA and CACGMM separate two sources blindly, and FastICA separates instantaneous mixtures of "
  "non-Gaussian signals; for every option, pair order, number of sources and scale of the data.",
  ["inputs", "configurations", "histories"], "all generated mixtures of sources with distinct activity, all options, runs of 10 to 150 iterations",
  "Tests only check output shapes; no test measures whether anything is separated.",
  [B + f for f in ("fdica.py", "iva.py", "ilrma.py", "ipsdta.py", "mnmf.py", "cacgmm.py", "pdsbss.py", "admmbss.py", "hva.py", "ica.py", "_update_spatial_model.py")],
  [("iterative estimation of the demixing filters", "ssspy/bss/*.py:update_once"), ("alignment of the bins", "ssspy/algorithm/permutation_alignment.py")],
  "Random search with synthetic low-rank or bursty sources; decibel thresholds are set well below the minimum seen on correct code; blind runs, which may "
  "end in local optima, are judged by the best or the median of several mixtures.",
  "property-based testing: planted sources, source-to-interference ratio as oracle"),
P("C02", "Majorisation-minimisation and EM methods never increase their objective",
  "For every auxiliary-function, ILRMA, IPSDTA, MNMF and CACGMM method, option combination, input and starting point, the documented negative log-likelihood of the public "
  "state, and the recorded loss, never increase from one iteration to the next.",
  ["inputs", "configurations", "histories"], "all mixtures, starting points, options, each iteration of a run",
  "Tests do not look at the losses of a run at all.",
  [B + f for f in ("fdica.py", "iva.py", "ilrma.py", "ipsdta.py", "mnmf.py", "cacgmm.py", "_update_spatial_model.py")],
  [("monotone updates", "ssspy/bss/*.py:update_once")],
  "Random search, up to 8 iterations; states on which flooring acts are excluded and counted.",
  "property-based testing: independently computed objective as oracle over the history"),
P("C03", "Recorded losses are the documented objective of the state they stand for",
  "For every class that records a loss, each recorded value equals the documented objective (data term, log-determinant, normalisation by the number of frames) of the state visible "
  "at that moment, independent of scale restoration, initial call and flooring.",
  ["inputs", "configurations", "histories"], "all mixtures, states, options, each entry of the loss list",
  "Tests check at most the number of recorded losses.",
  [B + f for f in ("base.py", "fdica.py", "iva.py", "ica.py", "ilrma.py", "ipsdta.py", "mnmf.py", "cacgmm.py", "proxbss.py", "pdsbss.py", "admmbss.py")],
  [("loss functions", "ssspy/bss/*.py:compute_loss")],
  "Random search over small sizes, 0-4 iterations; the reference objective is computed from the public state.",
  "property-based testing: independent reference objective"),
P("C07", "Multichannel NMF iterates the documented updates and returns Wiener estimates",
  "GaussMNMF and FastGaussMNMF, with or without partitioning, any diagonaliser algorithm, pair order and normalisation, map bases, activations, latent variables, spatial covariances "
  "and diagonalisers in each iteration exactly as documented, and return the multichannel Wiener estimate of the reference channel for the final parameters; the estimates "
  "of all sources add up to the observation.",
  ["inputs", "configurations", "histories"], "all mixtures with equal or different numbers of sources and channels, initial states, at every iteration",
  "Tests run each option once and check only output shapes.",
  [B + "mnmf.py", B + "_update_spatial_model.py", "ssspy/linalg/mean.py"],
  [("multiplicative updates and geometric mean", "ssspy/bss/mnmf.py:GaussMNMF"), ("joint diagonalisation", "ssspy/bss/mnmf.py:FastGaussMNMF")],
  "Random search over small sizes; ill-conditioned or floored steps skipped and counted.",
  "property-based testing: one-step differential oracle against a reference model"),
P("C08", "IPSDTA iterates the documented source and spatial step over its bin blocks",
  "GaussIPSDTA and TIPSDTA split the bins into the requested number of blocks (the remainder in its own shape), and each iteration maps filters, block bases and activations to the "
  "documented multiplicative/geometric-mean update, trace normalisation and vector-wise coordinate descent, with default and given starting points, also when a block has a single bin or bases are diagonal.",
  ["inputs", "configurations", "histories"], "all mixtures, block counts with and without remainder, degrees of freedom, at every iteration",
  "Tests run each option once and check only output shapes.",
  [B + "ipsdta.py", B + "_update_spatial_model.py"],
  [("block updates", "ssspy/bss/ipsdta.py:update_basis_mm/update_activation_mm"), ("coordinate descent", "ssspy/bss/_update_spatial_model.py:update_by_block_decomposition_vcd")],
  "Random search over small sizes; ill-conditioned steps are compared loosely and tagged.",
  "property-based testing: one-step differential oracle against a reference model"),
P("C09", "CACGMM runs exact EM and returns posterior-masked observations",
  "CACGMM normalises the observations, initialises as documented, performs in every iteration the exact E and M steps of the complex angular central Gaussian mixture (with optional trace "
  "normalisation), aligns its permutations if asked, and returns the reference channel multiplied by the final posterior of each source.",
  ["inputs", "configurations", "histories"], "all mixtures of 1-3 sources and 2-3 channels, normalisation and alignment flags, at every iteration",
  "Tests check output shapes of one run per option.",
  [B + "cacgmm.py"],
  [("EM updates", "ssspy/bss/cacgmm.py:update_once/update_posterior/update_parameters"), ("masking", "ssspy/bss/cacgmm.py:separate")],
  "Random search over small sizes; ill-conditioned steps are tagged.",
  "property-based testing: one-step differential oracle against a reference model"),
P("C16", "Symmetries: a transformed problem gives the transformed result",
  "Invertible per-bin channel transforms (unitary ones for the gradient and proximal methods) compensated in the starting point leave the separated signals unchanged; permuting frames, "
  "bins (for methods without bin neighbourhoods) or sources of the starting point permutes the result; conjugated data give conjugated results; a "
  "recording repeated in time gives the repeated result; CACGMM posteriors depend on the direction of the observations only. With a flooring function that does not act, recordings of any amplitude (1e-12 to 1e12) "
  "give the same restored output at that amplitude where the model has no fixed amplitude.",
  ["inputs", "configurations"], "all classes, options, mixtures, transforms, restoration modes",
  "No test relates two runs on different inputs.",
  [B + f for f in ("ica.py", "fdica.py", "iva.py", "ilrma.py", "ipsdta.py", "mnmf.py", "cacgmm.py", "pdsbss.py", "admmbss.py", "hva.py")],
  [("updates", "ssspy/bss/*.py:update_once"), ("scale restoration", "ssspy/algorithm")],
  "Random search, up to 3 iterations; runs that amplify rounding errors are skipped after measuring the amplification.",
  "property-based testing: metamorphic relations"),
P("C17", "Model parameters stay admissible and normalised throughout long runs",
  "In every state of a run of any length, also on recordings with silent frames, large dynamics or nearly equal channels: bases, activations, variances, latent variables and masks are finite, real and "
  "positive; latent variables and mixing weights sum to one; spatial covariances and bases are Hermitian positive semidefinite and, where requested, of "
  "unit trace; normalised sources have unit power or add up to the reference; fixed-point filters are unitary; outputs are finite. Random initial parameters are positive and differ between "
  "any two sources, bases, bins and frames.",
  ["inputs", "configurations", "histories"], "all probabilistic and fixed-point classes, awkward inputs, every state of runs of up to 40 iterations",
  "Tests run few iterations on benign data and check shapes.",
  [B + "ilrma.py", B + "ipsdta.py", B + "mnmf.py", B + "cacgmm.py", B + "iva.py", B + "ica.py"],
  [("normalisation", "ssspy/bss/*.py:normalize*"), ("flooring", "ssspy/special/flooring.py, ssspy/special/psd.py")],
  "Random search; models whose likelihood is unbounded (time-varying Gaussian IVA, IPSDTA) run at most 8 iterations.",
  "property-based testing: invariants over the history"),
P("C18", "Special cases and equivalent models agree",
  "Options and classes that describe the same model agree: normalised and unnormalised parameters give the same restored output, Laplacian classes equal the generic ones with that contrast, IVA forms of PDS/ADMM equal "
  "the generic ones with the l2,1 penalty, Student's t with huge degrees of freedom and generalised Gaussian near shape 2 equal Gauss, HVA classes equal the generic masking PDS/ADMM methods with their mask, pairwise projection equals "
  "pairwise steering for two sources, IPSDTA with single-bin blocks equals ILRMA, one-hot partitioning equals separate bases.",
  ["inputs", "configurations"], "all mixtures, starting points and options of the related classes",
  "No test compares two classes.",
  [B + f for f in ("ica.py", "fdica.py", "iva.py", "ilrma.py", "ipsdta.py", "mnmf.py", "pdsbss.py", "admmbss.py", "hva.py", "_update_spatial_model.py")],
  [("updates", "ssspy/bss/*.py:update_once")],
  "Random search, up to 4 iterations; runs that amplify rounding errors are skipped after measuring the amplification.",
  "property-based testing: differential relations between implementations"),
P("C28", "Digital silence in the recording is harmless",
  "When some frames of a recording are exactly zero, at the start, the end or anywhere, every class with its default flooring returns finite outputs and losses, outputs vanish exactly in the silent frames "
  "and not in others; for auxiliary-function methods with scale-free source models, inserting silent frames inserts silence into the restored "
  "output and changes nothing else.",
  ["inputs", "configurations"], "all classes and options, positions and numbers of silent frames, data scales",
  "Tests never use zero frames.",
  [B + f for f in ("fdica.py", "iva.py", "ilrma.py", "ipsdta.py", "mnmf.py", "cacgmm.py", "hva.py")] + ["ssspy/special/flooring.py"],
  [("flooring of variances and weights", "ssspy/bss/*.py: flooring_fn")],
  "Random search; silent bins (singular covariance) are outside the property, and so are losses of ADMM, whose first filters may vanish.",
  "property-based testing: invariants and metamorphic insertion of silence"),
P("C29", "The sample-data loader returns the requested images whatever was loaded before",
  "Loading sample data returns the first seconds of the requested recordings, convolved with the requested room's resampled impulse responses in the documented channel and "
  "angle order (or mixed by the fixed instantaneous matrix), for every source count, tag, reverberation time and duration, regardless of earlier "
  "loads from the same directories and of whether archives are absent, present or unpacked; archives are fetched at most once. A failed download can be repeated, and a load that was killed or "
  "interrupted at any point never makes a later one return other images (it may refuse).",
  ["inputs", "histories", "crash_points"], "all call histories, archive contents, cache states, directory arrangements and points of interruption",
  "The existing test needs the network, loads each combination once and checks the shape.",
  ["ssspy/utils/dataset/__init__.py", "ssspy/utils/dataset/mird.py", "ssspy/utils/dataset/sisec2010.py"],
  [("caches", "ssspy/utils/dataset/mird.py:download, sisec2010.py:download"), ("mixing", "ssspy/utils/dataset/__init__.py:download_sample_speech_data")],
  "Random search with small generated stand-ins for the archives in a scratch directory; downloads are served by a local stand-in.",
  "property-based testing: stateful call histories against a reference computation"),
P("C30", "Synonymous requests give identical runs and unsupported ones are refused",
  "Synonymous option values (scale restoration keywords, IP/IP1, ISS/ISS1, normalisation True/power, defaults given explicitly, flooring functions, a callback or a list of one, positional arguments), "
  "printing an object, and functions under deprecated module names give bit-identical states, losses and outputs; option values outside the documented ones raise instead "
  "of silently running something else.",
  ["configurations"], "all classes and option spellings; all listed kinds of unsupported values",
  "Tests use one spelling of each option and no unsupported ones.",
  [B + f for f in ("base.py", "fdica.py", "iva.py", "ilrma.py", "ipsdta.py", "mnmf.py", "cacgmm.py", "proxbss.py", "_flooring.py", "_psd.py", "_select_pair.py", "_solve_permutation.py")],
  [("option handling", "ssspy/bss/*.py:__init__"), ("deprecated modules", "ssspy/bss/_*.py")],
  "Random search, 1-3 (occasionally the default 100) iterations.",
  "property-based testing: metamorphic equality and refusal of generated invalid options"),
]

PROPS += [
P("C31", "The storage type of recordings, starting values and arguments is irrelevant",
  "Recordings in single precision, of non-native byte order, memory-mapped, of an array subclass or (for complex methods without whitening) of real numbers, and "
  "starting values in single precision, of other byte order, real, integer, in Fortran order or of an array subclass, give the outputs, filters and losses of the "
  "same values in native double precision, up to the precision of the storage; so do the arguments of all numeric functions. Nothing given is modified or retyped.",
  ["inputs", "configurations"], "all classes and options, all numeric functions, all listed storage types",
  "Tests use complex128/float64 arrays in C order only; a real starting filter, for example, never meets an in-place complex update.",
  [B + f for f in ("ica.py", "fdica.py", "iva.py", "ilrma.py", "ipsdta.py", "mnmf.py", "cacgmm.py", "proxbss.py", "pdsbss.py", "admmbss.py", "hva.py",
                   "_update_spatial_model.py")] + ["ssspy/algorithm/projection_back.py", "ssspy/transform/whiten.py", "ssspy/linalg/prox.py", "ssspy/special/psd.py"],
  [("copies of starting values", "ssspy/bss/*.py:_reset"), ("in-place filter updates", "ssspy/bss/_update_spatial_model.py")],
  "Random search, 0-3 iterations (2 in single precision); runs that amplify perturbations are skipped and counted; integer recordings are not covered.",
  "property-based testing: metamorphic equality between storage types"),
]

# --- more properties are appended below -----------------------------------------------------
NOT_APPLICABLE = []


def main():
    ids = [p["id"] for p in PROPS]
    assert len(set(ids)) == len(ids)
    PROPS.sort(key=lambda p: p["id"])
    with open(os.path.join(V, "properties.jsonl"), "w") as fp:
        for p in PROPS:
            assert len(p["title"]) <= 80, p["title"]
            fp.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
    na = {d["property"] for d in NOT_APPLICABLE}
    man = {
        "version": 1,
        "setup_cmd": "python3-vt -c 'import hypothesis, numpy, scipy; print(hypothesis.__version__, numpy.__version__)'",
        "checks": [
            {"property": p["id"],
             "quick_cmd": "python3-vt check.py %s --tier quick" % p["id"],
             "thorough_cmd": "python3-vt check.py %s --tier thorough" % p["id"],
             "technique": p["_technique"], "level": "exploration", "level_note": p["_level_note"]}
            for p in PROPS if p["id"] not in na
        ],
        "not_applicable": NOT_APPLICABLE,
        "notes": "No hooks: every observation goes through the public API and callbacks of the library.",
    }
    with open(os.path.join(V, "MANIFEST.json"), "w") as fp:
        json.dump(man, fp, indent=1)
        fp.write("\n")


if __name__ == "__main__":
    main()
