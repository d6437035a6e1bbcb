#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one JSON object per line).  Edit here, run, commit both."""
import json, os
S = "ais_benchmarks/sampling_methods/"
D = "ais_benchmarks/distributions/"
ALL = [S + f for f in ("base.py", "dm_ais.py", "layered_ais.py", "m_pmc.py", "tree_pyramid.py", "hi_daisee.py",
                       "metropolis_hastings.py", "rejection.py", "nested.py", "multi_nested.py")]
P = []


def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe, "hook_needed": None,
                          **({"state": [{"name": a, "meaning": b, "where": c} for a, b, c in state]} if state else {})}})


NOTEST = "No test in the repository touches the sampling methods at all; "
p("C01", "Every request returns paired, well-shaped, finite samples and weights",
  "After every successful request, every sampling method returns an N x D array of samples and exactly N weights; all coordinates and weights are finite, no weight is negative and the total weight is positive as soon as the target is positive at one of them. The sample count a sampler reports in its statistics is the N it returned, and what it returns is the sampler's own accumulated state.",
  ["inputs", "configurations", "histories"],
  "Every sampling method x target, positive over all or part of the space and of any scale x dimension 1..3 x parameter setting x sequence of requests and resets.",
  NOTEST + "pairing must survive arbitrary request histories and adaptation paths.",
  ALL, [("importance_sample of each method, get_stats", "sampling_methods/*.py")],
  ["return value of importance_sample", "get_stats()"])
p("C02", "Requests are cumulative: samples are kept and the requested total is reached",
  "A request for n samples returns at least n in total (within its time budget), counting those of earlier requests. Methods that keep a flat sample history return all earlier samples unchanged as a prefix (and their unnormalised weights keep the same mutual ratios); region-splitting methods keep or refine them per region. A request that is already satisfied adds no sample and changes none.",
  ["inputs", "configurations", "histories"],
  "Every sampling method x every sequence of request sizes (growing, repeated, shrinking) interleaved with resets.",
  NOTEST + "prefix preservation is a property of request histories.",
  ALL, [("while n_samples > len(self.samples) accumulation loops", "sampling_methods/*.py")],
  ["return values of consecutive importance_sample calls"])
p("C03", "Reported evaluation and draw counts equal what was actually done",
  "At every point of a sampler's life the reported number of target evaluations equals the number of points at which the target density was evaluated since construction or the last reset, and the reported number of proposal draws equals the number of points drawn from proposal distributions. Proposal density evaluations are counted one per target evaluation, except none by the nested methods, one per weighed sample by DM-AIS and LAIS and one more per proposal by M-PMC. Counts never decrease between resets and are zero after one.",
  ["inputs", "configurations", "histories"],
  "Every sampling method x parameter setting x request/reset history; the target counts points itself.",
  NOTEST + "the counters are the cost axis of every published comparison, and are hand-maintained at ~25 sites.",
  ALL, [("_num_pi_evals / _num_q_samples increments", "sampling_methods/*.py")],
  ["get_stats()", "num_target_evals, num_proposal_samples", "calls received by the target distribution"])
p("C04", "A reset sampler behaves exactly like a newly constructed one",
  "After reset, a sampler used for any history behaves as if it had just been constructed: given the same random seed it produces the same samples, weights, statistics and reported density as a fresh instance with the same parameters. Nothing learned from earlier requests or targets survives the reset.",
  ["inputs", "configurations", "histories"],
  "Every sampling method x history before the reset (including a different target) x request sequence after it.",
  NOTEST + "leaking state shows only after a specific history.",
  ALL, [("reset() of each method and base class", "sampling_methods/*.py")],
  ["samples, weights, get_stats(), prob() after reset + reseed versus a fresh instance"])
p("C05", "Samplers confined to a space never return or evaluate points outside it",
  "Samplers that confine their samples to the configured space (Metropolis-Hastings, nested, multi-nested, tree-pyramid and HiDaisee with bounded cells, and rejection with a bounded proposal) only ever return points inside the space's lower and upper bounds. They also never spend a target evaluation outside it.",
  ["inputs", "configurations", "histories"],
  "Every confining method x off-centre and asymmetric spaces of dimension 1..3 x targets whose mass presses against the boundary x request histories.",
  NOTEST + "escapes need retries near a boundary.",
  [S + f for f in ("metropolis_hastings.py", "nested.py", "multi_nested.py", "tree_pyramid.py", "hi_daisee.py", "rejection.py")],
  [("np.clip of proposals; tree cells derived from space bounds", "sampling_methods/*.py")],
  ["returned samples", "points received by the target distribution"])
p("C06", "DM-AIS and layered AIS weights use the mixture in force; proposals adapt rightly",
  "Every deterministic-mixture and layered AIS sample carries a weight proportional to target density over the equal-weight mixture of all proposals as they were when it was drawn, with returned weights summing to one over the whole history. Each iteration draws the configured number of samples from each proposal; afterwards deterministic-mixture proposals recentre only on samples of that iteration with positive weight, in proportion to the weights, layered proposals move only to points reached by accepted Metropolis moves inside the space, and scales stay as configured.",
  ["inputs", "configurations", "histories"],
  "Number of proposals, samples per proposal, scale, dimension, target, request history.",
  NOTEST + "a weight computed after adaptation, or against one component, still looks like a weight.",
  [S + "dm_ais.py", S + "layered_ais.py", D + "mixture/CMixtureModel.py"],
  [("importance_sample, resample, mcmc_mh", "sampling_methods/dm_ais.py, layered_ais.py")],
  ["samples, weights and proposals between single-iteration requests"])
p("C07", "M-PMC weights, mixture weights and component updates follow the algorithm",
  "In every Mixture-PMC iteration the configured number of samples is drawn from the current mixture and their weights are the target over mixture density ratios normalised to sum to one within the iteration. Afterwards each mixture weight is the weighted average posterior responsibility of its component (renormalised), each component mean is the responsibility-weighted sample mean, each covariance the responsibility-weighted sample covariance, and the sampler's density is the mixture with the new weights.",
  ["inputs", "configurations", "histories"],
  "Number of components, samples per iteration, scale, dimension, target, request history.",
  NOTEST + "the update rule is only visible iteration by iteration.",
  [S + "m_pmc.py", D + "mixture/CMixtureModel.py"], [("adapt, importance_sample", "sampling_methods/m_pmc.py")],
  ["samples, weights, proposals, wproposals, prob() between single-iteration requests"])
p("C08", "TP-AIS returns every cell's samples with weight target over cell proposal",
  "In its simple (per-cell) weighting mode tree-pyramid sampling returns exactly the positively weighted samples held by the current leaf cells, each once and each paired with its own weight, where the weight is proportional to target density over the density of the cell's own proposal kernel with one constant for the whole set. Without leaf resampling a leaf cell keeps its earlier samples when it gains new ones.",
  ["inputs", "configurations", "histories"],
  "Kernel, resampling mode, ESS target, minimum count, parallelism, dimension, target, request history.",
  NOTEST + "mix-ups between a sample and another cell's weight are invisible in shapes.",
  [S + "tree_pyramid.py"], [("_get_samples, weigh, resample", "sampling_methods/tree_pyramid.py")],
  ["importance_sample result versus the target and the leaf cells"])
p("C09", "The tree pyramid always partitions the space and finds the right cell",
  "At all times the leaf cells tile the root cell exactly: their volumes add up to the root's, their interiors are disjoint, each child halves its parent, and every cached list (centres, radii, leaf flags, leaf and node indices) describes the same tree. Looking up any point of the space yields the leaf cell that contains it; expanding a leaf replaces exactly that leaf by its 2^D children, and expanding an inner node is refused.",
  ["inputs", "histories", "configurations"],
  "Every sequence of expansions (any leaf order) in 1..3 dimensions, both kernels, and trees grown by sampling; every query point.",
  NOTEST + "index bookkeeping errors need particular expansion orders.",
  [S + "tree_pyramid.py"], [("CTreePyramid.expand, find", "sampling_methods/tree_pyramid.py")],
  ["tree nodes, leaves, centers, radii, leaves_idx, find()"],
  [("leaves/nodes/centers/radii/leaves_idx", "current partition and its caches", "CTreePyramid")])
p("C10", "TP-AIS refines the most valuable cells first and honours the ESS criterion",
  "In every refinement round of its simple (per-cell) mode tree-pyramid sampling visits leaf cells in decreasing order of importance volume. A visited cell is split when no ESS criterion is set, or when it holds at least the minimum number of samples and their effective sample size is not above the target fraction of that number; otherwise it receives one additional sample. The round ends once more cells than the configured parallelism have been collected after a split, or every leaf was visited.",
  ["inputs", "configurations", "histories"],
  "ESS target (none, below and above one), minimum count, parallelism, kernel, target, request history.",
  NOTEST + "the policy is observable only from round-to-round tree differences.",
  [S + "tree_pyramid.py"], [("_expand_nodes, expand, importance_sample_simple", "sampling_methods/tree_pyramid.py")],
  ["leaf cells before and after each single-round request"])
p("C11", "HiDaisee's tree tiles the space, keeps every sample and re-weights on splits",
  "HiDaisee's leaves always tile the space; every sample drawn so far lies in exactly one leaf, is returned once, and its weight is target density divided by the uniform density of the leaf holding it at that moment. A leaf is split (into halves along one dimension) exactly when it has the minimum number of samples and its effective sample size falls below the target fraction, and every inner node's proposal mass equals the sum of its two children's. A sampled leaf's own mass becomes its mean weight plus the exploration bonus, as a share of the same total over all leaves holding samples (halves of it for its halves when it splits), and every sample descends from the root to children in proportion to their masses.",
  ["inputs", "configurations", "histories"],
  "ESS target, minimum count, exploration weight, dimension, target, request history.",
  NOTEST + "re-weighting and mass propagation matter only after several splits.",
  [S + "hi_daisee.py"], [("split, importance_sample, add_sample", "sampling_methods/hi_daisee.py")],
  ["returned samples and weights", "tree nodes and leaves after each single-sample request"])
p("C12", "Metropolis-Hastings follows the acceptance rule, burn-in, thinning and count",
  "Each proposed move is the current state plus a draw from the proposal clipped to the space, and the chain moves to it exactly when the log acceptance uniform is below the log density ratio including the proposal asymmetry correction, proposing again from the same state otherwise. Burn-in moves happen exactly once per (re)start, every returned sample is separated by the configured number of accepted moves, asking for n samples yields n, and returned weights are equal.",
  ["inputs", "configurations", "histories"],
  "Proposal (symmetric and asymmetric), burn-in, thinning, space, target, random numbers, request/reset history.",
  NOTEST + "acceptance must hold for every random draw.",
  [S + "metropolis_hastings.py"], [("mcmc_step, mcmc, sample, importance_sample", "sampling_methods/metropolis_hastings.py")],
  ["points the target is evaluated at", "draws from a user-supplied proposal", "trajectory and returned samples"])
p("C13", "Rejection sampling keeps exactly the proposals passing the accept test",
  "A proposal is kept exactly when its acceptance uniform is below target density over scaled proposal density; kept proposals are returned in drawing order and nothing else is. Returned weights are equal and sum to one, and the density reported by the sampler is the scaled proposal envelope.",
  ["inputs", "configurations", "histories"],
  "Proposal, scaling (tight, loose, too small), target, random numbers, request history.",
  NOTEST + "the accept rule must hold for every draw.",
  [S + "rejection.py"], [("importance_sample, prob", "sampling_methods/rejection.py")],
  ["proposal draws and target evaluations versus returned samples"])
p("C14", "Nested samplers retire the worst live point and replace it by one no worse",
  "Each retired (returned) sample is the live point of lowest target density - among all live points for nested sampling, among the live points of the ellipsoid being worked on for multi-ellipsoid sampling - and is replaced by a point of at least that density unless the time budget (or ellipsoid convergence) ends the search; the number of live points never changes. Counting returned samples from zero, sample k weighs its density times the prior-volume shrinkage step exp(-(k-1)/N) - exp(-k/N), N live points (sample zero: its density times one), normalised to sum to one.",
  ["inputs", "configurations", "histories"],
  "Number of live points, proposal, inflation, dimension, target, request history.",
  NOTEST + "an ordering slip among live points only biases the weights.",
  [S + "nested.py", S + "multi_nested.py"], [("importance_sample, resample, recursive_clustering", "sampling_methods/nested.py, multi_nested.py")],
  ["live_points and returned samples/weights between requests; target evaluations"])
p("C15", "Reported quality figures are the stated functions of the accumulated set",
  "The normalised effective sample size a method reports is the documented function of its own weights and samples: (sum w)^2 / (N sum w^2) for weighted methods, the exponential of the weight entropy over N for the nested family, and the autocorrelation estimate for chain and rejection output. The acceptance rate is samples kept over proposal points drawn; neither call changes the sampler.",
  ["inputs", "histories"],
  "Every method x accumulated sample/weight set, including scaled weights, single samples and repeated calls.",
  NOTEST + "the figures go straight into the published result table.",
  ALL, [("get_NESS, get_approx_NESS, get_acceptance_rate", "sampling_methods/base.py and overrides")],
  ["get_NESS(), get_approx_NESS(), get_acceptance_rate()"])
p("C16", "A sampler's reported density is the model its accumulated state defines",
  "The density a sampler reports is at all times the one defined by its current state: the weighted mixture of its proposals for population methods, the normalised piecewise-constant cell mass for region-splitting methods, and an equal-weight Gaussian kernel estimate centred on its own samples for chain and nested methods. It integrates to one, points drawn from the sampler as a distribution follow it, its logarithm agrees with its log-density call, and it is refreshed by every request and forgotten by reset.",
  ["inputs", "histories", "configurations"],
  "Every method x history of requests, resets and target changes x query batches.",
  NOTEST + "divergence metrics are computed against this density; stale or unnormalised models silently corrupt them.",
  ALL, [("_update_model, prob, log_prob", "sampling_methods/*.py")],
  ["prob(), log_prob(), sample() of the sampler after each request"])

p("C17", "A request stops when its time is spent, and what it leaves can be used",
  "A request for a total number of samples ends because the total is reached or because its time budget is spent, and begins no further iteration after that moment: every sampling method, whatever the costs of the target. A request cut short loses nothing it held, returns as many finite weights as samples and no sample it has not evaluated, has counted every evaluation it made, and leaves a sampler which answers about itself and which later requests carry on from. A budget that does not run out has no influence on the samples.",
  ["inputs", "histories", "configurations"],
  "Every method x history of requests with ample, short and vanishing budgets and resets x cost of an evaluation.",
  NOTEST + "the time limit is the only protection of a benchmark against an expensive target or a method which cannot make progress.",
  ALL, [("importance_sample(target, n, timeout)", "sampling_methods/*.py")],
  ["samples, weights, statistics and evaluation times of every request under a controlled clock"])

DIST = [D + f for f in ("distributions.py", "parametric/CMultivariateNormal.py", "parametric/CMultivariateUniform.py",
                        "parametric/CMultivariateExponential.py", "parametric/CMultivariateDelta.py",
                        "mixture/CMixtureModel.py", "mixture/CGaussianMixtureModel.py", "benchden/d01_uniform.py",
                        "benchden/d02_exponential.py", "benchden/d03_maxwell.py", "benchden/d04_laplace.py",
                        "benchden/d10_symmetric_pareto.py", "rare/banana2d.py")]
p("D01", "Density evaluation is batched, pointwise, shape-safe and pure",
  "For every target distribution, evaluating density or log-density on an N x D batch returns N values in order, each equal to evaluating that point alone, and a flat vector of D values counts as one point. A batch of the wrong dimensionality is refused with an error, evaluation never alters its input or later results, and drawing n points returns an n x D array.",
  ["inputs", "histories"],
  "Every distribution class x parameters x dimension x batch size (0 excluded) and order x points inside, outside and on the boundary.",
  "Tests cover the normal and the uniform only, with one or two fixed batches.",
  DIST, [("_check_shape, prob, log_prob, sample", "distributions/**")], ["prob(), log_prob(), sample()"])
p("D02", "Densities equal their mathematical definition, also after re-parametrisation",
  "Normal, uniform, exponential, Maxwell, Laplace, symmetric Pareto and banana targets evaluate to their textbook density (banana: its documented unnormalised form), log-density is its natural logarithm, and outside the support density is zero and log-density minus infinity. After a distribution's moments are changed, density and log-density follow the new parameters at once.",
  ["inputs", "histories"],
  "Parameters x dimension x evaluation point (inside, outside, far tail) x histories of moment updates.",
  "Tests compare two classes at a handful of points and never re-parametrise.",
  DIST, [("prob, log_prob, set_moments", "distributions/parametric, benchden, rare")], ["prob(), log_prob()"])
p("D03", "Mixtures normalise their weights and evaluate to the weighted sum",
  "A mixture's weights are always a probability vector proportional to the given ones with invalid (negative or not-a-number) entries counted as zero, and equal weights when nothing valid is left. Its density is the weight-averaged component density, its log-density the logarithm of that, for Gaussian mixtures with the given means and diagonal covariances, and both follow every later weight or component change.",
  ["inputs", "histories"],
  "Number and kind of components, weight vectors with zeros, negatives and NaN, histories of weight and component updates, query batches.",
  "Only tested indirectly through one divergence test with two equal-weight components.",
  [D + "mixture/CMixtureModel.py", D + "mixture/CGaussianMixtureModel.py"],
  [("set_weights, prob, log_prob", "distributions/mixture/")], ["prob(), log_prob(), weights"])
p("D04", "Drawn samples follow the distribution's own density",
  "Points drawn from a distribution lie in its support, where its density is positive, and their empirical mean, spread and region frequencies match the density within sampling error. A mixture draws each component in proportion to its weight, never one of zero weight, and its draws come from the component's current parameters.",
  ["inputs", "configurations", "histories"],
  "Every distribution that can be sampled x parameters (anisotropic, correlated, scaled) x sample count x random draws x parameter updates before drawing.",
  "Tests only check the shape of drawn samples.",
  DIST, [("sample", "distributions/**")], ["sample() against prob()"])
p("D05", "Conditioned and derived models evaluate under the latest condition",
  "An approximate-Bayesian posterior evaluates to surrogate likelihood of the observation given the generated output for each latent point, times the prior at that point, in both density and log-density form; it refuses evaluation before an observation is set and follows the most recent one. Noisy-function and nuisance models generate, under the latest condition, the function value of the conditioned input with one fresh noise (or nuisance) draw per row, and noisy-function models score deviations from the conditioned value with the noise density.",
  ["inputs", "histories"],
  "Prior, slack, generative function, latent batches, histories of conditioning and evaluation.",
  "No test touches derived models.",
  [D + "derived/CABCDistribution.py", D + "derived/CGenericNoisyFunction.py", D + "derived/GenericNuisanceGenModel.py"],
  [("condition, generate, prob, log_prob, sample", "distributions/derived/")], ["prob(), log_prob(), sample()"])
p("D06", "Generic, kernel and point-mass distributions honour the common contract",
  "A distribution defined by a user-supplied density or log-density function evaluates that function, deriving the missing form from the other, and refuses evaluation when neither is given. A kernel density estimate is the weighted average of scaled kernels centred on its samples, each kernel is symmetric and integrates to one, and a point mass is infinite at its location and zero elsewhere. The integral over a box is the density's mass in that box: one or zero for a point mass, exact for the uniform, within sampling error otherwise.",
  ["inputs", "configurations"],
  "User function forms, kernels, bandwidths, sample sets, weights, boxes, query points.",
  "No test touches these classes.",
  [D + "distributions.py", D + "nonparametric/CKernelDensity.py", D + "parametric/CMultivariateDelta.py", D + "parametric/CMultivariateUniform.py"],
  [("CDistribution.prob/log_prob/integral, CKernel, CKernelDensity, CMultivariateDelta.integral", "distributions/")],
  ["prob(), log_prob(), integral()"])

p("D07", "Nearest-neighbour models answer and draw from their stored samples",
  "A nearest-neighbour model gives every point of a batch, in order, the value attached to the stored sample closest to it (any of them when several are equally close) as log-density, and its exponential as density; a flat vector is one point, a wrong dimensionality is refused, and evaluating changes nothing. Drawing n points returns exactly n of the stored samples, independently and in proportion to their weights, never one of zero weight.",
  ["inputs", "histories"],
  "Sample sets (one to many, coinciding, far from the origin, tiny or wide), weights, query points on either side of cell borders, draw counts.",
  "No test touches this class.",
  [D + "nonparametric/CNearestNeighbor.py"],
  [("log_prob, prob, sample", "distributions/nonparametric/CNearestNeighbor.py")],
  ["prob(), log_prob(), sample()"])
p("D08", "Every distribution states a support box that holds its mass",
  "The support a distribution states is one finite box, a row of lower and a row of upper limits, each lower below its upper limit. A box given by the user is stated as it was given; otherwise a uniform states its own box, a normal six standard deviations on either side of its mean, and every other family a box with most of its mass, always for the parameters in force, also after its moments change. Two distributions built from one parameter dictionary, edited in between, each state their own support, and looking at a support changes nothing.",
  ["inputs", "histories"],
  "Every family x dimension 1..3 x parameters over many scales x given or default box in any layout x histories of builds from a shared dictionary, edits, moment changes and uses.",
  "No test compares a stated support with the density, and none changes parameters.",
  [D + "distributions.py", D + "parametric", D + "benchden", D + "rare", D + "mixture"],
  [("support, __init__, set_moments", "distributions/distributions.py, distributions/parametric/*.py")],
  ["support()"])

M = "ais_benchmarks/metrics/"
p("M01", "Divergences are non-negative, zero only at equality, bounded and consistent",
  "On any set of evaluation points the Kullback-Leibler and Jensen-Shannon figures equal the discrete divergence of the two densities normalised over the points where both are positive; they are never negative, zero exactly when the densities agree up to scale there, and the Jensen-Shannon figure is symmetric and at most one. Densities sharing no evaluation point get the worst value (infinity, respectively one), never the best.",
  ["inputs"],
  "Every pair of density vectors on a common point set: scaled, permuted, partly zero, disjoint, extreme.",
  "Tests compare random-sample estimates of a few normals with closed forms.",
  [M + "divergences.py"], [("compute_from_samples, compute_from_log_probs, compute_from_probs", "metrics/divergences.py")],
  ["compute(), compute_from_samples(), value"])
p("M02", "Time and memory metrics accumulate exactly the measured intervals",
  "The time and memory figures equal the sum, over completed measure intervals since the last reset, of what changed between the interval's start and end (time less the calibrated overhead), and nothing outside an interval contributes. Reading the figure does not change it, restarting an interval discards the unfinished one, and reset returns the figure to zero.",
  ["histories"],
  "Every sequence of start, stop, read and reset calls in which each stop ends a started interval, with arbitrary clock and heap readings.",
  "Tests only run start/stop/read/reset in that one order, against real clocks.",
  [M + "performance.py", M + "base.py"], [("pre, post, compute, reset", "metrics/performance.py")],
  ["compute() and value under a controlled clock and heap"])
p("M03", "The expected-value error is the squared distance of the two weighted means",
  "The expected-value error equals the squared Euclidean distance between the means of the evaluation points weighted by target and by sampler density, both normalised; it is zero when the densities agree up to scale and never negative. Metric evaluation points are drawn uniformly over the target's support, in the requested number.",
  ["inputs"],
  "Every pair of densities, dimension 1..3, point set and scale; every support box and sample count.",
  "No test covers this metric.",
  [M + "statistics.py", M + "divergences.py"], [("compute, compute_from_samples", "metrics/statistics.py")],
  ["compute(), compute_from_samples(), points received by p and q"])

B = "ais_benchmarks/benchmark/"
p("B01", "The result file is rectangular and every cell is what its column says",
  "Every line of a benchmark's result file has exactly as many space-separated fields as the header, in the header's order. Each row carries the target's dimension, the number of samples held, each configured metric's value under its own name, the quality figures, names and evaluation counts of exactly the sampler state it was written for, for any selection and order of metrics.",
  ["inputs", "configurations"],
  "Every selection and order of metrics x method x target x magnitude of values.",
  "No test covers the benchmark module.",
  [B + "CBenchmark.py"], [("run, write_results, evaluate_method", "benchmark/CBenchmark.py")], ["the result file", "sampler statistics"])
p("B02", "The evaluation loop measures each batch in the right order and terminates",
  "Each repetition starts by resetting the sampler and all metrics, then requests one batch more than is held until the requested total is reached, bracketing every request with the metrics' start and stop, then reads each metric on that state and writes one row per request. When the accumulated sampling time exceeds the limit the repetition stops after recording the partial result, each request being given only the time that remains.",
  ["histories", "configurations", "fault_sequences"],
  "Batch sizes, totals, repetitions, samplers that over- or under-deliver, slow samplers hitting the limit, metric selections.",
  "No test covers the benchmark module.",
  [B + "CBenchmark.py"], [("evaluate_method", "benchmark/CBenchmark.py")], ["calls received by sampler and metrics; result rows"])
p("B03", "With a fixed seed a benchmark is reproducible and order-independent",
  "Two evaluations with the same seed, method parameters and target produce identical samples, metric values and result rows except for time and memory figures. The outcome for a method does not depend on which methods or targets were evaluated before it in the same process, nor on the state of the random generator at the start; a negative seed leaves the generator untouched.",
  ["histories", "configurations"],
  "Every method x seed x order of methods and prior random-generator use.",
  "No test covers the benchmark module.",
  [B + "CBenchmark.py"] + ALL, [("np.random.seed, reset", "benchmark/CBenchmark.py")], ["result rows, samples"])
p("B04", "Configuration files produce exactly the targets and methods they describe",
  "Loading a benchmark yields its targets in file order with the given name, parameters, support, batch size and sample counts, and loading methods yields them in order with the given name and parameters, each on exactly the target's support bounds and dimension (full precision). Loading again replaces what was loaded before, the shipped configuration files load, and a broken entry is reported as an error.",
  ["inputs", "configurations", "histories"],
  "Every well-formed file over the shipped target and method types, supports with non-round bounds, and sequences of loads.",
  "No test covers the benchmark module.",
  [B + "CBenchmark.py", B + "def_benchmark.yaml", B + "def_methods.yaml", B + "def_config.yaml", B + "benchden/def_benchmark_benchden.yaml"],
  [("load_benchmark, load_methods, load_config, to_dict", "benchmark/CBenchmark.py")], ["targets, methods and their attributes"])

p("U01", "The stream reader delivers each line once, in order, whatever the schedule",
  "Under every interleaving of incoming lines and reads, the non-blocking reader returns lines in arrival order, each at most once and none invented, and an empty result only when no line is waiting. Skipping to the latest returns the newest line received so far and drops the older ones; when asked to keep it, that line is returned by the next read before any line that arrives later.",
  ["schedules", "histories"],
  "All interleavings of a producer of up to 3-4 lines with up to 4 reader calls (read, skip-to-latest with and without keeping), end of stream at any point.",
  "No test covers it, and a test samples one schedule.",
  ["ais_benchmarks/utils/misc.py"], [("CNonBlockingStreamReader", "utils/misc.py")], ["read(), read_last_and_clear()"])
p("U02", "Grids, durations and generated mixtures are exact over their whole domain",
  "A grid covers the box: every combination of evenly spaced coordinates including both ends occurs exactly once, with as many points per dimension as whole resolution steps fit in (at least one) and as reported. Splitting a duration gives hours, minutes below 60 and seconds below 60 that add back up, and generated mixtures have the requested number of components placed five scales inside the space (on the grid, for the egg box) with weights that sum to one and as support the box reaching five scales around them (around the space, for the egg box).",
  ["inputs"],
  "Box, resolution, dimension 1..3; durations; component counts and scales.",
  "No test covers the helpers.",
  ["ais_benchmarks/utils/misc.py", "ais_benchmarks/sampling_methods/base.py", "ais_benchmarks/utils/plot_utils.py"],
  [("make_grid, time_to_hms, generateRandomGMM, generateEggBoxGMM", "utils/misc.py, sampling_methods/base.py")], ["return values"])
p("V01", "Drawing a sequence leaves exactly the latest element of each object on screen",
  "After drawing any sequence of visual elements, the figure shows exactly one drawing per object identifier, that of its last occurrence, with the elements of replaced drawings removed. Objects with other identifiers are never disturbed, and drawn functions, points and axes carry the data of the element.",
  ["histories", "inputs"],
  "Every sequence of point, function and axis elements over a few identifiers (same or changing type).",
  "No test covers visualisation.",
  ["ais_benchmarks/visualization/matplotlib/viz_interface.py", "ais_benchmarks/visualization/visuals.py"],
  [("draw_sequence, draw_item", "visualization/matplotlib/viz_interface.py")], ["artists present on the axes"])
p("V02", "Drawing shows the current state, leaves no residue and changes nothing",
  "Drawing a sampler or a distribution on axes shows the state it is in: the density over the space (a curve; level lines where the density has that level), mixture components times their weight, stems at samples with heights in proportion to weights, one box per leaf of a tree method, marks at live points, proposals and steps of a chain, and random functions (also ABC) as their mean within a band over their support. A sampler hands out exactly the elements it added, so removing them leaves the axes as they were, and elements of others and other axes are left alone. Drawing changes neither samples, weights, counters, densities nor conditions, nor (samplers and closed densities) the random numbers, so everything later is as if it had never been drawn.",
  ["histories", "inputs"],
  "Every method configuration and density family in 1-3 dimensions, every order of requests, drawings, removals and elements of others.",
  "No test looks at what is drawn.",
  ["ais_benchmarks/sampling_methods", "ais_benchmarks/distributions", "ais_benchmarks/utils/plot_utils.py"],
  [("draw, draw1d, draw2d, draw3d, draw_2d_tree, draw_3d_tree", "sampling_methods/*.py"), ("draw", "distributions/*"), ("plot_pdf, plot_pdf2d, plot_grid_sampled_pdfs", "utils/plot_utils.py")], ["artists present on the axes", "later results"])

if __name__ == "__main__":
    import re
    for q in P:
        assert re.match(r"^[A-Z][0-9]{2,3}$", q["id"])
        n = len(re.findall(r"[.!?](?:\s|$)", q["statement"]))
        assert n <= 3, (q["id"], n)
    with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
        for q in P:
            f.write(json.dumps(q) + "\n")
    print(len(P), "properties")
