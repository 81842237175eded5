"""Single source of the property catalogue: tools/gen.py writes properties.jsonl and MANIFEST.json from it."""

D = "ais_benchmarks/distributions/"
S = "ais_benchmarks/sampling_methods/"
ALLS = [S + f for f in ("base.py", "dm_ais.py", "layered_ais.py", "m_pmc.py", "metropolis_hastings.py", "nested.py",
                        "multi_nested.py", "rejection.py", "hi_daisee.py", "tree_pyramid.py")]
ALLD = [D + f for f in ("parametric/CMultivariateNormal.py", "parametric/CMultivariateUniform.py",
                        "parametric/CMultivariateExponential.py", "benchden/d01_uniform.py",
                        "benchden/d02_exponential.py", "benchden/d03_maxwell.py", "benchden/d04_laplace.py",
                        "benchden/d10_symmetric_pareto.py", "mixture/CMixtureModel.py",
                        "mixture/CGaussianMixtureModel.py", "rare/banana2d.py")]

PROPS = []


def P(id, title, statement, over, qtext, why, files, mech, observe, technique, note, state=None):
    PROPS.append(dict(id=id, title=title, statement=statement,
                      quantifier={"over": over, "text": qtext}, why_tests_cant=why,
                      anchors={"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                               "state": [{"name": n, "meaning": m, "where": w} for n, m, w in (state or [])],
                               "observe_at": observe, "hook_needed": None},
                      technique=technique, note=note))


# ------------------------------------------------------------------------------------------------ distributions
P("D01", "Every analytic distribution evaluates to its documented density",
  "For every normal, uniform, exponential, Maxwell, Laplace, symmetric Pareto, banana, Gaussian-mixture and mixture "
  "distribution, the density and the log density returned at any point equal the documented closed form for the "
  "distribution's current parameters, including after the moments or weights have been changed. All of them but the "
  "banana integrate to one; points outside the support of a bounded or half-line distribution have density 0 and log "
  "density -inf.",
  ["inputs", "configurations", "histories"],
  "all parameters (dimension, location, scale, full covariances, weights), all evaluation points, all sequences of "
  "parameter updates",
  "The suite evaluates the normal and the uniform at a handful of points with one or two parameter sets; it never "
  "evaluates the other families, updates a distribution, nor looks at the tails, the boundary or higher dimensions.",
  ALLD, [("closed form log_prob / prob per family", D + "parametric, benchden, mixture, rare"),
         ("set_moments refreshes the cached inverse, determinant and normalisation", D + "parametric/CMultivariateNormal.py")],
  ["prob()", "log_prob()"],
  "runtime monitoring: online reference-model oracle (scipy closed forms and quadrature) over generated evaluation histories",
  "Exploration: every value the real code returns on generated parameters, points and update histories is compared with an "
  "independent closed form (relative 1e-8 in log space) and normalisation is checked by quadrature; trusts scipy.stats.")
P("D02", "prob and log_prob describe one density, row by row and without side effects",
  "For every distribution, the density is exactly the exponential of the log density, one value is returned per point, "
  "and the value of a point does not depend on which other points are evaluated with it, on their order, on the memory "
  "layout of the array, or on whether the point is passed alone. Evaluating never changes the input array or the "
  "distribution.",
  ["inputs", "histories"],
  "all batches (sizes 1..N, permutations, slices, strided or read-only arrays, points outside of the support), any number "
  "of repeated evaluations",
  "Tests compare prob and log_prob against fixed expected values for a single small batch of the normal and the uniform only.",
  ALLD + [D + "nonparametric/CKernelDensity.py", D + "distributions.py"],
  [("shape normalisation of the evaluated points", D + "distributions.py"),
   ("per-row evaluation", D)],
  ["prob()", "log_prob()"],
  "runtime monitoring: metamorphic trace oracle (batch vs row, permutation, layout, repetition) plus input/state fingerprints",
  "Exploration: metamorphic relations between executions of the real code, inputs fingerprinted before and after each call.")
P("D03", "Samples follow the density of the distribution they are drawn from",
  "Drawing n samples returns an n-by-dimensions array for every n >= 1 whose points are distributed according to the "
  "distribution's own density, for the current parameters. Points always have positive density and, for bounded "
  "distributions, lie inside the support; successive draws are independent and asking for several samples at once has the "
  "same law as asking one by one.",
  ["inputs", "configurations", "histories"],
  "all samplable distributions (normal, uniform, exponential, delta, mixtures, Gaussian mixtures), parameters, sample counts "
  "and orders of draws and parameter updates",
  "Distributional correctness is a statement about the law of the output; the tests only look at shapes and a mean for one "
  "configuration.",
  [D + "parametric/CMultivariateNormal.py", D + "parametric/CMultivariateUniform.py",
   D + "parametric/CMultivariateExponential.py", D + "parametric/CMultivariateDelta.py",
   D + "mixture/CMixtureModel.py", D + "mixture/CGaussianMixtureModel.py"],
  [("per family sample()", D + "parametric"), ("component selection by normalised weights", D + "mixture/CMixtureModel.py")],
  ["sample()"],
  "runtime monitoring: offline statistical oracle (KS / chi-square / moments with confirm-on-retest) over recorded draws",
  "Exploration: laws are tested at p<1e-6 with independent confirmation (false alarm < 1e-11 per test); deviations smaller than "
  "the sample size resolves (about 1-2% of mass) are not seen.")
P("D04", "Box integrals and supports report the probability mass they claim",
  "The integral of a distribution over a box is the probability of the box: between 0 and 1, zero for boxes away from the "
  "support, additive over a split of the box, and one over a box covering the support. The support is a finite "
  "2-by-dimensions array of lower and upper limits; it is exact for uniforms and default supports hold at least 98 percent of the "
  "mass of every dimension (the heavy-tailed Pareto is cut at its documented +-20).",
  ["inputs", "configurations"],
  "all boxes (inside, overlapping, containing, disjoint, degenerate slivers), all parameters and dimensions, list or array "
  "parameters",
  "Tests integrate the normal and the uniform over two or three boxes that overlap the support; disjoint and partially "
  "overlapping boxes are not tried.",
  [D + "distributions.py", D + "parametric/CMultivariateUniform.py", D + "parametric/CMultivariateDelta.py",
   D + "parametric/CMultivariateNormal.py"],
  [("closed form box measure", D + "parametric/CMultivariateUniform.py"),
   ("hit-or-miss Monte Carlo integral", D + "distributions.py"), ("default support at 6 sigma", D + "parametric/CMultivariateNormal.py")],
  ["integral()", "support()"],
  "runtime monitoring: online oracle with exact box measures, additivity and monotonicity relations, supports against scipy masses",
  "Exploration: exact oracle for uniform and delta; Monte-Carlo integrals judged at 6 standard errors with confirmation.")
P("D05", "Mixtures are the normalised weighted sum of their components",
  "The density of a mixture is the sum of its component densities weighted by the given weights normalised to one, where "
  "NaN, negative and zero weights count as zero and all components count equally if no weight is usable. This depends only "
  "on the last weights that were set, whatever was set before; the weights array of the caller is never changed, nor can "
  "later changes of that array alter the mixture.",
  ["inputs", "histories"],
  "all weight vectors (unnormalised, NaN, negative, zero, tiny, huge), numbers and kinds of components including nested "
  "mixtures, and all sequences of weight updates",
  "No test of the suite touches a mixture.",
  [D + "mixture/CMixtureModel.py", D + "mixture/CGaussianMixtureModel.py"],
  [("weight clean-up and normalisation", D + "mixture/CMixtureModel.py"), ("log-sum-exp evaluation", D + "mixture/CMixtureModel.py")],
  ["prob()", "log_prob()", "set_weights()"],
  "runtime monitoring: reference-model oracle replaying weight-update histories, alias probes on the caller's arrays",
  "Exploration: exact weighted sums computed from the components' own log densities, over random update histories.")
P("D06", "A kernel density estimate is the average of its kernels",
  "The density of a kernel density estimate at any point is the average, by its normalised sample weights, of the kernels "
  "centred at its samples with the configured bandwidth (a product over dimensions), in any dimension, and it integrates to one. Evaluating far from every sample gives a "
  "vanishing density, never NaN.",
  ["inputs", "configurations"],
  "all sample sets (including repeated and single samples), bandwidths, dimensions and evaluation points",
  "The kernel density estimate is not covered by the suite.",
  [D + "nonparametric/CKernelDensity.py"],
  [("log-sum-exp over kernels", D + "nonparametric/CKernelDensity.py")],
  ["prob()", "log_prob()"],
  "runtime monitoring: reference-model oracle (explicit kernel sum) and quadrature over generated sample sets",
  "Exploration: explicit double-loop reference with scipy normal kernels, quadrature in 1-D and 2-D.")
P("D07", "Derived models evaluate and generate from the last condition that was set",
  "The approximate-Bayesian posterior equals prior density times surrogate likelihood of the observation last conditioned "
  "on, a noisy function's density is its noise density centred at the function value of the last condition, and generated "
  "observations are function values plus noise. Evaluating the posterior or the noisy function, or generating, before conditioning "
  "is an error, and conditioning again fully replaces the previous condition.",
  ["inputs", "histories"],
  "all sequences of conditioning, evaluation and sampling; all batches, priors, noise and generative functions; likelihood "
  "given in plain or log form",
  "The derived models have no tests; the statement is about histories of condition and evaluate calls.",
  [D + "derived/CABCDistribution.py", D + "derived/CGenericNoisyFunction.py", D + "derived/GenericNuisanceGenModel.py"],
  [("condition() / generate()", D + "derived"), ("log prior + log surrogate likelihood", D + "derived/CABCDistribution.py")],
  ["condition()", "prob()", "log_prob()", "sample()"],
  "runtime monitoring: history replay against a reference model of condition/evaluate, statistical oracle for generation",
  "Exploration over random call histories; surrogate likelihoods are supplied by the harness.")

# ------------------------------------------------------------------------------------------------ samplers
P("S01", "Every sampling method returns a usable weighted sample set",
  "Asking any sampling method for n samples of a target returns at least n points (when no time limit intervenes) as an "
  "M-by-dimensions array with exactly one weight per point, all finite, non-negative and not all zero when some point has "
  "positive target density. Self-normalised methods return weights that sum to one, unweighted methods return equal "
  "weights, and methods bound to the domain (rejection, Metropolis-Hastings, nested, multi-nested, hierarchical partition) "
  "return only points inside of it.",
  ["inputs", "configurations", "histories"],
  "all methods and their parameters (including one sample per iteration, fewer samples than components), targets "
  "(multimodal, partly zero, unnormalised), anisotropic and shifted domains, dimensions and sequences of requests",
  "No test runs a sampling method.",
  ALLS, [("importance_sample() of every method", S)],
  ["importance_sample()"],
  "runtime monitoring: contract monitor on every returned sample set under generated configurations and request histories",
  "Exploration over a hostile configuration grid; methods and options declared unfinished by the code are excluded (DESIGN.md).")
P("S02", "Requests are cumulative: asking for more keeps what was already obtained",
  "The requested number of samples counts those already obtained: a later request returns the earlier points, unchanged and "
  "in the same order, followed by the new ones, and a request that is already satisfied generates no new points and returns the "
  "same set and the same estimates again (the hierarchical partition may regroup its points, tree pyramids replace the points of "
  "cells they subdivide, and multi-nested sampling always adds a point per ellipsoid). Obtaining n samples through several "
  "growing requests yields at least n points, and never more than one iteration beyond n.",
  ["histories"],
  "all sequences of request sizes (growing, repeated, shrinking), for every method that accumulates samples",
  "The benchmark loop depends on this for every partial result, but no test makes two requests.",
  ALLS, [("sample accumulation across calls", S)], ["importance_sample()"],
  "runtime monitoring: trace checker (prefix preservation, idempotent satisfied requests) over random request histories",
  "Exploration over random request histories; multi-nested adds at least one point per cluster by design and is only checked for "
  "prefix preservation.")
P("S03", "Importance weights are target density over the density that generated the point",
  "Deterministic-mixture, layered and mixture population Monte Carlo weight every new point proportionally to the target "
  "density divided by the proposal density in force when the point was drawn; partition methods weight a point by target "
  "density times cell volume shared among the points of the cell; nested sampling weights a point by its likelihood times "
  "the prior mass shell exp(-i/N)-exp(-(i+1)/N). Multiplying the target by a constant leaves all normalised weights and all "
  "sampling decisions unchanged (not for rejection sampling and the optimistic hierarchical method, whose envelope and boost are in "
  "target units).",
  ["inputs", "histories", "configurations"],
  "all targets (including unnormalised by factors 1e-8..1e8), configurations and request histories",
  "Weight correctness relates internal proposal states over time to outputs; the suite never inspects a weight.",
  ALLS[1:4] + ALLS[5:7] + ALLS[8:10],
  [("weight computation before adaptation", S + "dm_ais.py"), ("per iteration normalised weights", S + "m_pmc.py"),
   ("leaf volume weights", S + "hi_daisee.py, tree_pyramid.py"), ("prior mass shells", S + "nested.py, multi_nested.py")],
  ["importance_sample()", "prob() of the proposal before the call"],
  "runtime monitoring: online checker recomputing every weight from the proposal snapshot taken before the iteration; scaled-target twin runs",
  "Exploration: exact recomputation (1e-6 relative) for single-iteration steps, twin runs with identical random streams for scale "
  "invariance.")
P("S04", "Weighted samples estimate expectations under the target consistently",
  "For targets the method can cover, averages over the returned weighted samples approach the expectation under the "
  "normalised target as the number of samples grows, for every sampling method and for any expectation that exists. The "
  "error is compatible with Monte Carlo error: there is no systematic bias left.",
  ["inputs", "configurations"],
  "all methods, targets with bounded importance ratio, dimensions, domains and moments",
  "A statement about the law of the output of randomised algorithms; no test runs a sampler.",
  ALLS, [("sampling and weighting", S)], ["importance_sample()"],
  "runtime monitoring: offline statistical oracle (replicated runs, z-tests with confirm-on-retest) on recorded sample sets",
  "Exploration: bias is detected if larger than about 4-5 standard errors of 60-200 replicated runs plus a small allowance; asymptotic claim "
  "checked at finite sample size.")
P("S05", "The proposal each method exposes is a proper density that its own draws follow",
  "After sampling, the density exposed by every sampling method is non-negative, equals the exponential of its exposed log "
  "density, integrates to one, and is the law of the points the method draws when asked for proposal samples.",
  ["inputs", "configurations", "histories"],
  "all methods, targets, domains, dimensions, after any history of requests",
  "The divergence metrics compare this density with the target, but no test evaluates it.",
  ALLS, [("model built from samples or partition", S)], ["prob()", "log_prob()", "sample()"],
  "runtime monitoring: quadrature and statistical oracle on the exposed density after random request histories",
  "Exploration: integral by importance quadrature with error bars, law by chi-square/KS with confirmation. Metropolis-Hastings draws "
  "come from its chain, so only its density is checked.")
P("S06", "Space partitions stay exact partitions",
  "At every moment, the cells of the partition-based methods are disjoint and cover the root box exactly; every point of "
  "the box is found in the one cell that contains it, and every stored point lies in the cell that stores it (uniform "
  "kernel). The level of a cell is its distance to the root, and in the hierarchical method each inner node's value is the sum of its children's values.",
  ["histories", "inputs"],
  "all histories of splits, requests and resets, for any domain and dimension",
  "Structural invariants over unbounded split histories; no test builds a partition.",
  [S + "tree_pyramid.py", S + "hi_daisee.py"],
  [("leaf expansion", S + "tree_pyramid.py"), ("leaf split and sample redistribution", S + "hi_daisee.py")],
  ["tree state after each request"],
  "runtime monitoring: invariant monitor on the live tree after every split and request (volume conservation, containment, lookup)",
  "Exploration: invariants evaluated after every request and, through wrapped split operations, after every split.")
P("S07", "Reported evaluation and sample counts equal the work actually done",
  "The number of target evaluations reported by a sampling method equals the number of points at which the target was "
  "actually evaluated since the last reset, and the number of proposal samples equals the number of points actually drawn "
  "from proposals. The statistics report agrees with the individual counters, counters never decrease between resets, and "
  "the acceptance rate is a fraction between 0 and 1 consistent with what was accepted.",
  ["histories", "configurations"],
  "all methods, configurations, targets, request histories with resets and time-outs",
  "The counts are the benchmark's cost axis; no test counts anything.",
  ALLS, [("evaluation counters", S)], ["get_stats()", "num_target_evals", "num_proposal_samples", "get_acceptance_rate()"],
  "runtime monitoring: counting instrumentation around target and proposal, conservation check after every call",
  "Exploration: exact equality between wrapped-call counts and reported counters.")
P("S08", "Reset forgets everything",
  "After a reset, a sampling method behaves exactly like one that was never used: given the same random state it produces "
  "the same samples, weights, statistics and proposal density for any following requests, whatever happened before. "
  "Counters and stored samples are empty right after the reset.",
  ["histories"],
  "all histories before the reset (other targets, other sizes, time-outs, hundreds of samples) and all requests after it",
  "The benchmark resets between repetitions; no test calls reset.",
  ALLS, [("reset() of every method", S)], ["importance_sample()", "get_stats()", "prob()"],
  "runtime monitoring: differential executions (used+reset vs fresh+reset, same random stream) compared event by event",
  "Exploration over random pre-histories; bitwise-level comparison (1e-12); the fresh sampler runs in a process of its own.")
P("S09", "Sampling methods are isolated from each other and leave the target alone",
  "Interleaving requests to several method instances gives each of them exactly the results it obtains alone with the same "
  "random stream, and results are reproducible from the random seed. Sampling never modifies the target distribution, the "
  "configuration arrays of the caller (domain limits), or sample sets already handed out.",
  ["schedules", "histories"],
  "all interleavings of requests to instances of the same or of different methods, with shared targets, parameter arrays and parameter dictionaries",
  "Requires running several samplers in many interleavings.",
  ALLS + ["ais_benchmarks/benchmark/CBenchmark.py"],
  [("per-instance state", S)], ["importance_sample()", "target parameters"],
  "runtime monitoring: interleaving scheduler with per-instance random streams, differential oracle, fingerprints of shared objects",
  "Exploration over random interleavings; each instance also runs alone in a process of its own; handed-out arrays fingerprinted.")
P("S10", "Metropolis-Hastings is a correct Markov chain for the target",
  "Every step moves to the proposed point or stays at the current one, stays inside the domain, and follows the "
  "Metropolis-Hastings acceptance rule for the configured proposal, symmetric or not; long chains visit regions in "
  "proportion to the target. The recorded trajectory has one entry per proposal, and its labels (rejected, burn-in, "
  "decorrelation, sample) match what happened; burn-in happens once per chain and each returned sample is the chain state "
  "after the configured number of steps.",
  ["inputs", "histories", "configurations"],
  "all targets, proposals (symmetric and asymmetric), domains, burn-in and thinning settings, request histories",
  "Stationarity and the acceptance rule are properties of whole chains; no test runs one.",
  [S + "metropolis_hastings.py"],
  [("Metropolis-Hastings step", S + "metropolis_hastings.py")], ["trajectory", "importance_sample()"],
  "runtime monitoring: trace replay of every transition against the acceptance rule, statistical oracle for stationarity and acceptance",
  "Exploration: transitions replayed from recorded proposals and target calls; stationarity by batched chi-square with confirmation.")
P("S11", "Nested sampling peels off points of increasing likelihood",
  "In nested sampling (when no time limit intervenes) the likelihoods of successive output points never decrease, every "
  "live point is at least as likely as the last output point, live points stay inside the domain and their number never "
  "changes. Output points carry the likelihood of the target at that point; in the multi-ellipsoid variant the same holds "
  "per ellipsoid until it has converged.",
  ["histories", "inputs"],
  "all targets, live-point counts, proposals, domains and request histories",
  "An invariant over the whole run; no test runs nested sampling.",
  [S + "nested.py", S + "multi_nested.py"],
  [("replacement by a point above the likelihood threshold", S + "nested.py")], ["samples", "live points"],
  "runtime monitoring: online trace checker on output order, live points and likelihoods after every request",
  "Exploration; clusters of the multi-ellipsoid variant are read from its public state when available.")
P("S12", "Rejection sampling accepts exactly with probability target over envelope",
  "Rejection sampling accepts a proposed point with probability target density over scaled proposal density, so that with a "
  "valid envelope the accepted points are exact draws of the normalised target, the acceptance rate estimates the ratio of "
  "their masses, and all weights are equal. No accepted point has zero target density, and proposals are consumed only "
  "while samples are missing.",
  ["inputs", "configurations"],
  "all targets, scalings, proposals, request histories",
  "Exactness in law; no test runs the sampler.",
  [S + "rejection.py"], [("accept test", S + "rejection.py")], ["importance_sample()", "get_acceptance_rate()"],
  "runtime monitoring: per-proposal acceptance log with calibrated-probability oracle, KS/chi-square on accepted points",
  "Exploration: acceptance indicator vs. probability tested in bins with confirmation.")
P("S13", "Time limits bound every sampling call",
  "When the time limit of a request expires, every sampling method returns after finishing at most the iteration in "
  "progress, with a consistent (possibly smaller) weighted sample set, and a later request continues from it. A generous "
  "limit never changes the result compared with no limit.",
  ["fault_sequences", "histories", "configurations"],
  "all methods, limits and clock behaviours (slow target evaluations, expiry at any point of the call)",
  "Needs a controllable clock and expiry injected at every point; tests never pass a time limit.",
  ALLS, [("elapsed-time checks in the sampling loops", S)], ["importance_sample(timeout)"],
  "runtime monitoring: virtual clock advanced by target evaluations, expiry injected at many points, bounded-work monitor",
  "Exploration on a deterministic virtual clock; the allowance is one iteration (batch) of work after expiry.")
P("S14", "Targets only need batch evaluations of density and log density",
  "Sampling methods evaluate the target only through its density or log density with N-by-dimensions batches of finite "
  "floating point values, so any object offering those and returning N values works, and the values it returned are left untouched. Results "
  "depend on the target only through these values: replacing the target by an equivalent object gives the same results.",
  ["programs", "inputs"],
  "all target objects implementing the two evaluations (strict shape checking, read-only, plain functions without other attributes)",
  "Tests never pass a target to a sampling method.",
  ALLS, [("target evaluation calls", S)], ["target.prob()", "target.log_prob()"],
  "runtime monitoring: strict proxy target recording every access and argument, differential runs against the plain target",
  "Exploration: proxies that reject anything but N x d float arrays and that expose nothing but prob/log_prob.")
P("S15", "Adaptation moves proposals to where the target has mass",
  "Deterministic-mixture sampling recentres its proposals only on points of the last batch, chosen in proportion to their "
  "weights; layered sampling moves its centres only by Metropolis steps of the target inside the domain; mixture population "
  "Monte Carlo sets component weights and means to their responsibility-weighted averages of the last batch. Proposals keep "
  "their number and configured spread, component weights stay a probability vector, and batches without target mass leave "
  "the proposals where they were.",
  ["histories", "inputs", "configurations"],
  "all targets, configurations and histories, including batches whose weights are all zero or concentrated on one point",
  "A relation between successive internal proposals; no test observes them.",
  ALLS[1:4], [("resample()", S + "dm_ais.py"), ("mcmc moves of the proposal centres", S + "layered_ais.py"),
              ("Rao-Blackwellised updates", S + "m_pmc.py")],
  ["exposed proposal density before and after an iteration"],
  "runtime monitoring: step-by-step checker of proposal transitions against the documented update rules",
  "Exploration; the component covariance update deviates from its documented formula (known finding) and is matched exactly.")

P("S16", "The reported efficiency is the effective sample size of the returned set",
  "The normalised effective sample size reported by the importance-weighted methods is (sum of weights)^2 / (n * sum of squared "
  "weights) of the n returned weights, and for nested and multi-nested sampling the exponential of the entropy of the normalised "
  "weights divided by n: always between 1/n and 1, and 1 exactly for equal weights, whatever their scale and order. For rejection sampling "
  "and Metropolis-Hastings it is the autocorrelation estimate of the returned sequence, in any dimension: it does not depend on "
  "the position or unit of the samples, is near 1 for long independent sequences and near (1-r)/(1+r) for correlation r. "
  "It always refers to the current set, and reading it has no effects.",
  ["inputs", "histories", "configurations"],
  "all methods, targets, dimensions, configurations and histories of requests and resets",
  "Tests never look at it; the benchmark writes it in every row of its results.",
  ["ais_benchmarks/sampling_methods/base.py", "ais_benchmarks/sampling_methods/nested.py", "ais_benchmarks/sampling_methods/multi_nested.py",
   "ais_benchmarks/sampling_methods/tree_pyramid.py"],
  [("CSamplingMethod.get_NESS / get_approx_NESS", S + "base.py"), ("nested get_NESS", S + "nested.py"), ("tree get_NESS", S + "tree_pyramid.py")],
  ["CSamplingMethod.get_NESS()", "get_stats()['NESS']"],
  "runtime monitoring: every reading compared with the effective sample size recomputed from the returned set; injected sequences of known autocorrelation",
  "Exploration of histories, configurations and synthetic sequences.")

P("S17", "Partition methods divide and draw from cells by the evidence found in them",
  "The hierarchical method reaches the cell of each new point by choosing halves in proportion to their values, values only the "
  "visited cell anew (mean weight of its points plus boost sigma*sqrt(log t/n), relative to the sum of the same over all visited cells), and halves "
  "a cell, along a dimension chosen evenly, exactly when it holds the configured minimum of points and their effective "
  "sample size is below the target share; tree pyramids divide the cells of largest importance volume first, as many per step as "
  "the parallel sampling units require, and, with an efficiency target, only cells of enough points whose "
  "effective sample size is not above it, while other cells in turn get one more point. After any history of requests the exposed density gives every "
  "cell its share of the estimated evidence: the mean weight of its points in the hierarchical method, the weight of its latest point in tree pyramids. "
  "Tree pyramids return exactly the points their cells hold: the latest one of each, or with an efficiency target all of positive weight, each with its share of the weight of its cell.",
  ["histories", "inputs", "configurations"],
  "all targets, domains, dimensions, configurations and histories of requests and resets, deep partitions included",
  "Which cell is refined next depends on the whole history; no test builds a partition.",
  [S + "tree_pyramid.py", S + "hi_daisee.py"],
  [("traversal, values and division criterion of the hierarchical method", S + "hi_daisee.py"),
   ("expansion order, criterion and number", S + "tree_pyramid.py"), ("densities of partitions", S + "hi_daisee.py, tree_pyramid.py")],
  ["tree state before and after each iteration", "prob()"],
  "runtime monitoring: every iteration judged from the tree before and after it (rule checker) and statistical test of the choices",
  "Exploration; deterministic rules are judged exactly, random choices statistically with confirmation.")

P("S18", "Nested searches replace their least likely point by the first likely enough one",
  "A nested search starts from points drawn uniformly in the domain, keeps its live points from one request to the next and, until it is out of time, "
  "puts out the least likely live point and takes the first candidate at least as likely in its place, looking at no further candidate. The candidates "
  "of the single-ellipsoid search are increments of the configured proposal added to one evenly chosen live point and cut to the domain; those of the "
  "multi-ellipsoid search are Gaussian with the mean and, inflated by the configured factor, the covariance of the cluster searched, clusters are never "
  "smaller than one more than the dimensions unless all points form one, and a cluster whose ellipsoid has shrunk to the convergence radius takes its first candidate.",
  ["histories", "inputs", "configurations"],
  "all targets, domains, dimensions, configurations and histories of requests and resets",
  "The candidates, clusters and live points of a search are not returned; tests only look at the samples of one search.",
  [S + "nested.py", S + "multi_nested.py"],
  [("replacement, candidates and live points", S + "nested.py"), ("clusters, ellipsoids and replacement", S + "multi_nested.py")],
  ["points evaluated by the target", "increments drawn", "samples returned", "ellipsoids"],
  "runtime monitoring: replay of the recorded evaluations against a model of the live points and statistical test of the candidates",
  "Exploration; replacements are judged exactly, candidates statistically with confirmation.")

P("S19", "Measuring, evaluating or reporting never changes a sampler",
  "Between the requests of a history any number of density evaluations, statistics, efficiencies, acceptance rates, metrics, text "
  "representations and switches of the debug flag may be made: samples, weights, counters, densities and everything obtained later are those of "
  "the same history without them, the target is not evaluated, and the same question asked twice has the same answer even if the first answer was overwritten.",
  ["histories", "inputs"],
  "all methods, targets, configurations and histories of requests, time-outs, draws and resets with observations anywhere in between",
  "Tests evaluate a sampler once after a single request, with the debug flag off.",
  ALLS + ["ais_benchmarks/metrics/divergences.py", "ais_benchmarks/metrics/statistics.py"],
  [("prob(), log_prob(), get_stats(), get_NESS(), get_acceptance_rate(), debug", S), ("compute()", "ais_benchmarks/metrics/")],
  ["samples, weights and counters around every observation", "results of twin histories", "random state", "target evaluations"],
  "runtime monitoring: twin histories with and without injected observations, state comparison around each observation",
  "Exploration; comparison is exact.")

P("S20", "The kernel estimates exposed by sample-based methods are made of their samples",
  "After every request, whatever happened before, the density exposed by rejection sampling, Metropolis-Hastings and the nested methods is an "
  "equally weighted mixture of the configured number of normal kernels of the configured bandwidth (a variance, the same in every dimension), each "
  "centred on a sample obtained since the last reset, independently and evenly chosen among all of them, the first and the latest included.",
  ["histories", "inputs", "configurations"],
  "all targets, domains, numbers of kernels, bandwidths and histories of requests, time-outs, draws and resets",
  "Tests evaluate one density with a wide bandwidth, in which single kernels cannot be told apart.",
  [S + "base.py", S + "rejection.py", S + "metropolis_hastings.py", S + "nested.py", S + "multi_nested.py"],
  [("kernel estimate of the samples", S + "base.py"), ("bandwidth and number of kernels", S)],
  ["prob() and log_prob() at and around the samples", "returned samples"],
  "runtime monitoring: kernels counted through densities at the samples under non-overlapping bandwidths; calibrated tests of their choice",
  "Exploration; counts and shapes are exact (1e-6), the choice is tested at p<1e-6 with confirmation.")

# ------------------------------------------------------------------------------------------------ metrics
P("M01", "Divergences have the value and the laws of the divergence they name",
  "The KL metric returns the discrete Kullback-Leibler divergence between the two densities normalised over the evaluated "
  "points where both are positive (infinite without such points), the JS metric the Jensen-Shannon divergence in bits over "
  "all evaluated points: symmetric, between 0 and 1, zero only for equal and one only for disjoint densities. Both are "
  "non-negative, invariant to rescaling either density and to the order of the points, leave their inputs untouched and "
  "keep the last value available.",
  ["inputs"],
  "all pairs of densities (peaked, disjoint, partially overlapping, with zeros, NaNs and huge dynamic range), all point sets",
  "Tests use a few normal pairs against an analytic value with wide tolerance, and never zeros or disjoint densities.",
  ["ais_benchmarks/metrics/divergences.py"],
  [("normalisation over common support", "ais_benchmarks/metrics/divergences.py")], ["compute()", "compute_from_samples()", "value"],
  "runtime monitoring: reference-model oracle with high-precision sums over generated density pairs and metamorphic relations",
  "Exploration: independent math.fsum reference, 1e-9 relative.")
P("M02", "Expected-value error is the squared distance between the means",
  "The expected-value metric returns the squared Euclidean distance between the means of the two densities, each normalised "
  "over the evaluated points drawn in the target's support; it is zero for equal densities, symmetric, invariant to "
  "rescaling and converges to the true squared distance of the means. It leaves its inputs untouched.",
  ["inputs"],
  "all pairs of densities, dimensions, supports and point sets",
  "The metric has no test.",
  ["ais_benchmarks/metrics/statistics.py"], [("self-normalised expectations", "ais_benchmarks/metrics/statistics.py")],
  ["compute()", "compute_from_samples()", "value"],
  "runtime monitoring: reference-model oracle (math.fsum) over generated density pairs, convergence oracle on Gaussian pairs",
  "Exploration.")
P("M03", "Performance metrics accumulate what happened between start and stop only",
  "The time metric reports the accumulated time between start and stop marks since the last reset, corrected by its measured "
  "constant overhead per interval, and the memory metric the accumulated change of live memory in megabytes between start and stop "
  "marks since the last reset. Time and allocations outside the marks do not count, reading is free of effects, and a reset "
  "returns the value to zero.",
  ["histories", "schedules"],
  "all sequences of start, stop, read and reset with any durations and allocations in between",
  "Tests use real sleeps and a tolerance, one interval and no reset histories.",
  ["ais_benchmarks/metrics/performance.py", "ais_benchmarks/metrics/base.py"],
  [("pre / post / reset accumulation", "ais_benchmarks/metrics/performance.py")], ["pre()", "post()", "compute()", "reset()"],
  "runtime monitoring: virtual clock and heap stand-in, history replay against an accumulator model; real heap spot checks",
  "Exploration: the clock and heap probes are replaced by deterministic ones for the exact oracle, plus real-heap runs with tolerance.")

# ------------------------------------------------------------------------------------------------ benchmark
B = "ais_benchmarks/benchmark/CBenchmark.py"
P("B01", "The results file says exactly what was measured",
  "Every row of a benchmark results file parses under its header, with one value per column and every configured metric in "
  "its own column regardless of their order, and its values are those the metrics, the sampling method and the target had "
  "when the row was written. There is one row per repetition and partial result of every (target, method) pair, in order, "
  "with the number of output samples growing within a repetition up to at least the configured number.",
  ["configurations", "histories"],
  "all metric lists and orders, targets, methods, repetitions and batch sizes",
  "No test runs the benchmark.",
  [B], [("header and row formatting", B), ("evaluation loop", B)], ["results file", "metric and sampler calls"],
  "runtime monitoring: event log of metric/sampler calls recorded through stub components, offline checker of the file against the log",
  "Exploration over generated configurations with real and instrumented components.")
P("B02", "Configuration files build exactly the targets and methods they describe",
  "Loading a benchmark, method or configuration file yields targets with the described densities, dimensions, supports and "
  "evaluation parameters, and methods with the described parameters on exactly the limits of their target, replacing "
  "whatever was loaded before. Exporting a Gaussian mixture and loading the export gives an equal distribution.",
  ["configurations", "inputs"],
  "all descriptions of targets and methods (including many-digit, tiny and huge limits, high dimensions, all method types)",
  "No test loads a configuration.",
  [B, D + "distributions.py"], [("load_benchmark / load_methods / load_config", B), ("to_dict", D + "distributions.py")],
  ["loaded targets and methods"],
  "runtime monitoring: round-trip oracle comparing loaded objects with directly constructed ones over generated files",
  "Exploration over generated YAML descriptions and the shipped files.")
P("B03", "Benchmarks are reproducible from their seed",
  "Running the same benchmark files twice with a non-negative seed gives identical results up to time and memory columns, "
  "whatever the state of the random generator before and whatever ran before; with a negative seed the random state is not "
  "reset. Each (target, method) evaluation is seeded on its own, so its rows do not depend on the other methods or targets "
  "in the file.",
  ["configurations", "histories"],
  "all configurations, seeds, prior random states and orders of methods and targets",
  "No test runs the benchmark.",
  [B], [("seeding per evaluation", B), ("reset between repetitions", B)], ["results file"],
  "runtime monitoring: differential executions of whole benchmark runs, row-by-row comparison",
  "Exploration: single-machine reproducibility; the time and memory columns are excluded.")
P("B04", "Benchmark evaluations respect the sampling time budget",
  "The time spent in sampling within one repetition never exceeds the configured budget by more than one request, each "
  "request gets only the remaining budget, and an exhausted budget ends the repetition after its partial result has been "
  "written. Time spent computing metrics or drawing does not consume the budget, and every repetition starts with the full "
  "budget and a reset method.",
  ["fault_sequences", "configurations"],
  "all budgets, request durations and metric costs",
  "Needs a controllable clock; no test runs the benchmark.",
  [B], [("sampling time accumulation and break", B)], ["importance_sample(timeout) arguments", "results file"],
  "runtime monitoring: virtual clock with instrumented sampling method and metrics, trace checker on requests and budgets",
  "Exploration on a virtual clock.")
P("B05", "Result plots show the recorded results",
  "The plots generated from a results file contain, for every target and metric, one curve per evaluated method whose points "
  "are the rolling averages over the recorded repetitions at each sample count, selected for the right target, dimension "
  "and method, and one file is written per target and metric. Making plots changes neither the results file nor the "
  "loaded configuration.",
  ["configurations", "inputs"],
  "all result files, metric, method and target combinations",
  "No test makes plots.",
  [B], [("make_plots / make_2d_plot", B)], ["plotted lines", "written files"],
  "runtime monitoring: interception of the drawn lines, oracle recomputing the series with plain Python from the file",
  "Exploration with intercepted drawing calls.")

# ------------------------------------------------------------------------------------------------ utils and visualization
U = "ais_benchmarks/utils/"
P("U01", "Evaluation grids are complete, regular and correctly paired with their values",
  "A grid over a box is the full Cartesian product of equally spaced coordinates from the lower to the upper limit of each "
  "dimension, with the announced shape, each point exactly once, all points inside the box. Evaluating a distribution on a "
  "grid or on uniform points returns for each returned point its own density or log density, and reshaping by the "
  "announced shape gives the density at the matching coordinates.",
  ["inputs"],
  "all boxes (anisotropic, offset, thinner than the resolution), resolutions and dimensions",
  "No test builds a grid.",
  [S + "base.py", U + "plot_utils.py"], [("make_grid", S + "base.py and " + U + "plot_utils.py")],
  ["returned grids and values"],
  "runtime monitoring: set-based oracle for the grid and per-point re-evaluation over generated boxes",
  "Exploration.")
P("U02", "The stream reader delivers lines once, in order, and the newest on request",
  "Lines read one by one from the stream reader come out exactly once and in the order the stream produced them, and "
  "reading never blocks. Asking for the last value discards older lines and returns the newest line available at that "
  "moment, keeping it for the next read only when asked to, whatever lines arrive concurrently: values never go back in "
  "time and no line that arrived later is lost.",
  ["schedules", "histories"],
  "all interleavings of the producer and any reads, all line contents, bursts and pauses",
  "A concurrency property; no test uses the reader.",
  [U + "misc.py"], [("queue between the reading thread and the caller", U + "misc.py")],
  ["read()", "read_last_and_clear()"],
  "runtime monitoring: concurrent history recorder with linearizability-style order checks, forced preemption and barrier-stepped producer",
  "Exploration over thousands of forced interleavings at bytecode switch granularity.")
P("U03", "Drawing only draws",
  "Drawing a sampling method, a distribution or a partition never changes its samples, weights, counters, density or later "
  "results, and works for every method in one and two dimensions. Drawing a sequence of visual elements shows exactly the "
  "last version of each identified element, with everything of its previous versions removed.",
  ["histories", "inputs"],
  "all methods after any history, all sequences of visual elements with repeated identifiers",
  "No test draws anything.",
  ALLS + [D + "distributions.py", D + "derived/CABCDistribution.py", D + "derived/CGenericNoisyFunction.py",
          U + "plot_utils.py", "ais_benchmarks/visualization/matplotlib/viz_interface.py",
          "ais_benchmarks/visualization/visuals.py"],
  [("draw methods", S), ("draw_sequence", "ais_benchmarks/visualization/matplotlib/viz_interface.py")],
  ["figure artists", "object state before/after"],
  "runtime monitoring: state fingerprints and twin continuations around drawing calls, artist inventory of the figure",
  "Exploration on the Agg backend.")
P("U04", "Generated Gaussian mixtures are what was asked for",
  "A random Gaussian mixture has the requested number of components with normalised random weights, means at least five "
  "sigmas inside the box, spreads within the requested bounds and a support inside the box that encloses all components; an egg-box mixture "
  "has one equally weighted component of the requested spread on every grid node. Both work in any dimension, are "
  "determined by the random seed and are valid densities.",
  ["inputs", "configurations"],
  "all boxes, dimensions, component counts, spreads and seeds",
  "No test generates a target.",
  [U + "misc.py", D + "mixture/CGaussianMixtureModel.py"], [("generateRandomGMM / generateEggBoxGMM", U + "misc.py")],
  ["components, weights and support of the generated mixture"],
  "runtime monitoring: contract monitor on generated mixtures, quadrature and reproducibility oracles",
  "Exploration.")
P("U05", "Recorded videos contain every frame that was added, in order",
  "A video writer keeps one frame per added figure with the pixels the figure showed at that moment, unaffected by later "
  "drawing, and the saved file contains all frames in order with the frame size and rate requested. Elapsed times are split "
  "into whole hours, whole minutes below 60 and seconds below 60 that add up to the total.",
  ["histories", "inputs"],
  "all sequences of frames, figure sizes and durations",
  "No test records a video.",
  [U + "video_writer.py", U + "misc.py"], [("frame capture and encoding", U + "video_writer.py"), ("time_to_hms", U + "misc.py")],
  ["frames", "written file"],
  "runtime monitoring: frame-by-frame oracle on captured pixels and on the decoded file",
  "Exploration; lossy codec compared with tolerance.")

NOT_APPLICABLE = []
