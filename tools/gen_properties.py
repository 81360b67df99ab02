#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

S = "pocomc/sampler.py"; M = "pocomc/mcmc.py"; PA = "pocomc/particles.py"; SC = "pocomc/scaler.py"
T = "pocomc/tools.py"; F = "pocomc/flow.py"; PR = "pocomc/prior.py"; PL = "pocomc/parallel.py"
G = "pocomc/geometry.py"; ST = "pocomc/student.py"; IV = "pocomc/input_validation.py"

prop("C01", "Every recorded sample is self-consistent",
 "For every particle a run records at any iteration, the recorded log-likelihood, log-prior and derived quantities (blobs) are exactly those the user's likelihood and prior give at that particle's recorded parameters. Its recorded latent coordinates and Jacobian are those of the configured parameter transformation at the same parameters. This holds for every sampler option and after replacement, reweighting, resampling and any number of accepted or rejected MCMC moves.",
 ["inputs", "configurations", "histories"],
 "All priors, likelihoods, blob layouts and sampler option combinations; every iteration of every run.",
 "The tests run one Gaussian target with default options and assert nothing about the recorded arrays; a stale or mis-paired array only shows on option combinations and accept/reject histories they never sample.",
 [S, M, PA], [("per-particle masks update all arrays together on acceptance", M), ("index arrays applied to all fields in reweight/resample", S)],
 [("particle record", "x, u, logdetj, logl, logp, blobs per iteration", PA)], ["Sampler.results", "Sampler.posterior"])

prop("C02", "Nothing outside the prior support is evaluated, kept or returned",
 "Every parameter vector that is handed to the user's likelihood, recorded in the history, or returned as a posterior sample has finite prior log-density and lies within the prior's bounds. Proposals outside the support are rejected without calling the likelihood, in every phase of a run (initialisation, MCMC, evidence estimation).",
 ["inputs", "configurations", "histories"],
 "All priors, including priors whose support is smaller than their bounding box, all kernels, transforms and execution modes.",
 "The tests use unbounded normal priors only, where nothing is ever outside the support.",
 [S, M, SC], [("finite-prior masking of proposals before the likelihood call", M), ("finite-prior masking of evidence samples", S), ("bound-respecting transforms", SC)],
 [], ["calls received by the user's likelihood", "Sampler.results", "Sampler.posterior"])

prop("C03", "MCMC kernels leave the tempered posterior invariant",
 "Each MCMC kernel (t-preconditioned Crank-Nicolson and random-walk Metropolis, with or without a normalizing flow), at any inverse temperature beta, geometry, flow and parameter transformation, leaves the distribution proportional to prior times likelihood^beta invariant: particles drawn exactly from it are still distributed according to it after any number of moves. The acceptance rate it reports is the mean Metropolis-Hastings probability of its last proposals, and accepted moves occur with exactly those probabilities.",
 ["inputs", "configurations", "histories"],
 "All targets, temperatures, proposal scales, geometries, flows, bounds, dimensions and chain lengths.",
 "No test calls a kernel directly or compares a sampled distribution with a known one; a wrong Jacobian, temperature or proposal-density term still runs to completion.",
 [M, S, SC, T], [("Metropolis factors incl. Jacobians and Student-t densities", M), ("state carried between moves (logdetj, flow Jacobian, latent point)", M)],
 [("walker state", "theta, u, x, logdetj, flow Jacobian, logl, logp, blobs", M)], ["pocomc.mcmc.preconditioned_pcn/preconditioned_rwm/pcn/rwm"])

prop("C04", "Importance weights and running evidence are the mixture weights",
 "The log-weights a sampler reports are the normalised importance weights of all recorded particles for the full posterior, with the mixture of all tempered distributions recorded so far as the proposal: likelihood divided by the average over iterations t of likelihood^beta_t / Z_t. The log-evidence recorded for an iteration is the matching estimate at that iteration's beta from all earlier iterations (carried over while beta is held back), and without importance-sampled evidence the final log-evidence is that estimate at beta=1. Adding a constant to the log-likelihood shifts every evidence by beta times that constant and leaves weights unchanged.",
 ["inputs", "histories", "configurations"],
 "All histories of temperatures, evidences and log-likelihoods, including huge likelihood ranges and offsets, continued and resumed runs.",
 "The tests never read weights or evidences; formula errors only shift numbers that no test looks at.",
 [PA, S], [("balance-heuristic reweighting over the particle history", PA), ("evidence recorded at reweighting", S)],
 [("history of logl/beta/logz", "inputs of the mixture weights", PA)], ["Sampler.results", "Sampler.posterior", "Sampler.evidence"])

prop("C05", "posterior() is aligned and weight-faithful for every option",
 "For every combination of its options, posterior() returns equally long arrays whose rows belong together and occur in the recorded history; weights are non-negative, sum to one and are proportional to the mixture importance weights of the returned rows. Trimming drops only rows of smaller weight than every kept row and keeps at least the requested fraction of the effective sample size; resampling returns equal-weight rows drawn in proportion to the weights. Calling it does not change the sampler.",
 ["inputs", "configurations", "histories"],
 "All option combinations (resample, blobs, trimming on/off with any threshold and bin count, log-weights) on all runs.",
 "No test calls posterior().",
 [S, T], [("one index array applied to samples, logl, logp, logw, blobs", S), ("percentile trimming", T)],
 [], ["Sampler.posterior"])

prop("C06", "The temperature ladder is monotone and holds the particle target",
 "The recorded inverse temperatures start at 0, never decrease and end at 1 (to 1e-4). At each iteration the chosen beta makes the selected metric (effective or unique sample size of all earlier particles) equal the effective-particle target to about 1 percent, except that beta stays where it is when the metric there is already at or below the target and jumps to 1 when the metric at 1 is at or above it. The recorded per-iteration sample size is that metric.",
 ["inputs", "configurations", "histories"],
 "All likelihood shapes and scales, both metrics, all particle numbers, fixed and dynamic targets, continued runs.",
 "The tests only run two easy Gaussian targets and never look at the schedule.",
 [S, PA, T], [("bisection on beta", S), ("ESS / USS of mixture weights", T)],
 [("beta, ess per iteration", "the ladder", PA)], ["Sampler.results"])

prop("C07", "A run ends exactly when the requested sample size is reached at beta=1",
 "run() returns only when the last inverse temperature is 1 and the metric (effective or unique sample size) of all recorded particles for the posterior is at least n_total, and it does not perform an iteration once that is already the case. Calling run() again with a larger n_total adds samples until the new total is met; with a smaller or equal n_total it adds none. A well-behaved target always terminates.",
 ["inputs", "configurations", "histories"],
 "All n_total values and sequences of run() calls, both metrics, all options.",
 "The tests run to completion once and do not check the achieved sample size or repeated runs.",
 [S], [("termination criterion", S)], [], ["Sampler.run", "Sampler.results"])

prop("C08", "The importance-sampled evidence is the unbiased flow estimate",
 "When evidence samples are requested, the reported log-evidence equals the log of the average, over all requested flow samples, of likelihood times prior density times transformation Jacobian divided by the flow density, with samples outside the prior support or with zero likelihood counting as zero rather than being left out. Its reported error is the bootstrap standard error of that estimate. With no evidence samples requested, or without preconditioning, the sequential estimate is reported with no error.",
 ["inputs", "configurations"],
 "All priors (including supports smaller than the bounding box), likelihoods with zero regions, flows, transforms and numbers of evidence samples.",
 "No test reads evidence(); a biased normalisation is invisible to them.",
 [S, F, SC], [("importance sampling of the flow", S)], [], ["Sampler.evidence"])

prop("C09", "Resuming a checkpoint continues the same run",
 "From any checkpoint a run writes (during warm-up, between iterations, at the end, or saved by hand before or after running), a fresh sampler resumes so that, given the same random streams, its recorded history, posterior, evidence and call counts are identical to those of the uninterrupted run: no iteration is lost, repeated or changed. A finished run resumed with a larger n_total keeps its samples and adds more. Checkpoints appear at every save_every-th iteration under the configured directory and label, plus a final one.",
 ["histories", "crash_points", "configurations"],
 "Every checkpoint of every run, every save_every, every option combination, chains of several resumes.",
 "The one resume test checks that a run resumed from one warm-up file finishes; it compares nothing with the uninterrupted run.",
 [S, PA], [("state dictionary saved with dill and merged on load", S), ("iteration counter and warm-up flag", S)],
 [("whole sampler state", "everything needed to continue", S)], ["Sampler.save_state", "Sampler.load_state", "Sampler.run(resume_state_path=...)"])

prop("C10", "Checkpoint writes are atomic and durable",
 "If the process dies, or a write fails, at any point while a checkpoint is being saved, the checkpoint path afterwards holds either the complete previous checkpoint or the complete new one, and loads. A new checkpoint becomes visible under its name only after all its bytes have been flushed to disk. A failed save raises and leaves the sampler able to continue and save again.",
 ["crash_points", "fault_sequences"],
 "Every crash point and every failing byte offset of a save over an existing or absent checkpoint.",
 "Tests save on a healthy filesystem only.",
 [S], [("write to temporary file, flush, fsync, rename", S)], [], ["files under the checkpoint directory", "Sampler.save_state", "Sampler.load_state"])

prop("C11", "Results do not depend on how the likelihood is executed",
 "For the same seed and the same likelihood values, a run gives identical history, posterior, evidence and call counts whether the likelihood is evaluated one point at a time, vectorized, through an internal process pool, through any user-supplied pool or through the MPI pool, whatever order the workers finish in. A pool that is given does receive the evaluations. Extra positional and keyword likelihood arguments reach every call unchanged in all modes.",
 ["schedules", "configurations", "inputs"],
 "All execution modes, pool sizes, chunkings and completion orders; all argument lists; with and without blobs.",
 "No test uses a pool or extra arguments or compares two modes.",
 [S, PL, T], [("ordered pool.map over particles", S), ("argument-binding wrapper", T)], [], ["Sampler.run", "Sampler.results"])

prop("C12", "Runs are reproducible and unaffected by observation",
 "Two samplers built with the same arguments and random_state and run the same way produce bit-identical histories, posteriors and evidences. Turning the progress display on or off, saving checkpoints, or reading results, weighted posterior samples or the evidence between runs does not change what is computed (only a resampled posterior draws from the random stream).",
 ["configurations", "histories"],
 "All seeds and option combinations, all interleavings of run() with read-only calls.",
 "The tests fix one seed and never compare two runs.",
 [S, T, F], [("seeding of numpy and torch at construction", S), ("all randomness through the seeded global streams", S)], [], ["Sampler.run", "Sampler.results", "Sampler.posterior", "Sampler.evidence"])

prop("C13", "The parameter transformation is a bijection with exact Jacobian",
 "For any mix of unbounded, one-sided and two-sided bounds, either transform type, with or without (diagonal or full-covariance) rescaling, mapping parameters to latent space and back returns the same parameters, and mapping latent points to parameters and back returns the same latent points. The reported log-Jacobian is the log-determinant of the derivative of the latent-to-parameter map, latent points always land within the bounds, every in-bounds point (including one exactly on a bound) has finite latent coordinates, and rescaled training data have zero mean and unit variance.",
 ["inputs", "configurations"],
 "All bound patterns, magnitudes and points, including points close to or on a bound.",
 "The scaler tests use one bound pattern at a time with one fixed data set and never look at the Jacobian.",
 [SC], [("masked per-kind transforms and their log-derivatives", SC), ("affine standardisation", SC)], [], ["pocomc.scaler.Reparameterize.fit/forward/inverse"])

prop("C14", "Periodic and reflective boundary conditions fold correctly",
 "For any finite point, applying boundary conditions moves every periodic parameter into its bounds by a whole number of periods, moves every reflective parameter into its bounds by mirror images at the bounds, leaves in-range values and all other parameters untouched, and leaves the input array unmodified. Runs with such parameters still sample the same posterior, in-bounds.",
 ["inputs", "configurations"],
 "All bounds, index lists (periodic, reflective, both, neither) and points within many widths of the range.",
 "No test uses periodic or reflective parameters.",
 [SC, M], [("wrap / reflect loops", SC), ("re-transformation after folding in the kernels", M)], [], ["Reparameterize.apply_boundary_conditions_x", "Sampler.results"])

prop("C15", "The flow is an invertible map with matching density and samples",
 "For every predefined or user-supplied flow, at any parameter values, mapping to the latent space and back reproduces the input, the two reported log-Jacobians are negatives of each other and equal the log-determinant of the map's derivative, and the reported log-density is the latent base density plus the Jacobian. Samples come with their own log-density under the same flow, and the array wrapper used by the sampler agrees with the flow up to its sign convention.",
 ["inputs", "configurations"],
 "All architectures, dimensions, parameter values (untrained or trained) and input points, single and double precision.",
 "The flow tests use one architecture, freshly initialised, in one dimension setting with one data set.",
 [F, T], [("flow transform and inverse with log-Jacobian", F), ("numpy wrapper", T)], [], ["pocomc.flow.Flow.forward/inverse/log_prob/sample", "pocomc.tools.flow_numpy_wrapper"])

prop("C16", "Flow training respects weights, validation and early stopping",
 "Training uses each sample with its own weight: a sample of zero weight has no influence, scaling all weights changes nothing, whatever the shuffling and batching. The recorded loss histories have one finite entry per epoch run and never exceed the epoch limit; training that stops early leaves the flow at the parameters with the best recorded monitored loss. The validation_split fraction of the samples is held out for validation, regularisation options add the matching penalty to the loss, training never modifies the caller's data, and added training noise has the requested scale relative to the mean nearest-neighbour distance.",
 ["inputs", "configurations"],
 "All data sets, weight vectors, batch sizes, splits, patience and epoch limits.",
 "The only training test runs five unweighted epochs and checks shapes and finiteness.",
 [F], [("weighted negative log-likelihood", F), ("best-model bookkeeping", F), ("joint shuffling of samples and weights", F)], [], ["pocomc.flow.Flow.fit"])

prop("C17", "Resampling is faithful to the weights",
 "Systematic resampling to n points returns n valid indices in which every index i appears either floor(n w_i) or ceil(n w_i) times and zero-weight entries never appear, for any positive weight vector whether or not it is normalised; its expected counts are n w_i. During a run, the particles that start each iteration's moves are drawn from the weighted history by the chosen scheme (multinomial or systematic) with those properties.",
 ["inputs", "configurations", "histories"],
 "All weight vectors, sizes, seeds and both schemes; every iteration of every run.",
 "No test calls the resampler or sets the systematic scheme.",
 [T, S], [("systematic resampling loop", T), ("resampling step", S)], [], ["pocomc.tools.systematic_resample", "Sampler.results"])

prop("C18", "Likelihood calls are counted exactly and never wasted",
 "The recorded number of likelihood calls after each iteration equals the number of points actually submitted to the user's likelihood up to that moment, in every mode and across warm-up, MCMC, evidence estimation, continued and resumed runs. The total reported by the sampler equals all evaluations made.",
 ["configurations", "histories"],
 "All options, kernels and execution modes, and all sequences of run() calls and resumes.",
 "No test counts calls.",
 [S, M], [("call counters in the kernels", M), ("accumulated totals", S)], [("calls", "running total", PA)], ["Sampler.results['calls']", "Sampler.calls"])

prop("C19", "MPI pool returns every result once, in order, and stops its workers",
 "For any number of workers and tasks (including none) and any order in which workers finish, mapping a function over tasks through the MPI pool returns exactly one result per task, in task order, after running each task exactly once on a worker and never giving a busy worker a second task. The pool can be reused for further maps, and closing it makes every worker leave its loop.",
 ["schedules", "inputs"],
 "All message delivery and completion orders, worker counts and task lists.",
 "mpi4py is absent here and no test touches the pool.",
 [PL], [("task tags as indices, worker free-set", PL)], [("workerset/tasklist/pending", "dispatcher state", PL)], ["pocomc.parallel.MPIPool.map/close"])

prop("C20", "Prior is the independent product of its components",
 "For any list of component distributions, the prior's log-density at each row is the sum of the components' log-densities of the matching columns (minus infinity outside any component's support), its bounds are the components' supports in order, and its dimension is their number. Draws have shape (size, dimension), column i is distributed as component i independently of the others, and every draw has finite log-density.",
 ["inputs", "configurations"],
 "All lists of frozen distributions, dimensions and points inside and outside the support.",
 "The tests use two identical normal components, for which swapped columns, swapped bounds and missing terms are invisible.",
 [PR], [("per-component loop", PR)], [], ["pocomc.prior.Prior.logpdf/rvs/bounds/dim"])

prop("C21", "Proposal geometry is the weighted fit of the particles",
 "The fitted normal mean and covariance equal the weighted mean and weighted covariance of the particles, and the fitted Student-t has finite location inside the data's range, a symmetric positive-definite scale and positive finite degrees of freedom, in every dimension including one. Fits are equivariant under shifting, scaling and permuting the data, do not depend on zero-weight particles, and a converged Student-t fit with finite degrees of freedom is a local maximum of the likelihood.",
 ["inputs", "configurations"],
 "All non-degenerate data sets, weights and dimensions.",
 "No test calls the geometry or Student-t fit.",
 [G, ST], [("weighted moments", G), ("EM iteration", ST)], [], ["pocomc.geometry.Geometry.fit", "pocomc.student.fit_mvstud"])

prop("C22", "Sample-size diagnostics and trimming obey their definitions",
 "Effective sample size is (sum w)^2 / sum w^2 and unique sample size is the expected number of distinct indices in k draws, both invariant to rescaling and permuting weights and within their natural ranges; the log-weight variants agree with them and with log-sum-exp for any offset without overflow. Trimming keeps exactly the samples whose weight is at least some threshold, returns their weights normalised, retains at least the requested fraction of effective sample size, and terminates for every threshold up to and including 1.",
 ["inputs"],
 "All weight vectors (skewed, tied, tiny, huge), thresholds, bin counts and k.",
 "The only tools test evaluates the percentage ESS of a single particle.",
 [T], [("closed-form estimators", T), ("percentile search", T)], [], ["pocomc.tools.effective_sample_size/unique_sample_size/compute_ess/increment_logz/trim_weights"])

prop("C23", "Invalid input is rejected before sampling; defaults are as documented",
 "Every invalid option (unknown transform, metric, kernel, resampling scheme or flow, vectorized likelihood with blobs, neither particle number given, blobs requested where none exist) and every out-of-bounds transformation input or non-float array of bounds raises ValueError, before the user's likelihood is called, and every valid one is accepted. Omitted particle numbers, prior-sample numbers, dimension and output names take their documented values, and the deprecated ESS argument still works.",
 ["inputs", "configurations"],
 "All option values, valid and invalid, singly and together; all data arrays.",
 "One test covers one out-of-bounds array; no option is tested for rejection.",
 [S, SC, IV, F], [("constructor validation", S), ("interval assertion", IV)], [], ["pocomc.Sampler(...)", "Reparameterize", "Flow"])

prop("C24", "The flow is trained on schedule and only when preconditioning",
 "With preconditioning, the flow is trained at the first sampling iteration, at every train_frequency-th iteration and at every iteration with beta=1, and at no other; the default frequency is max(n_effective // (2 n_active), 1). Training receives the reweighted particles of that iteration with matching normalised weights and the user's training options. Without preconditioning the flow is never trained, evaluated or sampled.",
 ["configurations", "histories"],
 "All frequencies, particle numbers, training options and run histories.",
 "Tests use the default frequency of one and cannot see whether training happened.",
 [S, F], [("training condition", S)], [("flow_untrained", "first-time flag", S)], ["Flow.fit calls received by the sampler's flow"])

prop("C25", "Posterior and evidence agree with analytically known targets",
 "On targets whose posterior moments and evidence are known in closed form, for every combination of kernel, preconditioning, transform, metric, resampling scheme and boundary type, the weighted posterior mean and variance and the log-evidence agree with the exact values within Monte Carlo error.",
 ["inputs", "configurations"],
 "All option combinations over families of conjugate and one-dimensionally integrable targets.",
 "The sampler tests check only that a run completes.",
 [S, M, PA, SC, F, T], [("the whole sampling algorithm", S)], [], ["Sampler.posterior", "Sampler.evidence"])

prop("C26", "Zero-likelihood regions are excluded and accounted for",
 "If the log-likelihood is minus infinity on part of the prior volume, the run completes, no recorded particle and no posterior sample has zero likelihood, every warm-up particle that had one is replaced by a complete copy of another drawn particle of the same batch, and both the sequential and the importance-sampled evidence include the excluded prior mass as zero.",
 ["inputs", "configurations"],
 "All regions leaving each warm-up batch at least one positive-likelihood particle and the warm-up enough distinct ones to define a covariance, all options and execution modes.",
 "No test has a likelihood that returns minus infinity.",
 [S, M], [("replacement of infinite-likelihood particles in warm-up", S), ("rejection of zero-likelihood proposals", M)], [], ["Sampler.results", "Sampler.posterior", "Sampler.evidence"])

prop("C27", "The history is append-only, complete and always reported in full",
 "Every iteration appends exactly one entry of n_active particles to every recorded quantity, with consecutive iteration indices, warm-up entries (n_prior // n_active of them, consisting of the prior draws in order) first. Entries already recorded never change afterwards, whether the run goes on, is continued, checkpointed or read, and the results always reflect all iterations recorded so far.",
 ["histories", "configurations"],
 "All sequences of run, continue, save, load and read operations.",
 "No test reads results, let alone after continuing a run.",
 [S, PA], [("append in the particle store", PA), ("copies handed to the kernels", S)], [("past", "list per recorded quantity", PA)], ["Sampler.results"])

prop("C28", "Each iteration's MCMC effort is bounded and honestly reported",
 "Every sampling iteration performs at least one and at most max(1, n_max_steps) MCMC sweeps, with at most one likelihood evaluation per active particle per sweep, and stops early only after the mean log-posterior has failed to improve. Reported acceptance lies in [0,1], the reported step count is the number of sweeps performed, and the proposal scale carried to the next iteration stays finite and, for Crank-Nicolson, in [0, 0.99].",
 ["inputs", "configurations", "histories"],
 "All targets, kernels, step limits and temperatures.",
 "No test looks at steps, acceptance or efficiency.",
 [M, S], [("loop termination criteria", M), ("diminishing adaptation of the scale", M)], [], ["Sampler.results", "calls received by the user's likelihood"])

prop("C29", "Dynamic particle allocation follows the unique-sample ratio",
 "With dynamic allocation off, the effective-particle target never changes. With it on, after each reweighting the target grows by the factor n_active / U when the expected number U of unique resampled active particles falls more than 5 percent below its initial ratio, shrinks by U / n_active when it exceeds that ratio by more than 5 percent, and is otherwise unchanged; the next temperature uses the adjusted target.",
 ["configurations", "histories"],
 "All particle numbers, targets and run histories.",
 "No test reads the target.",
 [S, T], [("dynamic adjustment after reweighting", S)], [("n_effective", "current target", S)], ["Sampler.results", "Sampler.n_effective"])

prop("C30", "Blobs travel with their samples in every supported layout",
 "For every supported blob layout (scalar or vector numbers, several values, structured named fields with a declared dtype, strings and mixed objects, with one type per position), each recorded particle and each posterior row carries, unaltered in value, dtype and shape, the blob the likelihood returned at that particle's parameters, in serial and pooled execution and through acceptance, rejection, resampling, trimming, continuing and resuming. Without blobs, none are reported and asking for them is an error.",
 ["inputs", "configurations", "histories"],
 "All blob layouts and dtypes, all kernels and posterior options.",
 "No test returns blobs.",
 [S, M], [("dtype inference and squeezing", S), ("blob update on acceptance", M)], [], ["Sampler.posterior(return_blobs=True)", "Sampler.results['blobs']"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
