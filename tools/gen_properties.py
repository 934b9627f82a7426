"""Writes /verif/properties.jsonl (kept as a script so the file stays consistent)."""
import json, os
S = "src/flowMC/"
K = S + "resource/kernel/"
NF = S + "resource/model/nf_model/"
ST = S + "strategy/"
B = S + "resource_strategy_bundle/"
P = []

def p(id, title, statement, over, quant, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=quant), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                     state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     observe_at=list(observe), hook_needed=hook)))

p("C01", "A MALA step is an exact Metropolis-Hastings step for the target",
  "From any position a MALA step proposes a Langevin move (half the squared step size times the gradient, plus step-size-scaled standard normal noise) and accepts it with exactly the Metropolis-Hastings probability of that proposal under the target evaluated with the user's data, so the target is left invariant. A rejected step returns the position unchanged, and the returned log-density and acceptance flag belong to the returned position. The noise is standard normal, independent between keys and coordinates and independent of the accept decision.",
  ["inputs", "configurations"],
  "every differentiable target, data, dimension, start position, positive scalar step size (or diagonal step-size matrix) and random key",
  "Tests run MALA on one standard normal with loose mean/std tolerances; a wrong proposal term, a gradient taken at the wrong point or a biased ratio passes.",
  [K + "MALA.py"], [("two-point proposal/ratio evaluation", K + "MALA.py MALA.kernel")], observe=["MALA.kernel return value", "TakeSerialSteps buffers"])
p("C02", "A Gaussian random walk step is an exact Metropolis step for the target",
  "From any position a random-walk step proposes a move of independent normal noise scaled by the step size and accepts it with exactly the probability min(1, target ratio), so the target is left invariant. A rejected step returns the position unchanged, and the returned log-density and acceptance flag belong to the returned position.",
  ["inputs", "configurations"],
  "every target (smooth or not), data, dimension, start position, scalar or per-coordinate step size and random key",
  "Tests check one Gaussian target with loose tolerances and a single step size.",
  [K + "Gaussian_random_walk.py"], [("log-uniform accept test", K + "Gaussian_random_walk.py GaussianRandomWalk.kernel")], observe=["GaussianRandomWalk.kernel return value"])
p("C03", "An HMC step leaves the target invariant for every mass matrix and path length",
  "An HMC step draws a momentum from the Gaussian of its kinetic energy, integrates the target's dynamics with a reversible, volume-preserving leapfrog of the configured number of steps and step size, and accepts with exactly exp(-energy error), so the target is left invariant. This holds for the default, scalar, per-coordinate and full positive-definite condition matrix. A rejected step returns the position unchanged, and the returned log-density and acceptance flag belong to the returned position.",
  ["inputs", "configurations"],
  "every differentiable target, data, dimension, start, step size, number of leapfrog steps (including 0 and 1), condition matrix and random key",
  "Tests use one standard normal with an identity matrix, for which many wrong kinetic energies and trajectories coincide with the right one.",
  [K + "HMC.py"], [("kinetic energy, momentum draw, leapfrog scan, accept test", K + "HMC.py HMC.kernel/leapfrog_kernel/leapfrog_step")], state=[("leapfrog_coefs", "drift/kick coefficients per sub-step", K + "HMC.py")], observe=["HMC.kernel return value"])
p("C04", "Flow proposals form an exact independence Metropolis-Hastings chain",
  "A global step of n steps draws n independent fresh samples of the flow and walks through them in order, accepting each with exactly the independence Metropolis-Hastings probability: target ratio times inverse flow-density ratio between the proposal and the current state. This holds for every flow (however well it fits), for every number of steps and every proposal batch size, whether or not the batch size divides the number of steps. The n recorded positions, log-densities and flags are those of the chain after each step.",
  ["inputs", "configurations"],
  "every flow model and parameters, target, data, start position, number of steps, proposal batch size (larger, equal, smaller, dividing or not) and key",
  "Tests check shapes only; batching with a remainder, the density carried across rejections and proposal reuse are never checked.",
  [K + "NF_proposal.py", ST + "take_steps.py"], [("batched proposal sampling and density", K + "NF_proposal.py NFProposal.sample_flow"), ("sequential accept scan", K + "NF_proposal.py NFProposal.kernel")], observe=["NFProposal.kernel return value", "TakeGroupSteps buffers"])
p("C05", "Chains never enter regions of zero or undefined density",
  "A chain started where the target log-density is finite never moves to, and never records, a position where the log-density is minus infinity or NaN or where a coordinate is not finite. This holds for every kernel, for flow proposals and for parallel tempering, and such proposals do not stop the chain from moving elsewhere.",
  ["inputs", "configurations"],
  "every target with forbidden or undefined regions (hard walls, NaN outside the domain, NaN gradients outside the domain, overflow), every kernel, step size and key",
  "Tests only use everywhere-finite targets.",
  [K + "MALA.py", K + "HMC.py", K + "Gaussian_random_walk.py", K + "NF_proposal.py", ST + "parallel_tempering.py"], [("accept test is a strict comparison, so NaN rejects", K + "*.py do_accept")], observe=["position, log-prob and acceptance buffers"])
p("C06", "Recorded log-densities and acceptance flags match the recorded positions",
  "Every recorded log-density equals the user's target, evaluated with the user's data exactly as given, at the position recorded in the same slot. Without thinning, an acceptance flag is 1 exactly when the proposed move was taken: a slot whose flag is 0 repeats the previous position (or the start of the segment), and a slot whose position differs from the previous one has flag 1.",
  ["inputs", "histories", "configurations"],
  "every kernel, serial and group steps, data pytree, thinning, chain batching, history of segments and bundle configuration",
  "Tests look at buffer shapes and coarse acceptance rates only.",
  [ST + "take_steps.py", K + "MALA.py", K + "HMC.py", K + "Gaussian_random_walk.py", K + "NF_proposal.py"], [("buffers updated from the same scan outputs", ST + "take_steps.py TakeSteps.__call__")], observe=["position, log-prob and acceptance buffers"])
p("C07", "Step strategies record every thinned sample once, in order, without overwriting",
  "Each call of a step strategy writes every thinning-th state of the steps it took, first state included, into consecutive slots starting at the strategy's current write position of the three buffers that the state names at that moment, and advances the write position by the number of slots written. No other slot or buffer changes. The position it returns is the last one recorded, from which the next strategy continues.",
  ["histories", "configurations"],
  "every sequence of serial/group step calls, write-position resets and state switches, and every number of steps, thinning (dividing or not), chain count and chain batch size",
  "Tests call a stepper once or twice with thinning 1 and check shapes.",
  [ST + "take_steps.py", ST + "update_state.py", S + "resource/states.py", S + "resource/buffers.py"], [("write cursor", ST + "take_steps.py TakeSteps.current_position"), ("buffer lookup through the state", ST + "take_steps.py TakeSteps.__call__")], state=[("current_position", "next slot to write", ST + "take_steps.py")], observe=["buffers after every call"])
p("C08", "Chains do not influence each other, and chain batching changes nothing",
  "In local and global steps, the samples of a chain depend only on its own start position, the target and data, and its own randomness: changing other chains' start positions, even to invalid ones, leaves its record unchanged. Splitting the chains into batches of any size, whether or not it divides the number of chains, gives the same records as running all chains at once, with every chain in its own row.",
  ["inputs", "configurations"],
  "every kernel, number of chains, chain batch size, and perturbation of other chains",
  "One test compares shapes with one batch size that divides the number of chains.",
  [ST + "take_steps.py"], [("vmap over chains; slicing and concatenating batches", ST + "take_steps.py TakeSteps.__call__")], observe=["buffers and returned positions"])
p("C09", "Randomness is reproducible and never reused",
  "Running with the same key, start, data and configuration gives identical results, and a different key gives different ones. No noise is shared between chains, between steps, between tempered walkers, between successive strategy calls, or between different strategies of one run: each draws fresh independent randomness.",
  ["histories", "configurations"],
  "every kernel and strategy, number of chains and steps, batching, sequence of strategy calls and key",
  "Determinism is tested for one kernel call; reuse of a key across chains, steps or strategies is invisible to loose moment checks.",
  [ST + "take_steps.py", ST + "parallel_tempering.py", ST + "train_model.py", ST + "optimization.py", K + "NF_proposal.py", S + "Sampler.py"], [("key splitting per call, chain and step", ST + "take_steps.py TakeSteps.__call__, TakeSerialSteps.body"), ("returned key", "every Strategy.__call__")], observe=["increments under a flat target", "returned rng keys"])
p("C10", "The sampler runs the configured strategies in order, threading the run state",
  "Sampling executes exactly the strategies named by the strategy order, once per occurrence and in that order, giving each the data unchanged and the key, resources and positions returned by the one before; afterwards the sampler exposes the resources returned last. A name that is not a registered strategy raises ValueError, as does constructing a sampler with neither a complete set of resources and strategies nor a bundle; explicitly given resources and strategies take precedence over a bundle.",
  ["histories", "configurations"],
  "every strategy order (repeats, empty, unknown names at any place), every strategy that replaces resources, key or positions",
  "Tests only build bundles and run one fixed order.",
  [S + "Sampler.py", ST + "base.py", ST + "lambda_function.py", ST + "update_state.py"], [("sequential loop", S + "Sampler.py Sampler.sample")], observe=["arguments seen by recording strategies", "Sampler.resources"])
p("C11", "Bundles fill their records completely and freeze adaptation in production",
  "Running a bundle fills every slot of the training and production position and log-density records, in order of sampling, and every local and global segment has its acceptance flags in the matching record at the same slots and only there. Once production starts nothing is adapted: the flow, the optimizer state, the temperatures, the loss record and all training records stay as they were when training ended.",
  ["histories", "configurations"],
  "every bundle configuration: loops, steps, thinning, epochs, chain batching, temperatures",
  "Bundle tests construct the bundles; the quickstart script runs one configuration without assertions.",
  [B + "RQSpline_MALA.py", B + "RQSpline_MALA_PT.py", ST + "take_steps.py", ST + "update_state.py", ST + "parallel_tempering.py"], [("strategy order, stepper synchronisation, reset and state switch", B + "RQSpline_MALA.py __init__"), ("training flag", ST + "parallel_tempering.py ParallelTempering.__call__")], state=[("sampler_state", "names of target buffers and training flag", B + "RQSpline_MALA.py")], observe=["resources before and after every strategy of a run"])
p("C12", "Global proposals use the most recently trained flow",
  "Whenever a bundle takes global steps, the proposals are drawn from, and weighted by the density of, the flow as last trained: after each training the global sampler's flow equals the trained one before the next global step, and it stays equal through production.",
  ["histories", "configurations"],
  "every bundle configuration and number of training loops",
  "A stale flow still gives a valid sampler, so no output-based test notices.",
  [B + "RQSpline_MALA.py", B + "RQSpline_MALA_PT.py", ST + "train_model.py", K + "NF_proposal.py"], [("update_model lambda", B + "RQSpline_MALA.py update_model")], observe=["resources at every global step", "flow samples drawn by the global step"])
p("C13", "Flow layers and flows are bijections with the right log-determinant",
  "For every flow and coupling layer, applying the inverse after the forward map (and the forward after the inverse) returns the input, the log-determinants of the two directions are negatives of each other, and each equals the log absolute determinant of the map's Jacobian. This holds for any parameter values, dimension, number of layers and bins, and for inputs inside, on and outside the spline range.",
  ["inputs", "configurations"],
  "every model configuration, parameter value (as initialised, trained, or arbitrary of moderate size) and finite input",
  "Tests invert freshly initialised near-identity models at a handful of points.",
  [NF + "realNVP.py", NF + "rqSpline.py", S + "resource/model/common.py"], [("coupling masks", S + "resource/model/common.py MaskedCouplingLayer"), ("spline forward and inverse", NF + "rqSpline.py _rational_quadratic_spline_fwd/_inv"), ("layer scan in reverse order", NF + "*.py inverse")], observe=["forward/inverse return values"])
p("C14", "A flow's log-density is the normalised density of its samples",
  "For any flow parameters, data mean and covariance and base distribution, the log-density integrates to one and is the density of the samples the same flow draws: base density at the preimage plus the log-determinants of the map and of the rescaling to the data. Sampling n points gives n independent rows of the flow's dimension.",
  ["inputs", "configurations"],
  "every flow class, parameters, data mean and covariance, Gaussian base distribution (default, shifted, correlated), dimension and number of samples",
  "Tests check the shape of log_prob on an untrained model with default whitening.",
  [NF + "realNVP.py", NF + "rqSpline.py", S + "resource/model/common.py"], [("whitening in log_prob, un-whitening in sample", NF + "*.py log_prob/sample"), ("base distribution", S + "resource/model/common.py Gaussian")], observe=["sample and log_prob return values"])
p("C15", "Flow-matching density, samples, path and training agree with each other",
  "The flow-matching log-density is, up to ODE discretisation, the density of the points the same model samples, including the rescaling to the data mean and covariance. The probability path interpolates from the noise at time 0 to the data at time 1 with the matching velocity, and training regresses the network on that velocity for whitened data in disjoint batches, returning the model of the epoch with the lowest recorded loss.",
  ["inputs", "configurations"],
  "every velocity network, dimension, data mean and covariance, time, batch size and number of epochs",
  "Tests check shapes and finiteness of log_prob and sample, and path values for scalars.",
  [S + "resource/model/flowmatching/base.py"], [("forward ODE and backward ODE with divergence", "Solver.sample/log_prob"), ("path and scheduler", "Path.sample, CondOTScheduler"), ("training loop", "FlowMatchingModel.train/train_epoch")], observe=["sample, log_prob, path and train return values"])
p("C16", "Flow training returns the best epoch and uses each batch as documented",
  "Training returns the model and the optimizer state as they were at the end of the epoch with the lowest recorded loss, together with one recorded loss per epoch; an epoch with a NaN loss is never selected and if no epoch qualifies the model and state given are returned. Each epoch uses as many disjoint full batches as fit, in a fresh random order, or all the data at once when there is less than one batch, and the loss is the mean negative log-density of the batch under the current model.",
  ["inputs", "histories", "configurations"],
  "every loss sequence (falling, rising, tied, NaN at any place), number of epochs, data size, batch size and optimizer",
  "Tests train one model briefly and check that the loss changes.",
  [NF + "base.py"], [("best-loss bookkeeping", NF + "base.py NFModel.train"), ("permutation and batching", NF + "base.py NFModel.train_epoch")], observe=["train return values", "gradients seen by a recording optimizer"])
p("C17", "The flow is trained on recent recorded samples only",
  "The training strategy passes the flow exactly the configured number of examples, each of them one of the last history-window samples recorded by some chain; unwritten slots are never used and every eligible sample of every chain is equally likely. The losses are appended to the loss record after those already there, and the trained model and optimizer state replace the previous ones.",
  ["histories", "configurations"],
  "every fill level of the buffer, number of chains, history window (smaller, equal, larger than the record), number of examples and epochs, repeated trainings",
  "One test trains once on a full buffer and looks at shapes.",
  [ST + "train_model.py"], [("finite filter, window slice and resampling", ST + "train_model.py TrainModel.__call__"), ("loss cursor", ST + "train_model.py loss_buffer.cursor")], observe=["data argument seen by a recording model", "loss buffer"])
p("C18", "Training changes only the trainable parameters of a flow",
  "Training a flow leaves its coupling masks, spline range, dimension and structure, and a base distribution declared not learnable, exactly as they were, and sets the data mean and covariance to those of the training data. The flow stays an invertible, normalised density after any amount of training.",
  ["inputs", "histories", "configurations"],
  "every flow class, optimizer, learning rate, number of epochs and training data",
  "Tests never look at the non-trainable parts, and a drift that breaks invertibility is small after the few steps a test takes.",
  [NF + "base.py", NF + "realNVP.py", NF + "rqSpline.py", S + "resource/model/common.py", S + "resource/optimizer.py"], [("stop_gradient properties", S + "resource/model/common.py mask/mean/cov"), ("boolean masks", NF + "*.py make_layer"), ("optimizer update", S + "resource/optimizer.py")], observe=["model leaves before and after training"])
p("C19", "Buffers write exactly the slots asked for",
  "A new buffer has the requested shape and holds minus infinity everywhere; writing updates at a start index replaces exactly the slots from that index, for the length of the update along the buffer's cursor dimension, and leaves all others unchanged. Reads return the current content and never change it.",
  ["inputs", "histories"],
  "every shape, cursor dimension, start index and update length that fits, and every sequence of writes",
  "Tests write one block at the start of one buffer.",
  [S + "resource/buffers.py"], [("dynamic slice update along cursor_dim", S + "resource/buffers.py Buffer.update_buffer")], observe=["Buffer.data after every write"])
p("C20", "Saved resources load back identical",
  "Saving and loading a buffer, a state, a normalizing flow or a flow-matching model gives back a resource that equals the saved one in all its content: the buffer's data bit for bit with its name, cursor dimension and cursor, the state's name and entries with their types, and a model's every parameter, so it draws the same samples and densities. Loading does not change the object it is called on or the file, and a loaded buffer can be written and trained from as the original could.",
  ["inputs", "histories"],
  "every content (partially filled, infinities, NaN, extreme values, empty, any name) and every model configuration and training state",
  "Tests round-trip one flow-matching model; buffers and states are never round-tripped.",
  [S + "resource/buffers.py", S + "resource/states.py", NF + "base.py", S + "resource/model/flowmatching/base.py"], [("npz and eqx serialisation", "save_resource/load_resource/save_model/load_model")], observe=["loaded resource against saved one"])
p("C21", "Parallel tempering leaves every tempered distribution invariant",
  "A parallel-tempering call moves each walker with the local kernel on its own tempered target, likelihood to the power 1/T times the prior, and then proposes a swap between each pair of neighbouring temperatures in turn, accepting with exactly min(1, exp((1/T_hot - 1/T_cold)(logL_cold - logL_hot))). So with fixed temperatures the joint tempered distribution is invariant, in training and in production, over any number of calls.",
  ["inputs", "histories", "configurations"],
  "every likelihood and prior, temperature ladder (including two and many rungs, equal rungs), number of chains, steps and calls, training flag",
  "Tests call the internals once and check shapes.",
  [ST + "parallel_tempering.py", S + "resource/logPDF.py"], [("individual tempered steps", ST + "parallel_tempering.py ParallelTempering._ensemble_step"), ("swap scan", ST + "parallel_tempering.py ParallelTempering._exchange"), ("walker store", "tempered positions buffer")], observe=["returned cold positions and tempered-positions buffer after each call"])
p("C22", "Tempering exchanges conserve walkers and never mix chains",
  "When the local moves do nothing, a tempering call only permutes the walkers of each chain among the temperatures: no walker is lost, duplicated or altered, none passes to another chain, and the walker returned is the one at the coldest temperature while the buffer holds those at the others, in order. The next call continues from exactly these walkers, in training and in production.",
  ["inputs", "histories", "configurations"],
  "every number of chains, temperatures and dimensions, likelihood values (including minus infinity), history of calls and training flag",
  "Tests check shapes after one exchange.",
  [ST + "parallel_tempering.py"], [("swap by slice update; buffer update", ST + "parallel_tempering.py")], observe=["multiset of walkers before and after each call"])
p("C23", "The temperature ladder stays valid and adapts only in training",
  "The coldest and hottest temperatures never change and out of training no temperature changes. In training an interior temperature gap grows when its lower pair of neighbours swaps more often than the upper pair, shrinks when less often, and stays the same when equally often, and the ladder stays positive and increasing.",
  ["histories", "configurations"],
  "every ladder, number of chains, swap outcome and number of calls",
  "One test checks the result shape for one acceptance array.",
  [ST + "parallel_tempering.py"], [("multiplicative gap update", ST + "parallel_tempering.py ParallelTempering._adapt_temperature")], observe=["temperature buffer before and after each call"])
p("C24", "Target wrappers evaluate the user's function unchanged",
  "A wrapped target returns the user's function of the position and data unchanged, with the same gradients, directly and under jit, vmap, grad and pytree flattening; two different targets are never confused with each other. A tempered target evaluates to the likelihood untempered, and to likelihood/T plus prior at temperature T, with T=1 giving likelihood plus prior.",
  ["inputs", "configurations"],
  "every function pair, position, data pytree, temperature and transformation",
  "Tests evaluate one function at one point.",
  [S + "resource/logPDF.py"], [("pytree registration with the functions as auxiliary data", S + "resource/logPDF.py tree_flatten/tree_unflatten"), ("tempering formula", S + "resource/logPDF.py TemperedPDF.tempered_log_pdf")], observe=["return values"])
p("C25", "Adam optimisation respects bounds and reports true log-densities",
  "The optimiser moves every chain independently by projected Adam ascent of the target evaluated with the user's data, so with zero noise the result equals that recursion and after at least one step no coordinate is outside the given bounds. The log-densities it reports are those of the positions it returns, bounds of the wrong shape raise ValueError, and nothing but the positions and the key changes.",
  ["inputs", "configurations"],
  "every target, start (inside or outside the bounds), bounds (shared, per coordinate, one-sided, infinite), learning rate, noise level, number of steps and chains",
  "Tests optimise one quadratic with one bound setting.",
  [ST + "optimization.py"], [("projection after each update", ST + "optimization.py AdamOptimization.optimize"), ("bounds validation", ST + "optimization.py __init__/optimize")], observe=["optimize and __call__ return values"])
p("C26", "Strategies touch only the resources they are configured with",
  "A strategy changes only the resources it is configured to write: step strategies the three buffers named by the state, training the model, optimizer and loss record, tempering the tempered walkers and temperatures, state updates the listed keys of one state, optimisation and custom functions nothing by themselves. The user's start positions and data are never modified.",
  ["histories", "configurations"],
  "every sequence of strategies over every resource set with extra buffers, states and models",
  "Tests inspect only the buffer under test.",
  [ST + "take_steps.py", ST + "train_model.py", ST + "parallel_tempering.py", ST + "update_state.py", ST + "optimization.py", ST + "lambda_function.py"], [("in-place buffer updates by configured name", "Strategy.__call__")], observe=["snapshots of all resources around every strategy call"])
p("C27", "A bundle's production run samples the user's target",
  "If the chains enter production distributed according to the target, every recorded production sample, and the final positions, are distributed according to the target, whatever the flow learned in training, for both bundles, with and without thinning, chain batching and tempering. With a prior, the tempering, local and global steps of a tempered bundle all use one and the same posterior.",
  ["inputs", "histories", "configurations"],
  "every target, data, bundle configuration and trained flow",
  "The quickstart test runs one target without comparing the samples with it; small biases from tempering or a stale flow are invisible.",
  [B + "RQSpline_MALA.py", B + "RQSpline_MALA_PT.py", ST + "take_steps.py", ST + "parallel_tempering.py"], [("composition of invariant steps", B + "*.py strategy_order")], observe=["production buffers from exact-start ensembles"])
p("C28", "Chains converge to the target from any start and training improves the flow",
  "From any start of finite density, the recorded samples converge to the target as the run grows, and longer training makes the flow closer to the target.",
  ["inputs", "histories"],
  "every target and start",
  "An asymptotic statement: no finite run refutes it.",
  [S + "Sampler.py", B + "RQSpline_MALA.py"], [("ergodic kernels plus flow proposals", "whole system")])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
