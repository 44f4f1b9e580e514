"""Writes properties.jsonl (one place to edit the property texts)."""
import json, os
C = "src/jax_act/core/controller.py"
S = "src/jax_act/core/states.py"
B = "src/jax_act/core/builder.py"
V = "src/jax_act/core/viewer.py"
E = "src/jax_act/core/tensoreditor.py"
U = "src/jax_act/core/utils.py"
I = "src/jax_act/core/immutable.py"
LA = "src/jax_act/layers/act.py"
LC = "src/jax_act/layers/core.py"
F = "src/jax_act/frameworks/flax.py"
P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mechanism],
                          "observe_at": list(observe), "hook_needed": None}})


ST = [("probabilities", "cumulative halting probability of each batch element (lane)", S),
      ("residuals", "probability left when the lane halted", S),
      ("iterations", "steps the lane took part in", S),
      ("accumulators", "weighted sums, one pytree per name", S),
      ("updates", "cached, uncommitted updates; None when the slot is empty", S)]

prop("C01", "Accumulation is conserved",
     "Committing a step adds to every element of every accumulator exactly weight x cached update, where the weight is "
     "the lane's halting probability clamped to [0,1] times the depression constant or, on the step in which the lane "
     "halts, whatever remains to one. The lane's cumulative probability grows by that same weight, so at all times an "
     "accumulator is its starting value plus the weighted sum of its committed updates and the cumulative probability "
     "is the sum of the weights. The cumulative probability is never above one and is exactly one once the lane has halted by iterating.",
     ["histories", "inputs", "configurations"],
     "every sequence of cache/commit/reset/edit/restore steps, every halting probability (ties with the threshold, "
     "out-of-range and infinite values), every epsilon, depression constant, batch shape, accumulator pytree and dtype",
     "The tests commit one or two hand-picked steps with uniform probabilities on one shape; conservation over a history, at "
     "threshold ties and on lanes halting at different steps is never observed.",
     [C, U], [("ACT_Controller._process_probabilities / _update_accumulator", C), ("setup_left_broadcast", U)], ST,
     ["controller.probabilities", "controller.accumulators after iterate_act"])
prop("C02", "Lanes halt at the right step, with the right books",
     "A lane halts at the first committed step at which its cumulative plus its (clamped, depressed) halting probability is strictly "
     "above one minus epsilon, and in no other step. Its residual is the probability that was left before that step and is recorded in that step only; "
     "its iteration counter counts every step up to and including it. The halting flags (per-lane, any, all) and the threshold always agree with the cumulative probabilities and epsilon.",
     ["histories", "inputs", "configurations"],
     "every history of steps, with probabilities landing exactly on, just below and just above the threshold, for every epsilon and depression constant",
     "Tests check one halting step with fixed probabilities; exact ties, epsilon/depression combinations, and the step after the halting step are not sampled.",
     [C], [("ACT_Controller._process_probabilities", C), ("halted_batches / is_completely_halted / is_any_halted / halt_threshold", C)], ST,
     ["controller.residuals", "controller.iterations", "controller.halted_batches"])
prop("C03", "A halted lane is frozen until it is reset or edited",
     "Once a lane is halted, no further committed step changes its accumulators, cumulative probability, residual or iteration counter, "
     "whatever updates and halting probabilities are supplied for it and whatever the other lanes do. Only resetting the batch or an explicit edit changes it. "
     "This also holds for lanes that are halted through editing, restoring or changing epsilon.",
     ["histories", "inputs"],
     "every history after the halting instant, including lanes halted with a cumulative probability below one, and non-finite updates for halted lanes",
     "A unit test stops at or right after the halting step; it cannot follow a lane through arbitrary later steps of the others.",
     [C], [("select on halted_batches", C)], ST, ["all per-lane fields across iterate_act"])
prop("C04", "Every cached update is used exactly once",
     "A step commits only when every accumulator has exactly one cached update of the accumulator's shape, uses each of them exactly once for its own accumulator, and leaves all slots empty. "
     "Caching for an unknown name raises ValueError, caching twice raises RuntimeError, committing with a missing or mis-shaped update raises RuntimeError, halting probabilities of the wrong shape raise ValueError, and resetting with pending updates raises RuntimeError. "
     "The ready-to-commit and has-cached-updates flags say exactly whether all, respectively any, slots are filled.",
     ["histories", "schedules", "inputs"],
     "every order of caching, every subset of filled slots, every repeated, skipped or misdirected call, from any reachable state",
     "Tests cache one accumulator once; orders, partial fills, failed calls in between and re-use of an older controller are not enumerated.",
     [C], [("cache_update", C), ("iterate_act clears the slots", C), ("reset_batches guard", C)], ST,
     ["exceptions", "controller.updates", "updates_ready_to_commit", "has_cached_updates"])
prop("C05", "Reset touches halted lanes only, and fully",
     "Resetting sets every halted lane's accumulators back to their current defaults and its cumulative probability, residual and iteration counter to zero, and leaves every other lane bit for bit as it was. "
     "Defaults, epsilon and the depression constant are unchanged. A reset lane then accumulates afresh as if newly built.",
     ["histories", "inputs", "configurations"],
     "every mixture of halted and running lanes, every accumulator pytree and batch shape, non-zero and edited defaults, repeated resets",
     "The tests reset one flat accumulator in one pattern; pytree accumulators did not even run before the repair made here.",
     [C, U], [("reset_batches", C)], ST + [("defaults", "value a reset returns to", S)], ["controller after reset_batches"])
prop("C06", "Operations never alter an existing object",
     "No operation changes any controller, builder, viewer, editor or saved state that already exists, nor any pytree or array passed to it or handed out by it; each returns a new object. "
     "Histories forked from one object therefore evolve independently and an older object can always be continued as if nothing had happened since. Assigning to an attribute of such an object raises AttributeError.",
     ["histories", "schedules"],
     "every object in the pool re-verified after every operation of every history, with arbitrary forks and returns to older objects",
     "A unit test compares one before/after pair; aliasing between dictionaries or leaves only shows when some other holder is looked at later.",
     [C, B, V, E, S, I], [("copy-before-write of the dictionaries", C), ("Immutable.__setattr__", I)], ST,
     ["every live object after every operation"])
prop("C07", "Failed or interrupted operations leave no trace",
     "If an operation is rejected, or is interrupted at any point by an exception (keyboard interrupt, memory error, error inside a user callback), no existing object has changed, no partial result is observable, and the same operation retried on the same objects gives exactly the result it would have given. "
     "The error reaches the caller; it is never swallowed and turned into a result.",
     ["fault_sequences", "crash_points", "histories"],
     "an exception injected at every kind of line and bytecode instruction of the library, at any operation of any history, followed by retries and further operations",
     "Tests never interrupt the library; every partial-execution point is outside their reach.",
     [C, B, V, E, LA, LC], [("pure-functional state transitions: new state is only published on return", C)], ST,
     ["object pool after the fault", "result of the retry"])
prop("C08", "Concurrent callers do not interfere",
     "Threads working at the same time on the same or different controllers, builders, viewers and editors each get exactly the results they would get alone, at whatever instants they are switched. "
     "No call fails, blocks forever or sees another caller's data because of what others do.",
     ["schedules", "histories"],
     "every interleaving of 2-4 callers at line or bytecode granularity inside the library, sharing objects",
     "The tests are single-threaded; interleavings inside one operation cannot be provoked by them.",
     [C, B, V, E, LA], [("absence of shared mutable state in library operations", C)], ST,
     ["result of every operation of every task under the seeded scheduler"])
prop("C09", "Checkpoint, crash and restore are invisible",
     "A controller, builder, viewer or editor taken apart and put together again (save and load, pytree flatten and unflatten, pickling, plain leaf bytes, passing through a compiled identity, a device transfer, or a placement on another or across several devices) is bit for bit the object it was, including structure, names, empty slots, dtypes, epsilon and depression constant. "
     "A process that crashes at any moment and restarts from the last such checkpoint continues exactly as an uninterrupted one from that point.",
     ["crash_points", "histories", "configurations"],
     "a checkpoint and a crash at any operation of any history, several restarts in a row, restart in a fresh interpreter with another hash seed, any pytree nodes in accumulators",
     "Tests round-trip one freshly built state in one process; mid-step states, custom nodes and continued execution are not covered.",
     [S, C, B, V, E], [("state_flatten / state_unflatten", S), ("flatten_* / save / load", C)], ST,
     ["restored object", "digests of the continued history"])
prop("C10", "Compiled and eager execution agree",
     "Any sequence of operations gives the same results, the same errors and the same structure whether run eagerly, with compilation disabled, compiled step by step, as one compiled program, as the body of a scan or while loop, or vectorised over several updates; executing a layer under vmap over initial states gives what executing it for each state gives. "
     "Epsilon, depression constant, probabilities, updates and the driver's iteration limit may all be traced values.",
     ["programs", "histories", "configurations"],
     "every history with an arbitrary execution mode per operation",
     "A few tests jit one call; mode-dependent branches inside longer mixed histories are not compared.",
     [C, S, B, V, E], [("pytree registration", S), ("lax.select instead of Python branches", C)], ST,
     ["results of the same trace under different execution modes"])
prop("C11", "Lanes do not influence each other",
     "What happens to one batch element depends only on its own probabilities, updates and defaults: changing anything in any other lane, including to infinities or NaN, or halting, resetting or masking it, leaves this lane's every field bit for bit the same.",
     ["histories", "inputs"],
     "paired runs of the same history that agree on one lane and differ arbitrarily in all others",
     "Needs two executions compared; tests look at one.",
     [C, U, V], [("left broadcasting of per-lane weights", U)], ST, ["the watched lane in both runs"])
prop("C12", "The layer driver runs the documented loop",
     "Executing a layer gives exactly the controller and state of the plain loop: build the controller, then run iterations while some lane is unhalted and fewer than the maximum number of iterations were run. "
     "The controller is made once with the given depression constant and extra arguments, lazy set-up is done once before the loop and leaves no trace in the result, and an exception from a layer callback at any iteration reaches the caller, after which the layer can be executed again with the right result. "
     "This holds nested, repeatedly, with checks on or off, eagerly and compiled.",
     ["fault_sequences", "programs", "inputs", "histories"],
     "scripted layers with any halting pattern, state pytree, iteration limit (including zero and already halted controllers) and a failure at any callback invocation",
     "The tests execute one or two layers to completion; limits, ties, failures and re-use are not covered.",
     [LA, LC], [("AbstractACTTemplate.execute_act", LA), ("_is_act_not_complete", LA)],
     [("ACTMetaData", "iteration count and limit", LA)], ["execute_act result", "callback log"])
prop("C13", "Contract-breaking layers are rejected, honest ones never",
     "With checking on, a layer that returns something other than a controller or an empty one from controller creation, or from an iteration returns anything but a pair of a new controller and a state, the same controller, or a controller with uncommitted updates, is rejected with TypeError (wrong type) or RuntimeError (wrong use) at the iteration where it does so. "
     "A layer that keeps the contract is never rejected, and checking never changes its result. With checking off nothing is examined: an empty controller, an unchanged controller or a pair in a list simply runs.",
     ["fault_sequences", "programs", "inputs"],
     "Byzantine layers misbehaving in any of the listed ways from any iteration on, and honest layers of every shape",
     "Only the helper validators are unit-tested, one bad value each; misbehaviour in the middle of a run is not.",
     [LC, LA], [("ContractValidationWrapper", LC)], (), ["exception type from execute_act"])
prop("C14", "Views are faithful and side-effect free",
     "A viewer made from a controller shows exactly its fields; masking keeps the elements whose lane is selected bit for bit and zeroes all others in every tensor, even where they hold NaN or infinity; halted-only and unhalted-only select exactly those lanes; a transform applies the function once to every tensor and to nothing else, leaving empty slots empty. "
     "Masks that are not boolean or not of batch shape raise ValueError and a failing transform function raises RuntimeError. Viewing never disturbs the controller.",
     ["histories", "inputs", "fault_sequences"],
     "controllers from any history (also with pending updates), arbitrary masks and chains of views, callbacks failing at any call",
     "Tests view one freshly built controller with one mask; pending updates, pytrees and non-finite data are not viewed.",
     [V, U], [("transform / mask_data / halted_only / unhalted_only", V)], ST, ["viewer fields"])
prop("C15", "Edits change exactly what they say or are refused",
     "An editor shows the controller's state; each setter changes exactly the named field to exactly the given value, and the controller finally built has those values and everything else untouched, and behaves accordingly from then on. "
     "In standard mode a value of the wrong shape, dtype, tree structure or range, or for an unknown accumulator, raises an error; in silent mode value checks are skipped and nothing else differs. The chosen error mode survives every setter. Replacing fields of a saved state likewise changes exactly those fields of the copy.",
     ["histories", "inputs", "fault_sequences"],
     "any sequence of valid and invalid edits on controllers from any history, then continued execution",
     "Tests call each validator once in isolation; sequences of edits followed by further steps are not run.",
     [E], [("TensorEditor setters", E), ("_execute_validation", E)], ST, ["editor fields", "built controller", "exceptions"])
prop("C16", "Accumulators do not influence each other",
     "What an accumulator holds depends only on its own definition, updates and edits and on the lanes' probabilities: renaming accumulators, defining or caching them in another order, adding or removing others, or changing (even poisoning) the others' values leaves it, and all per-lane statistics, bit for bit the same.",
     ["histories", "inputs", "configurations"],
     "paired runs of the same history that agree on one accumulator and differ in names, order, number and contents of the others",
     "Needs paired executions; tests use one or two accumulators with fixed names.",
     [C, B, V, E, S, U], [("per-name dictionaries", C), ("merge_pytrees", U)], ST, ["the watched accumulator in both runs"])
prop("C17", "Structure, shapes and dtypes never drift",
     "Every operation keeps the set of accumulators, each one's pytree structure, the shape of every tensor and the dtype of every accumulator, default and per-lane statistic, whatever the dtype of updates, so that any step can serve as a loop body (only a viewer transform may change shapes, when its function does). "
     "An operation that is legitimate for one supported structure, dtype, batch rank or size (also scalar, size one and empty batches) is accepted for all of them.",
     ["histories", "inputs", "configurations"],
     "every operation of every history over mixed dtypes, nested, named and custom pytree nodes and degenerate batch shapes",
     "Tests use float32 arrays, lists and dicts of two or three shapes.",
     [C, U, S, B], [("merge_pytrees", U), ("astype to the accumulator's dtype", C), ("setup_left_broadcast", U)], ST,
     ["tree structure, shapes and dtypes of every result"])
prop("C18", "Built controllers are what was defined",
     "A builder starts with zero statistics and the requested batch shape, dtype, epsilon and depression constant; each definition adds or replaces exactly the named accumulator, its default and an empty slot, with exactly the given values (or the given shape, dtype and fill), and a built controller contains exactly the definitions of the builder it came from. "
     "Invalid requests (epsilon outside the open unit interval, non-floating dtype or leaf, wrong batch shape, too few dimensions, corrupt shapes) are refused with ValueError or TypeError and leave the builder usable and unchanged.",
     ["histories", "inputs", "fault_sequences"],
     "every sequence of valid, repeated and invalid definitions and builds, forked at any builder",
     "Tests define two accumulators once; redefinition, forks, failed definitions in between and pytrees of shapes are not combined.",
     [B], [("new_builder / define_accumulator_* / build", B)], ST, ["builder and controller fields", "exceptions"])
prop("C19", "Flax layers initialise once and then run the same loop",
     "A Flax layer's parameters are created exactly once, at initialisation, before the loop; initialisation and every later application with given parameters produce exactly the result of the plain documented loop with those parameters, without changing them and without being affected by earlier applications. "
     "Extra iterations run for lazy set-up leave no trace in any result and do not happen once parameters are given, and a failing iteration leaves the layer and parameters usable.",
     ["histories", "fault_sequences", "programs"],
     "init/apply histories with re-bound and replaced parameters, eager and compiled, layers nested in modules, failures at any callback invocation",
     "The integration tests train one layer; equality with the plain loop, repeated application and failures are not checked.",
     [F, LA], [("FlaxACTLayer.setup_lazy_parameters", F), ("execute_act", LA)], (), ["init_with_output / apply results", "parameter tree"])
prop("C20", "Pytree broadcasting utilities are correct",
     "Broadcasting a pytree onto another repeats each source leaf over exactly the leaves below it, and the operator helpers apply the operator leaf by leaf with left broadcasting, raising on incompatible structures or shapes.",
     ["inputs"], "every pair of trees", "Fixed example trees only.",
     [U], [("broadcast_pytree_shape / execute_binary_operator", U)])
prop("C21", "Derivatives follow the accumulation",
     "Differentiating the results of a history of steps and resets (accumulators, cumulative probabilities, residuals) with respect to the cached updates, the halting probabilities, the depression constant, the defaults and the state it started from gives exactly the derivative of the weighted sums: "
     "an update counts with its weight, a halting probability strictly between 0 and 1 with depression constant times update, in the step in which a lane halts the remainder passes its derivative back to the lane's earlier probabilities, and lanes that are halted, reset or masked contribute nothing from there on. "
     "This holds in reverse and forward mode, eagerly, compiled, scanned and rematerialised, and in forward mode through the layer driver.",
     ["histories", "inputs", "programs"],
     "every finite history with lanes halting, being reset and masked at different steps, from any reachable state, in every differentiation mode",
     "The tests run one training loop and look at the loss; no derivative is ever compared, and values stay right when derivatives are cut off.",
     [C, V, B], [("_process_probabilities / _update_accumulator", C), ("reset_batches", C)], ST,
     ["jax.vjp / jax.jvp of iterate_act, reset_batches and viewer masks"])
prop("C22", "Results depend on nothing but the operands",
     "What an operation returns, or which error it raises, is determined by the object it is applied to and its arguments alone. It does not depend on what else the process did before or does in between "
     "with other controllers, builders, editors or layers (also with equal names, shapes or values, also the very same calls), on failures or interrupts those suffered, on the time of day, the state of random generators, the calling thread, reuse of freed memory or the hash seed: the same history gives the same results bit for bit. "
     "No operation, completed, refused or interrupted, leaves a setting of the process changed (JAX configuration, NumPy error handling, warning filters, random generators, environment, threads).",
     ["histories", "schedules", "fault_sequences", "configurations"],
     "paired runs of every history: alone in a fresh process, and amid any operations of another client on any objects, faults, clock jumps, reseeding, garbage collection, other threads; some in another process with another hash seed",
     "Needs the same history executed twice in different surroundings; tests run each call once, in a process whose past they do not vary.",
     [C, B, V, E, S, U, LA, LC], [("pure functions without module- or class-level memory", C), ("validation without remembered verdicts", E), ("checks executed for every layer and call", LC)], ST,
     ["every result and error of both runs", "process settings after every operation"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
