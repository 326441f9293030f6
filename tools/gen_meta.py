"""Writes properties.jsonl and MANIFEST.json from the table below (run it after changing wv/registry.py)."""
import json, os, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
PROPS = []
M = "src/wax/modules/"
F = "src/wax/flax/modules/"


def P(id, title, statement, over, text, why, files, mech, state=(), observe=(), technique=None, level_note=None,
      na=None):
    PROPS.append(dict(
        id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     observe_at=list(observe), hook_needed=None),
        _t=technique, _n=level_note, _na=na))


P("A01", "Exponential moving average equals its weighted-average definition",
  "At every step of any input sequence, every element of the exponential moving average (Haiku and Flax) equals the "
  "pandas definition: the adjusted average is the weighted mean of all observed values so far with weights decaying by "
  "1-alpha per step (per observed step when NaNs are ignored), the unadjusted one is the matching recursion, seeded by "
  "the initial value when there is one. Missing inputs never contaminate the average, elements never influence one "
  "another, fewer than the required number of observations gives NaN, and alpha and com are two spellings of one parameter. "
  "In linear mode the effective centre of mass grows by one per observation, up to com, and a missing value that is not ignored shrinks it by one.",
  ["inputs", "histories", "configurations"],
  "all real/NaN inputs of any shape, all sequences, alpha in (0,1), every combination of adjust, ignore_na, initial value, "
  "min_periods, return_info, both libraries",
  "the tests compare a few random series against pandas for some parameter combinations; NaN placement, element "
  "independence and long histories are a property of all sequences",
  [M + "ewma.py", F + "ewma.py"],
  [("EWMA step", M + "ewma.py:EWMA.__call__"), ("EWMA step (Flax)", F + "ewma.py:EWMA.__call__")],
  [("mean, old_wt, nobs, is_initialized/count", "numerator/denominator of the weighted average and observation counters", M + "ewma.py")],
  ["output of each step"])

P("A02", "Windowed modules see exactly the last inputs, oldest first",
  "At every step the buffer holds exactly the last L inputs in order of arrival (the fill value where fewer have arrived), "
  "a lag returns the input seen k steps ago (fill value before that), a difference is input minus lagged input, a "
  "percentage change is the ratio to the (optionally forward filled) lagged input minus one, and a rolling mean is the mean of the "
  "available last L inputs, NaN entries excluded per element, NaN if fewer than the minimum number of periods are there. "
  "This holds for Haiku and Flax alike and for any window length, any element shape and any NaN pattern.",
  ["inputs", "histories", "configurations"],
  "all sequences of inputs, all window lengths >= 1, all shapes, fill values, min_periods and NaN patterns",
  "tests run one short series per module; ring/shift errors that need a particular length or NaN at a particular position escape them",
  [M + f for f in ("buffer.py", "lag.py", "diff.py", "pct_change.py", "rolling_mean.py")] +
  [F + f for f in ("buffer.py", "lag.py", "diff.py", "pct_change.py", "rolling_mean.py")],
  [("shift register", M + "buffer.py:Buffer.__call__"), ("lag", M + "lag.py:Lag"), ("pct change", M + "pct_change.py"),
   ("rolling mean", M + "rolling_mean.py"), ("Flax counterparts", F + "buffer.py")],
  [("buffer, len_buffer, i_start", "last L inputs and how many are valid", M + "buffer.py")], ["output of each step"])

P("A03", "Counting, filling, change detection and OHLC follow their history",
  "The counter returns the number of steps taken so far, forward filling returns the last non-NaN value seen (NaN before "
  "any), NaN/inf filling replaces exactly the NaN and infinite entries and nothing else, and change detection is "
  "true exactly when the input differs from the one of the previous step. The open/high/low/close aggregate since the last reset "
  "is the first, largest, smallest and last value observed since then.",
  ["inputs", "histories"],
  "all sequences of inputs, NaN/inf patterns and reset sequences",
  "tests check one or two short series; the guarantee is about every history, including NaNs at the first step and repeated resets",
  [M + f for f in ("counter.py", "ffill.py", "fill_nan_inf.py", "has_changed.py", "ohlc.py")] +
  [F + f for f in ("counter.py", "ffill.py", "fill_nan_inf.py", "has_changed.py", "ohlc.py")],
  [("counter", M + "counter.py"), ("forward fill", M + "ffill.py"), ("fill", M + "fill_nan_inf.py"),
   ("change detection", M + "has_changed.py"), ("OHLC", M + "ohlc.py")],
  [("stored previous value", "last input / last non-NaN / open-high-low-close since reset", M + "ffill.py")], ["output of each step"])

P("A04", "Masked mean, std and normalisation use exactly the selected entries",
  "The masked mean and standard deviation along an axis equal the mean and population standard deviation over exactly the "
  "entries where the mask is set, independent of what the other entries contain (NaN when none is selected); "
  "masked normalisation is (x - mean)/std with those statistics broadcast back along the reduced axis; applying a "
  "mask replaces exactly the entries outside it and leaves the others bit-identical. Any axis, any shape.",
  ["inputs", "configurations"],
  "all arrays of up to three dimensions and any extents, all masks, every axis; selected entries finite",
  "tests use a few fixed masks; the behaviour on all-false rows, non-default axes and NaN under the mask is not sampled",
  [M + f for f in ("apply_mask.py", "mask_mean.py", "mask_std.py", "mask_normalize.py")] +
  [F + f for f in ("apply_mask.py", "mask_mean.py", "mask_std.py", "mask_normalize.py")],
  [("masked mean", M + "mask_mean.py"), ("masked std", M + "mask_std.py"), ("normalise", M + "mask_normalize.py"),
   ("mask", M + "apply_mask.py")], [], ["returned arrays"])

P("A05", "Exponential moving variance and covariance equal their definitions",
  "At every step the exponential moving variance of each element equals the weighted second moment of its observations so "
  "far around their weighted mean (zero before any), with the weights of the exponential moving average that skips missing values. "
  "The exponential moving covariance of each pair equals the moving average of their products minus the product of their moving averages "
  "(the products alone when centred), each following the moving average's own rules for missing values, initial value and minimum periods. "
  "Elements never influence one another.",
  ["inputs", "histories", "configurations"],
  "all sequences of inputs incl. NaN, all parameter combinations, all vector lengths",
  "tests compare one random series with pandas for a few parameter values",
  [M + "ewmvar.py", M + "ewmcov.py", F + "ewmvar.py", F + "ewmcov.py"],
  [("variance step", M + "ewmvar.py:EWMVar"), ("covariance step", M + "ewmcov.py:EWMCov")],
  [("mean/var/weights", "weighted moments of the observations so far", M + "ewmvar.py")], ["output of each step"])

P("A06", "Unrolling a stateful function equals stepping it one input at a time",
  "For any stateful function, every way of unrolling it over a sequence gives output t equal to what stepping it "
  "through inputs 0..t one at a time gives, with the state of step t-1 fed to step t, a fresh random key per step where keys are used (the time-batched transform uses the key it is given at every step), "
  "and the final state returned. This holds with and without first-output skipping, for the compiled-loop and the "
  "Python-loop variants, lifted into other modules, batched in time, and in both libraries; parameters are not changed by it.",
  ["inputs", "programs", "histories"],
  "all user functions (modelled as uninterpreted), all parameters, states, keys, sequence contents and lengths",
  "tests unroll two or three concrete modules on a fixed short sequence; they cannot quantify over the unrolled function or the length",
  ["src/wax/unroll.py", "src/wax/transform.py", "src/wax/flax/core/unroll.py", "src/wax/flax/core/transform.py", "src/wax/flax/core/utils.py"]
  if False else ["src/wax/unroll.py", "src/wax/transform.py", "src/wax/flax/"],
  [("unroll transforms", "src/wax/unroll.py"), ("batch transform", "src/wax/transform.py"), ("Flax unroll", "src/wax/flax/")],
  [("carry", "state and key threaded from step to step", "src/wax/unroll.py")], ["outputs, final state"])

P("A07", "Batching a module is the same as running one copy per row",
  "For any stateful function, the batched version maps over the leading axis: row i of the outputs and of the new state is what the "
  "unbatched function gives for row i of the inputs, of the state and of the parameters (one copy per row, initialised with one shared random key, or with a key per row "
  "when keys are split), and no row influences another. Adding a batch dimension to a module obeys the same rule in Haiku and Flax, and averaging over the batch is the mean over the rows.",
  ["inputs", "programs", "histories"],
  "all user functions (uninterpreted), batch sizes, inputs, states",
  "tests batch one or two concrete modules on one batch size",
  ["src/wax/stateful.py", M + "vmap.py", F + "vmap.py"],
  [("vmap lift", "src/wax/stateful.py:vmap_lift_with_state"), ("Flax vmap", F + "vmap.py")],
  [("batched state", "one copy of the state per row", M + "vmap.py")], ["outputs and new state per row"])

P("A08", "ARMA and SNARIMAX models compute their documented recursion",
  "An ARMA step returns the current noise plus the alpha-weighted last outputs plus the beta-weighted last noises (values not yet there count as zero, the last "
  "coefficient goes with the most recent value, missing results are replaced by zero), element by element, and its memory afterwards is exactly the last outputs and noises. "
  "A SNARIMAX forecast applies its inner model exactly once to the exogenous inputs, the last q forecast errors and the last p observations, oldest first and with missing and "
  "infinite entries replaced by zero, where errors and observations are those made before that forecast; the Flax variant uses the last inputs, the last target-minus-input "
  "differences and the current input. Both libraries obey the same rule for every order of the model.",
  ["inputs", "histories", "configurations"],
  "all sequences, coefficients, orders, inner models (any returned value)",
  "tests run one fixed series with one set of orders", [M + "arma.py", M + "snarimax.py", F + "arma.py", F + "snarimax.py"],
  [("ARMA", M + "arma.py:ARMA.__call__"), ("SNARIMAX", M + "snarimax.py:SNARIMAX.__call__"), ("Flax ARMA", F + "arma.py:ARMA.__call__"),
   ("Flax SNARIMAX", F + "snarimax.py:SNARIMAX.__call__")],
  [("buffers", "past outputs, noises, observations", M + "arma.py")], ["output of each step", "state", "features handed to the inner model"])

P("A09", "A module updated on events is frozen between events",
  "A module updated on an event (Haiku) steps exactly when the event is true; when it is false the state of the module and of its submodules is unchanged and the "
  "output is the one of the last event (or the configured initial output before any), for any module and event sequence. In Flax, where the wrapped module always advances, the output is "
  "the one of the last event, or the newest one without an event condition. Scanning a streaming function equals stepping it one input at a time, and with a reset condition "
  "the step after a triggering input starts from the state the scan started with.",
  ["inputs", "programs", "histories"],
  "all user modules (uninterpreted), event sequences, inputs, sequence lengths",
  "tests use one counter-like module and one event sequence",
  [M + "update_on_event.py", "src/wax/flax/core/streaming_transforms.py"],
  [("conditional step", M + "update_on_event.py:UpdateOnEvent.__call__"), ("Flax", "src/wax/flax/core/streaming_transforms.py:ConditionalComputation"),
   ("scan", "src/wax/flax/core/streaming_transforms.py:streaming_scan")],
  [("prev_output, prev_state", "result of the last event", M + "update_on_event.py")], ["outputs and module state per step"])

P("A10", "Online learning predicts first, then updates once with the step's gradient",
  "At every step of an optimizer or online-learner module (Haiku and Flax), prediction, loss and gradient use the parameters and model state from before the step, and the "
  "optimizer runs exactly once, on that gradient (non-finite entries filled first where the module fills them), its own state and those parameters; the new parameters are the old ones plus its updates, "
  "then projected if there is a projection, and the model's own state is the one the model returned. Parameters excluded by the predicate never change, but take part in the loss. The Newton optimizer "
  "multiplies each parameter's gradient by the inverse of eps times the identity plus the sum of the outer products of all its gradients so far, this one included.",
  ["inputs", "programs", "histories"],
  "all models, losses, projections and gradient transformations (uninterpreted), all parameters, inputs and sequences; Newton for parameters of up to 4 elements",
  "tests fit one linear regression and check convergence; a one-step lag in parameters or a dropped state still converges",
  [M + f for f in ("online_supervised_learner.py", "optax_optimizer.py", "func_optimizer.py", "update_params.py", "online_optimizer.py")] +
  [F + f for f in ("online_supervised_learner.py", "optax_optimizer.py", "func_optimizer.py", "update_params.py", "online_optimizer.py")] +
  ["src/wax/optim/newton.py", "src/wax/flax/core/streaming_transforms.py"],
  [("supervised learner", M + "online_supervised_learner.py"), ("optimizer module", M + "optax_optimizer.py"),
   ("params merge", M + "update_params.py"), ("newton", "src/wax/optim/newton.py")],
  [("params, opt_state, model state", "threaded from step to step", M + "online_optimizer.py")], ["outputs, new parameters and states"])

P("A11", "Agent/environment feedback threads actions and states in order",
  "In the Haiku feedback module the environment at step t receives the agent's action of step t-1 (the configured initial action, or the agent's answer to the raw observation, at the first step) together with "
  "the raw observation of step t, the agent then sees the environment's observation, each is called once per step with its own state, and the reward, observation, action and info reported are those of that step. "
  "The Flax module calls its agent once per step on that step's observation (and reward, when given and accepted), returns and remembers its action, and the Flax loop reports that step's observation, action and reward. "
  "On the host, gym_unroll alternates agent and environment, each acting on what the other has just returned (the agent first, on the reset or given observation), calls every callback in order with that step's values, stops exactly when the environment "
  "or a callback says so, and returns the last step; the Haiku wrappers call init once per run and apply once per step with the kept parameters, the last state, a fresh key and that step's observation; Record keeps every step that is not the final one, in order, and Stop ends at its count.",
  ["inputs", "programs", "histories"],
  "all agents and environments (uninterpreted), all observation sequences, episodes of any length; up to three callbacks of each kind",
  "tests use one agent and one environment; swapping the step order by one is hidden by their symmetry",
  [M + "gym_feedback.py", F + "gym_feedback.py", "src/wax/gym/gym_unroll.py", "src/wax/gym/haiku_env.py", "src/wax/gym/haiku_agent.py", "src/wax/gym/agent.py", "src/wax/gym/callbacks/"],
  [("feedback", M + "gym_feedback.py:GymFeedback"), ("flax feedback", F + "gym_feedback.py:GymFeedback"), ("host loop", "src/wax/gym/gym_unroll.py:gym_unroll")],
  [("action", "last action", M + "gym_feedback.py"), ("prev_action", "last action", F + "gym_feedback.py")], ["rewards, observations, actions, info per step; calls of agent, environment and callbacks"],
  technique="contract-based deductive verification: step contracts over verification conditions from the modules' jaxprs, and contracts with a loop invariant on the host Python code executed symbolically from its own syntax tree, discharged by SMT")

HOST = ("contract-based deductive verification: pre/postconditions and loop invariants on the host Python code, executed symbolically from its own "
        "syntax tree on every run (wv/pysym.py), discharged by SMT")
S = "src/wax/stream.py:"
E = "src/wax/encode.py:"

P("A12", "Merging streams keeps every event once, in order, with no look-ahead",
  "When time-indexed streams are merged on the clock of a local stream, there is one row per local event, in order; in it every other stream shows its last event strictly before the local time (before the local time floored to that stream's frequency, "
  "if it has one), never a later one: a new event is shown by the first row after it, and afterwards the stream is carried forward if it is forward filled and missing (its fill value) otherwise, as before its first event. Every event enters its stream's buffer "
  "exactly once, in order, and the buffer shows the last events up to its length, oldest first, padded in front. Positions precomputed for a dataset (traced or not, with its variables of any clock, constant or not) give the same values as walking its events, "
  "and unrolling a stream stacks its rows, without the first if that is skipped.",
  ["inputs", "histories", "configurations"],
  "all event times and values, streams of any number of events, every combination of forward filling, buffering and frequency; up to two streams beside the local one, datasets of a few variables",
  "tests merge two hand-made streams and read one dataset; look-ahead and lost or repeated events depend on how the clocks interleave", ["src/wax/stream.py"],
  [("merge", S + "Stream.merge"), ("buffers", S + "tree_buffer_transform"), ("precomputed positions", S + "get_dataset_index"), ("reading", S + "access_data"),
   ("tracing", S + "Stream.trace_dataset"), ("stacking", S + "unroll_stream")],
  [("next event, last shown value, buffer of each stream", "how far each stream has been read and what it shows", S + "Stream.merge")],
  ["merged rows", "precomputed positions", "values read at them"], technique=HOST)

P("A13", "Encoding dates and strings round-trips and preserves order",
  "Encoding a 64-bit integer, a datetime (timestamp, datetime, scalar or one-axis array, in each unit that fits) or an array of strings and decoding it gives back the original, and so does encoding and decoding the variables of a dataset. Comparing two encoded "
  "integers or dates with `less` is comparing the originals, before 1970 too. Flooring a date to its day, encoded or not, gives the last midnight that is not after it, and NaT stays NaT everywhere.",
  ["inputs"], "all 64-bit integers; all dates representable in nanoseconds; all arrays of strings of any size up to two axes",
  "tests round-trip a handful of dates after 1970; signs of the two words and dates before the epoch are not sampled", ["src/wax/encode.py"],
  [("words", E + "encode_int64"), ("order", E + "less"), ("dates", E + "datetime64_encoder"), ("floor", E + "floor_datetime"), ("strings", E + "string_encoder")], [],
  ["encoded and decoded values, result of less and of flooring"], technique=HOST)

P("A14", "The compiled CPU kernel computes the same moving average as the modules",
  "The compiled (numba) kernel and the pandas accessor built on it give at every row and column the exponential moving average defined by the same rules as the "
  "module (adjusted, unadjusted and linear weights, missing values ignored or not, initial value, minimum number of observations, com or alpha). Resuming from a returned state "
  "continues exactly as one uninterrupted run would, any number of times: neither the values nor the state given by the caller are modified. The accessor aligns a given state on the frame's columns and labels results and state like the frame.",
  ["inputs", "histories", "configurations"],
  "all input matrices of any size, all NaN patterns, every parameter combination, every split of a run",
  "tests compare a few random frames with pandas; NaN placement, several columns, resumption and minimum counts are an infinite space", ["src/wax/numba/ewma_numba.py"],
  [("kernel", "src/wax/numba/ewma_numba.py:ewma"), ("accessor", "src/wax/numba/ewma_numba.py:NumbaExponentialMovingWindow.mean")], [("state arrays", "running mean, weights, counts", "src/wax/numba/ewma_numba.py")],
  ["output array, returned state, the caller's arrays afterwards"],
  technique="contract-based deductive verification: pre/postconditions, frame conditions and loop invariants (rows, columns) on the kernel's own Python text, executed symbolically from its syntax tree, discharged by SMT")


A = "src/wax/accessors.py:"

P("A15", "Accessors apply a function to every row and label the outputs",
  "Applying a function through the stream accessor of an xarray dataset or array or a pandas frame or series gives what unrolling it over every row of the object (rows of missing values included, several index or column levels too) gives, from the parameters and "
  "state given or fresh ones, with the key given, without the first step if that is skipped; the final state is returned if it is asked for. Each output keeps its values and its place in the container the function returns, and is labelled by name: by the leading axes "
  "of the object (or the axes named for it), the coordinates of those axes and the times of its steps, rows and columns of a frame being its first and its other levels. The accessor's moving average passes every option on to the module.",
  ["inputs", "configurations"],
  "all objects of one to four axes with any values, sizes and coordinates, one or several row and column levels, all functions and containers of one to three outputs of any rank, parameters/state given or not, labels or raw outputs, first step skipped or not",
  "tests apply one module to one object of each kind and mostly with one output shaped like the input; labels, options and given states are combined in ways no test samples",
  ["src/wax/accessors.py", "src/wax/format.py", "src/wax/stream.py"],
  [("apply", A + "StreamDataFrame.apply"), ("preparation", S + "Stream.prepare"), ("labels", "src/wax/format.py:format_dataframe"), ("moving average", A + "ExponentialMovingWindow.mean")], [],
  ["values and labels of the outputs, final state"], technique=HOST)


D = "src/wax/flax/debug/"
P("A16", "Debugging, profiling and memory tracking observe without changing anything",
  "Wrapping a stateful function for debugging, profiling or memory tracking never changes it: its init and apply are called exactly once per call, with the very arguments given, and their very result is returned (or their error raised). "
  "While enabled, each application is recorded exactly once, under its name, with its first input, its output, the new state and the elapsed time where these are asked for (memory is looked at once before and once after), and a hook fires exactly when it and its debugger are enabled and its condition holds, "
  "a condition that raises counting as false and thresholds, step intervals and state changes meaning what their names say; while disabled nothing is recorded. "
  "What is recorded is a copy that later in-place changes do not reach, histories keep the last entries up to their maximum, oldest first, and bottlenecks, data sizes and the memory of states are counted leaf by leaf.",
  ["inputs", "programs", "histories", "configurations"],
  "all functions wrapped (arbitrary results and errors), all arguments, options, histories of any length, conditions, states nested as dictionaries, tuples and lists",
  "tests wrap one function and look at one record; an argument dropped under one option, a record made twice, an alias of a live state or a history one entry too long shows only for the combination that exposes it",
  [D + f for f in ("debugger.py", "profiler.py", "memory_tracker.py")],
  [("wrapper", D + "debugger.py:debug_streaming"), ("wrapper", D + "profiler.py:profile_streaming"), ("wrapper", D + "memory_tracker.py:track_memory_usage"), ("hooks", D + "debugger.py:DebugHook.trigger")],
  [("state_history, events, metrics", "what was recorded, oldest first, bounded", D + "debugger.py:StreamingDebugger.step")],
  ["results of the wrapped function, calls it receives, records kept"], technique=HOST)

P("A17", "Compressed, hierarchical and attended memories hold what they say",
  "At every step of any history a compressed memory holds what its compression says of all the inputs so far: the last ones (uncompressed), the last of every factor-th input, oldest first, their exponential average, adjusted for its start, interpolated percentiles of the inputs held, renewed with every tenth input, "
  "or one count per hash function and input in a count-min sketch. A hierarchical memory gives the recent inputs at each step, and its medium and long levels hold every fifth and every fiftieth input, keeping what they hold in between. The history of an attention-based state selector "
  "is the last states, oldest first, up to its length, and is attended to when asked for and when there are two states.",
  ["inputs", "histories", "configurations"],
  "all inputs and histories, buffer lengths, factors, decay, sorted percentiles, numbers of hashes and buckets, state sizes",
  "tests look at shapes after a few steps; what a memory holds after it wrapped around, between updates or with another compression is a property of histories they do not run",
  ["src/wax/flax/modules/compressed_buffer.py", "src/wax/flax/core/advanced_state_patterns.py"],
  [("levels", "src/wax/flax/modules/compressed_buffer.py:CompressedBuffer"), ("hierarchy", "src/wax/flax/modules/compressed_buffer.py:HierarchicalBuffer"),
   ("history", "src/wax/flax/core/advanced_state_patterns.py:AttentionBasedStateSelector.add_to_history")],
  [("write_idx, counters", "position in the ring and steps so far", "src/wax/flax/modules/compressed_buffer.py")], ["outputs of each step"], technique=HOST)

C = "src/wax/flax/core/advanced_state_patterns.py:"
B = "src/wax/flax/core/streaming_transforms.py:"
P("A18", "Composed modules each run once, with the data of their place",
  "However many modules are composed, each one runs exactly once per step, its result is kept under its own name and the inputs given are not modified: a pipeline hands the outputs of each module to the next, a parallel composition gives each the same input, a hierarchical one hands down the influence, and a hierarchical state gives "
  "each module the inputs and the outputs of the modules before it that it depends on. A hierarchical state machine runs each state once, after the states it depends on, a failing one not stopping the others, and blends a tenth of each higher state into the lower ones when coordinated hierarchically; a conditional module runs exactly when its condition "
  "holds of the inputs (the first input passes otherwise), and a state machine runs the module of its state, then takes the first transition whose condition holds. The decorators and wrappers for modules with state do the same with the modules and options they are given, and only the state and cache of a module can change.",
  ["inputs", "programs", "histories", "configurations"],
  "any number of composed modules, transitions and dependencies with arbitrary outputs, conditions and inputs (the order of states and their hierarchical blending: up to three states)",
  "tests compose two or three modules with one kind of output; which data reaches which module is a statement about every number of modules and every output",
  ["src/wax/flax/core/advanced_state_patterns.py", "src/wax/flax/core/streaming_transforms.py", "src/wax/flax/core/state_utils.py"],
  [("composition", C + "CompositeStateManager.__call__"), ("states", C + "HierarchicalStateMachine.__call__"), ("dependencies", B + "HierarchicalState.execute_in_order"), ("condition", B + "ConditionalStateUpdate.__call__"),
   ("transitions", B + "StreamingStateMachine.__call__"), ("state", "src/wax/flax/core/state_utils.py:apply_with_state")],
  [("coordination, current", "steps of the states; the present state", C + "HierarchicalStateMachine.__call__")], ["outputs and new state of each step"], technique=HOST)

D, V = "src/wax/flax/debug/", "src/wax/flax/visualization/"
P("A19", "Reports and monitors say exactly what was recorded",
  "Summaries of profiling, debugging and memory tracking are exactly the counts, totals, means, medians, deviations, extremes and first and last values of the records held, over all of them or over one module's (an error entry, not a failure, when there are none), and growth of memory over the "
  "last ten records (with its trend per step and its severity) and recommendations are reported exactly when they hold of the records. A data flow tracker gives back what was recorded, in order, in full or by module and type or just the last n of it (none for n = 0), and a dashboard keeps each pipeline apart and raises an alert exactly for every execution time or memory use above its threshold while alerts are enabled. "
  "Asking for a report changes nothing, what was handed out does not change with later records, and clearing forgets everything recorded and nothing else.",
  ["inputs", "histories", "configurations"],
  "any number of records with arbitrary values, modules and types, thresholds, pipelines and history lengths",
  "tests look at a report of one or two records of one module; a statistic over the wrong records, a list still shared with the recorder or a threshold that swallows a second alert shows only for histories they do not build",
  [D + f for f in ("debugger.py", "profiler.py", "memory_tracker.py")] + [V + "data_flow_visualizer.py", V + "interactive_dashboard.py"],
  [("summary", D + "profiler.py:ProfileResult.get_summary"), ("summary", D + "debugger.py:StreamingDebugger.get_summary"), ("summary", D + "memory_tracker.py:MemoryTracker.get_memory_summary"),
   ("history", V + "data_flow_visualizer.py:DataFlowTracker"), ("alerts", V + "interactive_dashboard.py:InteractiveDashboard._update_performance_metrics")],
  [("metrics, snapshots, data_history", "the records, oldest first", D + "profiler.py:StreamingProfiler.record_metrics")], ["the reports returned"], technique=HOST)


def main():
    from wv import registry
    done = registry.PROPS
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for p in PROPS:
            f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}, ensure_ascii=False) + "\n")
    checks, na = [], []
    for p in PROPS:
        e = done.get(p["id"])
        if e is None:
            na.append({"property": p["id"], "reason": p["_na"] or "no contract within reach yet (work in progress)"})
            continue
        checks.append({
            "property": p["id"],
            "quick_cmd": f"./check.sh {p['id']} --tier quick",
            "thorough_cmd": f"./check.sh {p['id']} --tier thorough",
            "technique": p["_t"] or "contract-based deductive verification: pre/postconditions, state and loop invariants over verification "
                                   "conditions extracted mechanically from the code's own jaxpr, discharged by SMT",
            "level": e["level"],
            "level_note": p["_n"] or ("Unbounded proof (all inputs, lengths and histories) for the contracts not labelled bounded in the evidence file; the functions' own text is executed symbolically "
            "by wv/pysym.py, loops cut at their heads by invariants, dependencies replaced by the contracts listed as assumptions in the evidence; trusts that execution, those contracts and the SMT solvers." if p["_t"] == HOST else "Unbounded proof (all inputs, shapes' extents and histories, by induction over a ghost-state invariant) for the "
            "contracts not labelled bounded in the evidence file; assumes exact real arithmetic extended with NaN/inf, JAX's tracer and the "
            "lax-primitive semantics transcribed in wv/jaxsym.py (cross-checked against real executions on every run), and the SMT solvers."),
        })
    man = {"version": 1, "setup_cmd": "bash ./setup.sh", "checks": checks, "not_applicable": na,
           "notes": "See DESIGN.md. No hooks: the verification conditions come from tracing the functions of /repo/src as they are."}
    json.dump(man, open(os.path.join(VERIF, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
    import jsonschema
    sch = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for p in PROPS:
        q = {k: v for k, v in p.items() if not k.startswith("_")}
        jsonschema.validate(q, sch)
        n = q["statement"].count(". ") + 1
        if n > 3:
            print("WARNING", p["id"], n, "sentences")
    jsonschema.validate(man, json.load(open("/root/.vp/MANIFEST.schema.json")))


main()
