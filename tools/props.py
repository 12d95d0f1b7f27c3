H = ["histories", "inputs", "configurations"]

prop(
    "S01", "Streams are synchronised on the local clock without looking ahead",
    "While a stream is iterated, one step is produced per local time, in order, and every "
    "secondary variable shown at a step is its latest observation whose time is strictly before the "
    "local time (after rounding the local time down to the embedding frequency, if one is given). "
    "A step with no new observation repeats the last one when forward filling is on and is marked "
    "missing otherwise; before the first available observation it is always missing. No observation "
    "is dropped, duplicated or shown at two update steps, for every interleaving of the time axes.",
    H,
    "all interleavings of the observation times of one or two secondary time axes with a local time "
    "axis (bounded number of times), every forward-fill setting and embedding frequency, trace and lazy views",
    "tests sample a handful of calendars (daily/hourly) with one secondary axis; ties, gaps, empty prefixes, "
    "several observations between two local steps and their combinations are not enumerated",
    ["stream.py", "encode.py"],
    [("merging of the secondary streams under a time condition", "stream.py"),
     ("embedding of the local time", "encode.py")],
    "Exhaustive up to the bound on the number of times per axis; values are distinct so every "
    "observation is identifiable. Trusted: xarray/pandas date arithmetic.",
    "explicit enumeration of all time-axis interleavings, real stream against an event-queue reference model",
)
prop(
    "S02", "Buffered stream variables hold the last observations, oldest first",
    "With buffering requested for a time axis, the value shown for its variables is the window of the "
    "last observations available so far (at most the requested length), oldest first and completed on "
    "the left with missing values; the same holds for the observation times. At a step without new "
    "observation the window is repeated when forward filling is on and is entirely missing otherwise.",
    H,
    "all interleavings of the time axes up to the bound, all buffer lengths up to beyond the number of "
    "observations, every forward-fill setting and number of dimensions of the variable",
    "tests use one calendar and one buffer length",
    ["stream.py"],
    [("accumulation of observations between local steps and buffering", "stream.py")],
    "Exhaustive up to the bound on the number of times per axis.",
    "explicit enumeration of all time-axis interleavings and buffer lengths against a reference model",
)
prop(
    "S03", "A stream delivers the data set it was given, unchanged",
    "Stepping through a stream gives, for each variable of the data set, the values of that variable at "
    "the shown times: numbers of any shape bit for bit (in the precision of JAX), dates and strings "
    "through an encoding which decodes to the original, variables without time dimension in full at "
    "every step. Additional coordinates have no influence, and processing a stateful module over the "
    "stream, compiled or lazily, gives the outputs of the module over the sequence of these values "
    "(without the first one when skipping it is requested). The data set is not modified.",
    H + ["programs"],
    "all small data sets over a menu of variable kinds (dtype, dimensions, time axis), all stream options",
    "tests use two data sets, compare few steps",
    ["stream.py", "accessors.py", "encode.py", "unroll.py"],
    [("extraction of steps from the data set", "stream.py"),
     ("encoding of dates and strings", "encode.py"),
     ("unrolling over a stream", "stream.py")],
    "Exhaustive over the menu of variable kinds in the check; known finding: strings with a time "
    "dimension and another dimension (pinned by an existing test).",
)
prop(
    "U01", "Unrolling equals applying the function step by step",
    "Unrolling a stateful function over a sequence gives, at every step, exactly what initialising it on "
    "the first step and then applying it step by step gives (outputs and final state), whether the "
    "unroll is compiled or runs in Python, with or without progress bar, with nested inputs and outputs, "
    "keyword arguments, given parameters or state, and skipping the first step when asked. "
    "Random keys are split deterministically: each step gets its own key, and the same seed gives the same run.",
    ["histories", "programs", "configurations"],
    "all input histories up to the bound for a family of stateful functions (recurrent, random, nested, "
    "parameterised), all combinations of options",
    "tests compare two modules on one random input",
    ["unroll.py"],
    [("scan over the first axis", "unroll.py"), ("python scan", "unroll.py")],
    "The reference is an explicit loop over Haiku's own init and apply, which are trusted.",
    "exhaustive enumeration of histories and option combinations, differential against the step-by-step transition loop",
)
prop(
    "U02", "A run can be split anywhere and resumed from the returned state",
    "For every module of the library, cutting a sequence at any set of points and feeding each piece the "
    "final state of the previous one gives the same outputs and final state as the uninterrupted run, "
    "and the outputs of a prefix never depend on what follows it. States passed in are never modified.",
    ["histories", "inputs", "programs"],
    "all histories up to the bound, all sets of cut points, all stateful modules of the library",
    "tests run each module once, uninterrupted",
    ["unroll.py", "modules/buffer.py", "modules/ewma.py", "modules/update_on_event.py", "modules/ohlc.py"],
    [("state handed from step to step", "unroll.py")],
    "Differential: needs no model of the modules, hence says nothing about their values (M01-M10 do).",
    "exhaustive enumeration of histories and cut points; differential between interrupted and uninterrupted runs",
)
prop(
    "U03", "Batched execution equals independent runs",
    "Lifting a stateful function over a batch gives for each batch element exactly the output and state "
    "that the function alone, with its own state, would give on that element, at every step; lifting an "
    "unroll inside a stateful function equals unrolling from outside. The batch transforms (compiled and "
    "Python) agree with each other and with the step-by-step run, including the random key which is used.",
    ["histories", "programs", "configurations"],
    "all histories up to the bound laid out in batches, several modules and nesting orders, all options",
    "tests use one module and one random batch",
    ["stateful.py", "transform.py", "modules/vmap.py"],
    [("vmap lift", "stateful.py"), ("unroll lift", "stateful.py"), ("batch transforms", "transform.py")],
    "Reference: the same function applied element by element.",
    "exhaustive enumeration of batches of histories; differential against independent runs",
)
prop(
    "E01", "Encodings are lossless, order-preserving where compared, and total",
    "Encoding 64-bit integers and dates to 32-bit parts and decoding gives back the original for every "
    "value (negative, extreme, missing dates included), comparison of encodings is the "
    "comparison of the values, and string or label encodings decode to the original values. Rounding a "
    "date down to a frequency gives the largest multiple of the frequency not after it.",
    ["inputs"],
    "all values in boundary neighbourhoods of every power of two and of the date range, all pairs for the "
    "order, all small label sets and sequences",
    "tests use a few dates after 1970",
    ["encode.py"],
    [("splitting of 64-bit integers", "encode.py"), ("comparison", "encode.py"), ("label encoder", "encode.py")],
    "Enumerates boundary values (each power of two +- 2 with both signs) rather than all 2^64.",
    "exhaustive enumeration of a boundary lattice of values and of all pairs, against integer arithmetic",
)
prop(
    "A01", "Containers: labels, formats and accessors round trip",
    "Applying a module through the pandas or xarray accessors gives the values of the unrolled module, each "
    "under its own row and column labels, for frames and series (with one or several levels of labels), "
    "arrays and data sets, whether the first step is skipped or not; a given state, parameters or random key "
    "are honoured, the state is returned when asked, so that a container can be processed in pieces, and the "
    "container is not modified. Converting results to a labelled format puts each value under its own time "
    "and coordinates; the compiled pair of functions is the pair.",
    ["inputs", "configurations", "histories"],
    "all histories of values up to the bound as columns, over a menu of containers, labels and options, all "
    "ways to cut a container; all small shapes for the formats",
    "tests use one or two containers and compare shapes",
    ["accessors.py", "format.py", "compile.py"],
    [("stream accessors", "accessors.py"), ("format of outputs", "format.py")],
    "Exhaustive over the menu of containers. Rows are times; with several levels of labels, columns may be "
    "completed by missing ones.",
    "bounded exhaustive exploration of histories, cuts and label menus on the real code, against the unrolled module",
)
prop(
    "M01", "Exponential moving average equals its definition at every step",
    "At every step the exponential moving average equals the weighted average of the observations so far, "
    "with the documented weights, for each adjustment mode (none, exponential, linear), both ways of "
    "treating missing values, any minimum number of observations and any initial value; missing inputs "
    "never contaminate it. Each element of an array is averaged on its own, the additional "
    "information returned on request does not change the result, and the gradients are those of the "
    "definition, finite also with missing observations.",
    H,
    "every history of bounded length over alphabets containing missing values x every option combination x "
    "three array layouts; periodic long histories",
    "tests compare with pandas on a few random series; the 2^T patterns of missing values and their "
    "interaction with options are not covered",
    ["modules/ewma.py"],
    [("weight recursion", "modules/ewma.py")],
    "Exhaustive up to the bounds in the check; reference model itself replayed against pandas on all histories.",
)
prop(
    "M02", "Accelerated moving average agrees with the model and can be resumed",
    "The compiled (numba) moving average on arrays, frames and series gives, for every option, the same "
    "values as the definition and as the library's own module; processing data in consecutive pieces with "
    "the returned state gives the uninterrupted result, columns are matched by name, and neither the data "
    "nor the state given by the caller are modified.",
    H,
    "every history up to the bound x every option combination x every way to cut the history",
    "tests compare a few random frames",
    ["numba/ewma_numba.py"],
    [("in-place numba loop", "numba/ewma_numba.py"), ("state as data frame", "numba/ewma_numba.py")],
    "Exhaustive up to the bounds; float64.",
)
prop(
    "M03", "Exponential variance and covariance equal their definitions",
    "The exponential moving variance is at every step the weighted mean of squared deviations from the "
    "weighted mean of the observations so far (missing ones are skipped), never negative; the exponential "
    "moving covariance is the moving average of the products minus the product of the moving averages (or "
    "the former alone when data are assumed centered), for all options and for vectors of any size.",
    H,
    "every history of (pairs of) values with missing ones up to the bound x every option combination",
    "tests use a few random series without systematic missing patterns",
    ["modules/ewmvar.py", "modules/ewmcov.py"],
    [("variance recursion", "modules/ewmvar.py"), ("product averages", "modules/ewmcov.py")],
    "Exhaustive up to the bounds; models replayed against pandas.",
)
prop(
    "M04", "Sliding windows contain exactly the last values, in order",
    "A buffer holds the last values seen, oldest first, completed with the fill value, and reports how many "
    "are real; lag gives the value of that many steps ago; difference, relative change (with its fill "
    "options) and rolling mean (with its minimum number of observations) are the functions of these windows "
    "that pandas defines. This holds for any window length, dtype, fill value and nested inputs, at any point of a stream.",
    H,
    "every history up to beyond the window length x window lengths x fill values x dtypes, and de Bruijn streams "
    "that reach every window content from every other",
    "tests use one length and one random series",
    ["modules/buffer.py", "modules/lag.py", "modules/diff.py", "modules/pct_change.py", "modules/rolling_mean.py"],
    [("shift register", "modules/buffer.py")],
    "Exhaustive up to the bounds; models replayed against pandas.",
)
prop(
    "M05", "Fill, change detection and counters follow their definitions",
    "Forward fill repeats the last valid value and only fills missing ones; replacement of non-finite values "
    "changes exactly the missing and infinite entries, in nested structures as well; change detection is true "
    "exactly when some element differs from the previous step (the first step is compared with the missing "
    "marker of its type); counters count their calls independently.",
    H,
    "every history over alphabets with missing and infinite values, all layouts and dtypes",
    "tests use one short series each",
    ["modules/ffill.py", "modules/fill_nan_inf.py", "modules/has_changed.py", "modules/counter.py"],
    [("state of the last value", "modules/ffill.py")],
    "Exhaustive up to the bounds.",
)
prop(
    "M06", "Open/high/low/close bars describe exactly the current bin",
    "After every step the bar holds the first, largest, smallest and last value observed since the latest "
    "reset (the reset step belongs to the new bin), ignoring missing values, and is missing while the bin has "
    "no observation; each element of an array has its own bar.",
    H,
    "every history of (value, reset) pairs up to the bound, scalars, vectors and matrices",
    "tests use one daily series",
    ["modules/ohlc.py"],
    [("bin state", "modules/ohlc.py")],
    "Exhaustive up to the bounds; only the order of the values matters to the code.",
)
prop(
    "M07", "Masked statistics depend only on the selected entries",
    "Masking replaces exactly the entries that are not selected; masked mean, standard deviation (centered or "
    "not) and normalisation are the plain statistics of the selected entries along the requested axis, "
    "whatever the other entries contain (missing or infinite values included). Incoherent shapes are refused, "
    "nested inputs are handled leaf by leaf, normalised values are always finite.",
    ["inputs", "configurations"],
    "every mask x every content over the alphabet for shapes up to three dimensions, every axis",
    "tests use a few masks and mostly one axis",
    ["modules/apply_mask.py", "modules/mask_mean.py", "modules/mask_std.py", "modules/mask_normalize.py"],
    [("selection", "modules/apply_mask.py")],
    "Exhaustive up to the bounds; selected entries are finite.",
    "exhaustive enumeration of masks and contents on the real code, against numpy on the selected entries",
)
prop(
    "M08", "A module gated by events sees the events only",
    "A module updated on events behaves as if it ran on the sub-sequence of the steps where the event "
    "occurred: its state is untouched by the other steps, at which the last output (before the first event: "
    "the given initial value) is repeated. Other modules beside it, including ones of the same class or with "
    "similar names, are not disturbed, and gated modules can be nested.",
    ["histories", "programs"],
    "every pattern of events up to the bound x inputs x all stateful modules of the library, neighbours and nesting",
    "tests use one module and one event pattern",
    ["modules/update_on_event.py"],
    [("state roll back", "modules/update_on_event.py")],
    "Reference: the bare module on the sub-sequence (its own values are decided by M01-M06).",
    "exhaustive enumeration of event patterns; differential against the bare module on the sub-sequence",
)
prop(
    "M09", "ARMA and SNARIMAX follow their recursions",
    "The output of the ARMA filter is its input plus the weighted previous outputs and previous inputs "
    "(coefficients are given oldest lag first, zeros before the start), at every step and for every element "
    "of inputs of any shape; an output which would not be finite is zero, so outputs are always finite. "
    "The SNARIMAX predictor gives its regressor the exogenous variables, its q previous errors and the p last "
    "values (oldest first, zeros where there is none or it is missing), and returns its prediction; "
    "the default regressor is linear and trainable; options which are not implemented are refused.",
    H,
    "all histories over an alphabet with missing and infinite values, all orders up to 3, shapes and layouts",
    "tests compare one random path of order one and two",
    ["modules/arma.py", "modules/snarimax.py", "modules/buffer.py"],
    [("ARMA recursion", "modules/arma.py"), ("features of the predictor", "modules/snarimax.py")],
    "Exhaustive up to the bound on the length.",
)
prop(
    "M10", "Online learning is the explicit loop: predict, differentiate, update",
    "At every step the online optimiser, the function optimiser and the online learner return the loss and "
    "prediction at the current parameters, then update exactly the parameters chosen by the predicate with "
    "the optimiser's step for the gradients of the (regularised) loss, project them when asked, and keep "
    "the others; missing gradients count as zero where this is requested; the model's own state advances one "
    "step; the parameters and fields returned are those asked for. A function of its trainable parameters "
    "uses the parameters it is given at each step, its other parameters and its own state.",
    H,
    "all histories of (feature, target) up to the bound x optimisers x partitions of the parameters x "
    "projection x regularisation x options",
    "tests train one model with one optimiser and look at the final loss",
    ["modules/online_optimizer.py", "modules/func_optimizer.py", "modules/online_supervised_learner.py",
     "modules/update_params.py", "modules/optax_optimizer.py"],
    [("online update", "modules/online_optimizer.py"), ("function optimiser", "modules/func_optimizer.py"),
     ("partition of the parameters", "modules/update_params.py")],
    "Loss and gradients of the reference are written by hand; optax is trusted for the steps.",
)
prop(
    "M11", "The Newton optimiser applies the inverse of the accumulated curvature",
    "For any sequence of gradients and any nesting and shape of the parameters, the step for each parameter "
    "array is minus the learning rate (constant or scheduled) times the inverse of eps times the identity plus "
    "the sum of the outer products of all its gradients so far, times its last gradient; arrays do not mix.",
    H,
    "all sequences of gradients up to the bound for all small shapes and nestings, several eps and schedules",
    "tests run one convex problem and compare final losses",
    ["optim/newton.py"],
    [("recursive inverse", "optim/newton.py")],
    "In double precision.",
)
prop(
    "P01", "Computations keep the precision of their inputs",
    "With 64-bit types enabled in JAX, a module applied to 64-bit floating point observations computes in 64 "
    "bits: its outputs have 64 bits and agree with its definition to 64-bit accuracy (the state and parameters "
    "it creates are not narrower), and integers of 64 bits go through windows, lags, fills and streams exactly. "
    "This holds for the modules of both families, the online optimisers (of 64-bit parameters), the accessors "
    "and the streams; on 32-bit observations they still work.",
    H,
    "all histories of length 5 (7) over alphabets which are not representable in 32 bits, for every module of "
    "both families, compiled or not",
    "tests in double precision compare with a tolerance of 1e-5 or only the type of the output",
    ["modules/*.py", "flax/modules/*.py", "stream.py", "accessors.py"],
    [("state of the modules", "modules/ewma.py"), ("state of the modules", "modules/ohlc.py"),
     ("state of the modules", "flax/modules/ewma.py"), ("64-bit data", "stream.py")],
    "Exhaustive up to the bound on the length; coefficients given by the user have the type of the observations.",
)
prop(
    "D01", "Losses can be differentiated through missing observations",
    "For any sequence of observations, some of them missing, the gradients of a loss over the outputs of a "
    "module which are not missing are finite and are the derivatives of that loss: with respect to the "
    "observations, for the moving averages, variances and covariances, windows, lags, differences, relative "
    "changes, rolling means, fills, bars, filters and predictors and for the masked means, deviations and "
    "normalisations (entries out of the mask have a null gradient), and with respect to the trainable "
    "parameters (centre of mass of the averages and variances, weights of the predictor).",
    H,
    "all histories of length 5 (7) with missing values for every module of both families and every option, "
    "pairs of series with different missing values, gaps up to length 7 (9), and all masks of small shapes",
    "tests look at whether one gradient is nan for one history of two modules",
    ["modules/*.py", "flax/modules/*.py"],
    [("values filled before divisions and products", "modules/ewma.py"), ("same", "modules/ewmvar.py"),
     ("same", "modules/mask_std.py"), ("same", "flax/modules/ewma.py")],
    "The oracle is the central difference of the reference models, in double precision; points where the "
    "loss is not smooth (ties of extremes, null deviations) are only required to have finite gradients. The "
    "coefficients of the ARMA filter are given, not trained.",
)
prop(
    "G01", "Gym feedback is the loop of the environment and the agent",
    "At each step the environment receives the previous action and the raw observation, the agent receives the "
    "observation of the environment, and its action is kept for the next step; the first action is the given "
    "one, or else the agent's action on the first raw observation (which leaves no trace in the state of the "
    "agent). The reward, and the observation and action if asked, and the information of both are returned.",
    H,
    "all histories of raw observations up to the bound x agents and environments with and without state or "
    "nested data x options x layouts",
    "tests run one agent on one series",
    ["modules/gym_feedback.py"],
    [("feedback loop", "modules/gym_feedback.py")],
    "Exhaustive up to the bound on the length.",
)
prop(
    "G02", "The training loop calls agent, environment and callbacks in order",
    "Running an agent in an environment resets it (unless an observation is given), then alternates acting and "
    "stepping until the environment ends or a callback asks to stop, and closes it; each callback given, or "
    "active when the run starts, is called exactly once at each of its points with the current values. Runs "
    "nested in another one do not use its callbacks. Whatever raises, and wherever, the exception reaches the "
    "caller and the set of active callbacks is the one of before the run. Stop ends every run at its step, "
    "Record gives the rewards (observations, actions) of all steps in order, ProgressBar counts them. Agents and "
    "environments made from Haiku functions keep their state from call to call until they are reset; the end of "
    "the data ends the run.",
    ["histories", "programs", "fault_sequences", "configurations"],
    "all combinations of callbacks, stop requests and lengths, an exception at every call of each of these runs, "
    "all sequences of activation operations up to a depth",
    "tests make five runs, none of which fails or is nested",
    ["gym/gym_unroll.py", "gym/callbacks/callbacks.py", "gym/callbacks/stop.py", "gym/callbacks/record.py",
     "gym/callbacks/progressbar.py", "gym/haiku_agent.py", "gym/haiku_env.py"],
    [("loop", "gym/gym_unroll.py"), ("activation of callbacks", "gym/callbacks/callbacks.py"),
     ("state of agents and environments", "gym/haiku_agent.py")],
    "The same callback is not activated in two ways at once; the order of global callbacks is unspecified.",
    "exhaustive exploration of operation sequences and fault injection at every call, against a model of the loop",
)
prop(
    "F02", "The Flax moving averages, variances and covariances are the documented ones",
    "Initialised on the first value of a sequence and then unrolled over the next ones, the Flax EWMA, EWMVar "
    "and EWMCov give, at every step and for every element, the weighted average, variance and covariance of the "
    "observations so far: the same ones as the Haiku modules with the same options (com or alpha, adjust, "
    "ignore_na, min_periods, initial_value, assume_centered), missing values included. The decay is the "
    "trainable parameter (logarithm of com).",
    H,
    "all histories over small alphabets with missing values up to the bound, every combination of options, "
    "array layouts, values of the decay parameter",
    "tests compare a few sequences with a loose tolerance, mostly without missing values",
    ["flax/modules/ewma.py", "flax/modules/ewmvar.py", "flax/modules/ewmcov.py"],
    [("average", "flax/modules/ewma.py"), ("variance", "flax/modules/ewmvar.py"),
     ("covariance", "flax/modules/ewmcov.py")],
    "The output of the first step is the one of the initialisation. Before the first observation the variance "
    "may be missing or zero.",
)
prop(
    "F03", "The Flax windows, lags, fills and counters are the documented ones",
    "Initialised on the first value of a sequence and then unrolled over the next ones: Buffer gives the last "
    "maxlen values, oldest first, completed on the left with the fill value; Lag the value some steps ago; Diff "
    "and PctChange the difference and the relative change with the previous value (the last observed one with "
    "forward filling); RollingMean the mean of the observed values of the window if there are at least "
    "min_periods; Ffill the last observed value; FillNanInf replaces the values which are not finite; HasChanged "
    "tells if any element differs from the previous step; Counter counts the steps. For any shape.",
    H,
    "all histories longer than the windows, all small window lengths, options, dtypes and layouts; de Bruijn "
    "streams visiting every pair of consecutive window contents",
    "tests use one or two window lengths and short sequences, often not longer than the window",
    ["flax/modules/buffer.py", "flax/modules/lag.py", "flax/modules/diff.py", "flax/modules/pct_change.py",
     "flax/modules/rolling_mean.py", "flax/modules/ffill.py", "flax/modules/fill_nan_inf.py",
     "flax/modules/has_changed.py", "flax/modules/counter.py"],
    [("circular buffer", "flax/modules/buffer.py"), ("rolling mean", "flax/modules/rolling_mean.py"),
     ("relative change", "flax/modules/pct_change.py")],
    "The output of the first step is the one of the initialisation.",
)
prop(
    "F04", "The Flax masks, bars, filters and predictors are the documented ones",
    "Masks: entries which are not selected never have an influence; mean, standard deviation and normalisation "
    "are the ones of the selected entries along the axis, missing where nothing is selected. OHLC bars are the "
    "first, largest, smallest and last observed values since the latest reset, missing values being ignored. "
    "ARMA gives each noise term plus the combinations of the previous outputs and of the previous noise terms "
    "(coefficients oldest first, zeros before the start, outputs which are not finite replaced by zero), each "
    "element on its own. SNARIMAX applies the regressor to the last values of x, the last differences y - x, "
    "and x. VMap maps the function and averages over the batch if asked.",
    H,
    "all masks times all contents of small arrays, all histories of values and resets, all histories times all "
    "small orders, every option and layout",
    "tests check a few arrays and that outputs are finite",
    ["flax/modules/apply_mask.py", "flax/modules/mask_mean.py", "flax/modules/mask_std.py",
     "flax/modules/mask_normalize.py", "flax/modules/ohlc.py", "flax/modules/arma.py",
     "flax/modules/snarimax.py", "flax/modules/vmap.py"],
    [("masked statistics", "flax/modules/mask_std.py"), ("bars", "flax/modules/ohlc.py"),
     ("filter", "flax/modules/arma.py"), ("features of the predictor", "flax/modules/snarimax.py")],
    "Statistics are specified when the selected entries are finite.",
)
prop(
    "F01", "Flax transforms and unrolls are the step-by-step program",
    "flax_transform_with_state gives pure functions: apply returns the output and the new state, depends on its "
    "arguments only and never modifies the state given. flax_unroll and flax_unroll_transform give, for every "
    "module and sequence, the outputs and the final state of a step-by-step application, whether dynamic or "
    "static, compiled or not, with given or new parameters, state and random key, from the first step or after "
    "it (skip_first), for nested inputs and outputs. Consecutive pieces resumed from the returned state give the "
    "same outputs. Random modules get a new number at each step, the same ones for the same key.",
    H,
    "all histories of all lengths up to the bound, all cuts in consecutive pieces, every combination of the "
    "options, several kinds of modules",
    "tests unroll one or two sequences with a few modules and compare shapes or one final value",
    ["flax/core/transform.py", "flax/core/unroll.py", "flax/core/state_utils.py"],
    [("transform", "flax/core/transform.py"), ("unroll", "flax/core/unroll.py")],
    "The initialisation of Flax modules is a first step: the state of flax_unroll without given state has "
    "already seen the first value. States given are frozen.",
)
prop(
    "F05", "Streaming transforms: scans, events, resets and streaming optimisation",
    "The scan of a streaming transform gives the outputs and the final state of a step-by-step application, for "
    "every cut of the sequence. update_on_event gives the output of the latest step where the event is true "
    "(the initial value before the first one), the state of the modules being always updated. streaming_scan "
    "starts again from its starting state after each element on which reset_on is true, and uses the "
    "parameters, state and random key given. StreamingScan maps the function. streaming_optimizer returns the "
    "loss and the output of the model and makes one optimiser step on the scale at each call.",
    H,
    "all histories up to the bound, every event or reset condition of a set, all cuts of the sequences, "
    "several optimisers",
    "tests use one or two short sequences in which events and resets seldom meet",
    ["flax/core/streaming_transforms.py"],
    [("scan", "flax/core/streaming_transforms.py"), ("update_on_event", "flax/core/streaming_transforms.py"),
     ("streaming_scan", "flax/core/streaming_transforms.py"),
     ("streaming_optimizer", "flax/core/streaming_transforms.py")],
    "preserve_state=False is not specified.",
)
prop(
    "F06", "State patterns: machines, hierarchies, attention and compositions",
    "StreamingStateMachine (state_machine) runs the module of the current state, gives its output and the state "
    "reached by the first transition whose condition holds, and stays otherwise. HierarchicalState gives each "
    "module the inputs and the outputs of its dependencies. ConditionalStateUpdate runs its module when the "
    "condition holds and otherwise gives back its first argument, the state being kept. HierarchicalStateMachine "
    "runs every module once, after the ones it depends on, isolates the failing ones and, if hierarchical, "
    "blends 10% of every higher level in the lower ones. AttentionBasedStateSelector attends the latest "
    "max_history_length embeddings, oldest first, without the current one. CompositeStateManager pipes, "
    "parallels or influences. The decorators do the same and give the result to the function. States given are "
    "never modified.",
    H,
    "the tree of all the input sequences up to the bound from every reached state; all small transition tables; "
    "all dependency graphs on up to four nodes; all compositions of up to three modules",
    "tests run one scenario per pattern",
    ["flax/core/streaming_transforms.py", "flax/core/advanced_state_patterns.py"],
    [("state machine", "flax/core/streaming_transforms.py"),
     ("execution order", "flax/core/advanced_state_patterns.py"),
     ("attention history", "flax/core/advanced_state_patterns.py")],
    "Run step by step; a module which is only called after the initialisation has no parameters.",
    "explicit-state exploration of the real modules (all input sequences from every reached state) against "
    "models, over all small configurations",
)
prop(
    "F07", "Compressed and hierarchical buffers keep what they document",
    "CompressedBuffer: 'none' gives the last maxlen values and 'downsample' the last maxlen // factor of the "
    "values kept (the first one and then one out of factor), oldest first, completed on the left with the fill "
    "value, at every step; 'ewma' the moving average; 'quantile' the quantiles, linearly interpolated, of the "
    "observed values among the last min(maxlen, 1000) ones, computed at the first value and then every 10 "
    "values, and held in between; 'sketching' counts each value in one bucket of each row, always the same, so "
    "that no value is counted less than it was given. HierarchicalBuffer gives at every step its recent values "
    "and the content of its medium and long levels, to which one value out of 5 and out of 50 is given.",
    H,
    "all histories up to the bound, all small lengths, factors and percentiles; every rotation of de Bruijn "
    "streams (every window content at every phase of the updates); all pairs of compressions",
    "tests check shapes, finiteness and bounds of a few sequences",
    ["flax/modules/compressed_buffer.py"],
    [("compression", "flax/modules/compressed_buffer.py"), ("levels", "flax/modules/compressed_buffer.py")],
    "Run step by step (not compiled).",
)
prop(
    "F08", "Flax optimisers, online learners and feedback loops learn step by step",
    "At every call the Flax OnlineOptimizer, FuncOptimizer, OnlineSupervisedLearner and SimpleOnlineLearner give "
    "the loss, the auxiliary outputs and the gradients for the current parameters, then make exactly one step of "
    "the optimiser on the trainable parameters; the other ones never change. Gradients which are not a number "
    "count for zero; regularisation is part of the loss and projection applies to the updated parameters; the "
    "state of the model and of the optimiser is kept from step to step. OptaxOptimizer is the update of optax. "
    "UpdateParams partitions parameters by the predicate and merges them back without loss. GymFeedback gives the "
    "action of the agent for the observation (and the reward) and keeps it; GymFeedbackLoop gives the three.",
    H,
    "all histories of data up to the bound, every subset of the parameters as the trainable ones, every way of "
    "giving the model, several optimisers",
    "no test runs the Flax optimisers and learners",
    ["flax/modules/online_optimizer.py", "flax/modules/func_optimizer.py",
     "flax/modules/online_supervised_learner.py", "flax/modules/optax_optimizer.py",
     "flax/modules/update_params.py", "flax/modules/gym_feedback.py"],
    [("online optimiser", "flax/modules/online_optimizer.py"), ("partition", "flax/modules/update_params.py"),
     ("learner", "flax/modules/online_supervised_learner.py")],
    "Infinite gradients are not specified. The state of a Flax model starts after its initialisation, which is "
    "a first step.",
)
prop(
    "F09", "Debugging, profiling and memory tracking record, and do not alter",
    "A streaming function wrapped for debugging, profiling or memory tracking (nested in any order, named after "
    "the function unless a name is given) gives at every step the outputs, states and exceptions of the function "
    "itself. While it is enabled, the debugger counts every step, keeps the last max_history states, and each "
    "hook which is present and enabled is hit exactly when its condition holds (a condition which raises does "
    "not hold), keeping its last max_events events with copies of state, input and output which later changes "
    "of the arrays of the caller do not affect; performance monitors are hit by steps longer than the threshold, "
    "state change detectors when the value moved by more than the tolerance since they were last hit (or first "
    "saw it). The profiler keeps one record per call with its module, time, and sizes, the last max_history "
    "ones, and its summaries and bottlenecks are those of the records. The memory tracker makes a snapshot every "
    "snapshot_interval calls, or when forced, with the sizes of parameters, state and buffers, and reports a "
    "leak when the memory of the last ten snapshots grew by more than the threshold, at more than 1% of it per "
    "step. Clearing and resetting forget the records; while disabled nothing is recorded. Summaries, exports and "
    "results, once returned, do not change with what happens later.",
    ["histories", "fault_sequences", "configurations"],
    "all sequences of operations up to a depth on the debugger, the profiler and the tracker; all nestings of "
    "the wrappers, enabled or not, with a failure at every call; all histories of scripted memory readings",
    "tests make one or two calls per tool and only check that something was recorded",
    ["flax/debug/debugger.py", "flax/debug/profiler.py", "flax/debug/memory_tracker.py"],
    [("hooks and histories", "flax/debug/debugger.py"), ("records", "flax/debug/profiler.py"),
     ("snapshots and leaks", "flax/debug/memory_tracker.py")],
    "The readings of psutil are scripted. What is recorded of a call which raises is not specified.",
    "explicit-state exploration of the real objects: all sequences of operations up to a depth, all nestings of "
    "wrappers with fault injection at every call, against models with plain lists",
)
prop(
    "F10", "Visualised data flows and graphs are the ones which were recorded",
    "A data flow tracker keeps, overall and for each module, the last max_history data of the kinds it tracks, "
    "with their module, kind, step, shape and metadata, in order; queries, text and line plots show the most "
    "recent ones; clearing forgets all. A dashboard counts the calls of each registered pipeline, keeps its data "
    "and the measures given with them, and raises one alert per measure above its threshold (the last 100), and "
    "ignores unknown pipelines. Analysing a transform gives one node for the function and one for each module "
    "with parameters, without running the function; the DOT and HTML texts contain exactly the nodes and the "
    "edges of the graph. The hierarchy is a forest with levels increasing by one from 0, in which root nodes of "
    "a type are clustered when there are at least cluster_min_nodes; the graphviz, D3 and Cytoscape renderings "
    "contain each node once, in its parents, and one edge per child.",
    ["histories", "programs", "configurations"],
    "all sequences of operations up to a depth on the tracker and the dashboard; all directed graphs on up to "
    "three nodes, all subsets of a tree of modules, all forests up to a size, through every renderer",
    "tests render a few graphs and look for some words",
    ["flax/visualization/data_flow_visualizer.py", "flax/visualization/interactive_dashboard.py",
     "flax/visualization/computation_graph.py", "flax/visualization/nested_graph_viz.py"],
    [("tracker", "flax/visualization/data_flow_visualizer.py"), ("graph", "flax/visualization/computation_graph.py"),
     ("hierarchy", "flax/visualization/nested_graph_viz.py")],
    "Renderers whose libraries are not installed (plotly, bokeh, networkx, flask) are not run; layout and "
    "colours are not specified.",
    "explicit-state exploration of the real tracker and dashboard (all sequences of operations up to a depth) "
    "and exhaustive small graphs and forests, each rendering parsed back",
)
prop(
    "T01", "Debugger, profiler and memory tracker may be shared by threads",
    "When several threads call the methods of one debugger, profiler or memory tracker (steps and records, adding "
    "and removing hooks, snapshots, summaries, exports and reports, clearing and resetting, enabling and "
    "disabling), every call takes effect at once at some moment between its start and its end: whatever the "
    "schedule of the threads, the values returned and everything the object shows afterwards are those of "
    "calling the same methods one after the other, in some order which keeps that of each thread. No call "
    "raises and none waits forever. In particular no step is lost or counted twice, nothing is recorded by a "
    "call which comes after disabling or survives a clear which comes after it, and summaries, reports and "
    "exports show one moment.",
    ["schedules", "histories"],
    "all schedules of two threads making one or two calls each (three threads in the thorough tier), with up to "
    "one (two) preemptions, at every bytecode instruction which may touch something shared",
    "tests use one thread; a lost update needs a preemption between two particular instructions",
    ["flax/debug/debugger.py", "flax/debug/profiler.py", "flax/debug/memory_tracker.py"],
    [("locking", "flax/debug/debugger.py"), ("locking", "flax/debug/profiler.py"), ("locking", "flax/debug/memory_tracker.py")],
    "The readings of psutil and the clock are scripted. The wrappers around streaming functions make two "
    "snapshots per call, which other threads may separate.",
    "stateless model checking of the real code: controlled scheduler of real threads, exhaustive up to a bound "
    "on preemptions, with deadlock detection and a linearizability oracle",
)
prop(
    "F11", "A run of Flax modules can be split anywhere and resumed",
    "For every Flax module, unrolling over a sequence gives the same outputs and the same final state as running "
    "any number of consecutive pieces of it, each from the state returned by the previous one; applying the "
    "module step by step, through its transform, through apply_with_state or as a streaming transform gives "
    "them too, compiled or not. The state may be saved as numpy arrays and read back. Outputs do not depend on "
    "later inputs. States and inputs given to a call are not modified: a state can be used again, and for "
    "another continuation.",
    ["histories", "crash_points"],
    "all histories up to length 5 (6) over an alphabet of 3 or 4 values with NaN, with every set of cut points, "
    "for a menu of 26 modules and compositions; parameters and state given or not",
    "tests unroll whole sequences; a wrong state shows only when a run is resumed from it",
    ["flax/core/unroll.py", "flax/core/transform.py", "flax/core/state_utils.py", "flax/modules/*.py"],
    [("unroll", "flax/core/unroll.py"), ("state", "flax/modules/buffer.py"), ("streaming transforms", "flax/core/streaming_transforms.py")],
    "Downsampled, quantile, sketching and hierarchical buffers cannot be compiled and are only run step by step.",
    "explicit enumeration of all histories and of all sets of interruption points on the real code; the oracle "
    "is the uninterrupted run, itself checked against reference models by F01-F08",
)
