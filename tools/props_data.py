prop("C01", "Predicting is read-only and reproducible",
 "Asking a model for a prediction never changes anything that a later prediction, a later update or a saved model can observe. A prediction and an update depend only on the model, the example and the label: no hidden mutable state, clock, environment variable, thread identity, random source or iteration order of an unordered container takes part.",
 ["inputs", "histories", "schedules"], "every example, every model state, every interleaving of predictions and updates, every process and thread",
 "Tests predict a few times in one process; hidden state shows only after a particular history, and hash-order or thread effects only across processes.",
 [R + "reduction.rs", R + "weights.rs", R + "dense_weights.rs", R + "workspace.rs"] + RED,
 [("predict takes &self for every reduction", R + "reduction.rs ReductionImpl::predict"), ("dense weight storage without interior mutability", R + "dense_weights.rs"), ("fully deterministic iteration order of namespaces", R + "sparse_namespaced_features.rs")],
 technique="effect analysis over the call graph from predict/learn; interior-mutability scan of all types reachable from the model",
 note="Decides that no mutable hidden state, nondeterminism source or unordered iteration is reachable from prediction and update; does not decide numerical equality across compilers.")

prop("C02", "Features lent to the model come back unchanged",
 "When predict, learn, predict-then-learn or a sensitivity query returns, the example's features hold exactly the namespaces, indices and values they held before the call. Whatever is merged in temporarily (shared features, generated interaction namespaces) is taken out again on every path, from the same features it was put into, and putting in and taking out are exact inverses. (A namespace left without any features counts as absent, and a generated interaction's namespace is assumed not to be in the example already.)",
 ["inputs", "histories"], "every example (with or without shared features, with or without the interacted namespaces, with or without a label) through every reduction",
 "Tests check the prediction, and not the features after the call; a missed restore shows only when the same features are used twice or returned to the pool.",
 [R + "sparse_namespaced_features.rs"] + RED,
 [("append/remove of shared features", R + "sparse_namespaced_features.rs"), ("merge and unmerge around each action", R + "reductions/cb_adf.rs"), ("temporary namespace set and removed", R + "reductions/elementwise_interaction.rs")],
 technique="typestate over explored MIR paths (acquire/release pairing with operand identity) and inverse check of the merge primitives",
 note="Decides pairing, operand identity and ordering on every non-panicking path, and that unmerging undoes merging for each namespace.")

prop("C03", "Predict-then-learn equals predict followed by learn",
 "For every reduction, and for the whole stack, the combined step returns the prediction the model gave before the update and updates the model exactly as a separate learn call would: each sub-model is updated once, with the same features, label, depth and weight offset. Training through the command line or Python applies exactly one update per labelled example.",
 ["inputs", "histories", "configurations"], "every example, label and stack",
 "Tests exercise either path on one or two stacks; a difference shows only in the weights after many steps.",
 [R + "reduction.rs", R + "workspace.rs", C + "train.rs"] + RED,
 [("default predict_then_learn", R + "reduction.rs ReductionImpl"), ("overrides in each reduction", R + "reductions/*.rs"), ("one update per example", C + "train.rs process_example")],
 technique="sibling comparison of value-numbered effect summaries (child calls, arguments, stores) of predict, learn and predict_then_learn",
 note="Decides equality of the symbolic effect sequences of the combined and the separate calls for every reduction implementation, and the number of updates per example in the training loop.")

prop("C04", "A reduction stack is built only when all types fit",
 "A stack is constructed only if, at every link, the child's label, prediction and feature types equal those its parent requires; any mismatch is refused with an error. The types a reduction declares are the ones it really consumes from its caller, passes to its child, receives from its child and returns.",
 ["configurations", "programs"], "every configuration nesting any reductions in any order",
 "Tests build a handful of valid stacks and one or two invalid ones out of all nestings.",
 [R + "reduction.rs", R + "reduction_factory.rs"] + RED,
 [("type check on construction", R + "reduction.rs check_and_get_reason"), ("declared types", R + "reductions/*.rs ReductionTypeDescriptionBuilder"), ("conversions that panic on a mismatch", R + "types.rs")],
 technique="must-pass-through check guarding construction plus variant-flow analysis of declared against used label/prediction/feature types",
 note="Decides that every successful construction passes the check of all three type pairs, and that declared and used variants agree in every reduction.")

prop("C05", "No accepted option is silently ignored",
 "Every option accepted in the global configuration, in a reduction's configuration and on the train command line takes effect: its value reaches the code whose behaviour it names, and no option is replaced by another option's value or by a constant on the way.",
 ["configurations"], "every option of every reduction, the global configuration and the train command, at every value",
 "Tests run with default options; an option that is parsed and dropped changes nothing they observe.",
 [R + "global_config.rs", R + "workspace.rs", C + "train.rs"] + RED,
 [("configuration structs", R + "reductions/*.rs *Config"), ("global configuration", R + "global_config.rs"), ("train options", C + "train.rs TrainArgs")],
 technique="field-level def-use analysis: every deserialised configuration field must flow from its declaration to a use reachable from prediction, update or set-up",
 note="Decides that each option's value reaches behaviour-relevant code unmixed; not that the behaviour is numerically right.")

prop("C06", "Names select what they name",
 "Every reduction type name, loss name, metric name and data-format name accepted by the configuration, command line or Python package selects exactly the implementation that carries that name; no two implementations share a name and every implementation that exists can be selected. An unknown name is refused with an error.",
 ["configurations", "inputs"], "every name, known or unknown, in every place names are accepted",
 "Tests name a few implementations; a crossed or missing entry elsewhere in a table goes unseen.",
 [R + "reduction_registry.rs", R + "metrics.rs", R + "loss_function.rs", C + "main.rs", C + "train.rs", PY + "src/parsers.rs"],
 [("reduction registry", R + "reduction_registry.rs"), ("metric lookup", R + "metrics.rs"), ("loss selection", R + "loss_function.rs"), ("data format selection", C + "train.rs")],
 technique="table agreement: key-to-constructor maps extracted from MIR and compared with the name each implementation reports",
 note="Decides the complete name-to-implementation relation of each table and the error path of unknown names.")

prop("C07", "Configuration is strict and its defaults are the documented ones",
 "A configuration with an unknown or misspelt key anywhere is refused, never partly applied. An omitted option takes the same default whether the configuration is empty, partial, built in code or absent, and that default is the one the published schema documents.",
 ["configurations", "inputs"], "every key and every subset of present options at every nesting level",
 "Tests load a few configurations; they do not try each unknown key at each level or each omission.",
 [R + "global_config.rs", R + "reduction_factory.rs", R + "workspace.rs", "schemas/config/latest/schema.json"] + RED,
 [("derived deserialisers", R + "reductions/*.rs"), ("typename/config wrapper", R + "reduction_factory.rs"), ("published schema", "schemas/config/latest/schema.json")],
 technique="analysis of the derived deserialisers (unknown-key arm, missing-field arm) against Default/builder constants and the published schema",
 note="Decides, for every configuration type, the unknown-key arm and the agreement of all default sources.")

prop("C08", "Saving and loading a model loses nothing",
 "All state that later predictions or updates read is written into a saved model, in the binary and in the exported JSON form, and loading restores each piece into the place it came from, together with the configuration. A loaded model is never partly re-initialised. (Weights equal to zero need not be stored, and a negative zero counts as zero.)",
 ["histories", "crash_points", "configurations"], "every training history and stack, saved and resumed at any point, through either format",
 "Tests save one small model; a dropped or re-derived field shows only for particular histories or stacks.",
 [R + "workspace.rs", R + "dense_weights.rs", C + "export_model.rs", C + "import_model.rs"] + RED,
 [("model serialisation", R + "workspace.rs"), ("typetag-serialised reductions", R + "reductions/*.rs"), ("weights as sparse JSON", R + "dense_weights.rs")],
 technique="field coverage of serialiser and deserialiser for every type reachable from the model, plus pairing of the conversion types",
 note="Decides that every field of every model-reachable type is serialised and restored under the same name into the same field; not bit-exact text round trip of floats.")

prop("C09", "Bad configurations and models are errors, not crashes",
 "Creating a workspace from any configuration text, or from any model bytes or JSON, ends in a usable workspace or in an error value; it never panics, aborts or builds a workspace that contradicts its own configuration.",
 ["inputs", "configurations", "fault_sequences"], "every byte string offered as configuration or model",
 "Tests load well-formed inputs; the malformed space is unbounded.",
 [R + "workspace.rs", R + "global_config.rs", R + "reduction_factory.rs", R + "dense_weights.rs", R + "interactions.rs"] + RED,
 [("workspace constructors", R + "workspace.rs"), ("factories", R + "reductions/*.rs create"), ("weight validation", R + "dense_weights.rs")],
 technique="reachable-panic analysis from the construction and loading entry points (all panicking calls and checked operations enumerated, each discharged by a dominating check)",
 note="Decides absence of reachable panicking constructs in workspace code from the loading entry points, apart from the enumerated discharged ones; panics inside third-party crates are out of scope.")

prop("C10", "No input line can crash a parser",
 "Given any text, each of the three input formats yields an example, an end-of-input, or an error value; it never panics and never loops without consuming input. A malformed example is an error for that example and is never silently turned into a different example.",
 ["inputs"], "every byte sequence offered to the VW text, JSON and decision-service JSON parsers",
 "Tests parse about twenty well-formed lines.",
 [R + "parsers/vw_text_parser.rs", R + "parsers/json_parser.rs", R + "parsers/dsjson_parser.rs", R + "parsers/text_parser.rs"],
 [("parse_chunk of each parser", R + "parsers/*.rs"), ("chunk reader", R + "parsers/text_parser.rs")],
 technique="reachable-panic analysis from every parser entry point with discharge by dominating guards",
 note="Decides absence of reachable panicking constructs in the parsers' own code.")

prop("C11", "Feature indices always fit the configured table",
 "Every feature index stored in an example, from any parser, binding or interaction, is reduced to the configured number of bits before it reaches the weights, so it always addresses the table it was hashed for. Parsers, the model and the inverse table of one workspace use the same number of bits and the same hash seed.",
 ["inputs", "configurations"], "every feature text, interaction and number of bits",
 "Tests use the default number of bits and few features; an unmasked path needs a hash with high bits set.",
 [R + "types.rs", R + "interactions.rs", R + "hash.rs", R + "parsers/vw_text_parser.rs", R + "parsers/json_parser.rs", R + "parsers/dsjson_parser.rs", R + "weights.rs"],
 [("index reduction", R + "types.rs"), ("interaction indices", R + "sparse_namespaced_features.rs"), ("parser construction", C + "train.rs")],
 technique="taint/provenance analysis: every value stored as a feature index must pass through the masking operation with the configuration's bit count",
 note="Decides that every store of a feature index is dominated by masking with the bit count of the same configuration.")

prop("C12", "The same feature gets the same index in every input format",
 "A feature with the same namespace and name hashes to the same index whichever input format, binding or inverse-hash table computed it, and an interaction of features gets the same index wherever it is computed. Feature values and labels that express the same example are read identically in all formats.",
 ["inputs", "configurations"], "every namespace and feature name, numeric or textual, in every format",
 "Tests compare a few names; differences appear for numeric names, anonymous features, the default namespace or special characters.",
 [R + "hash.rs", R + "inverse_hash_table.rs", R + "interactions.rs", R + "types.rs", R + "parsers/vw_text_parser.rs", R + "parsers/json_parser.rs", R + "parsers/dsjson_parser.rs"],
 [("hash_bytes and friends", R + "hash.rs"), ("parsed feature hashing", R + "parsers/text_parser.rs"), ("inverse table", R + "inverse_hash_table.rs")],
 technique="sibling comparison of value-numbered index computations across parsers, inverse table and interaction code",
 note="Decides that all sites compute the index by the same expression of namespace, name, seed and bits.")

prop("C13", "Recycled feature objects carry nothing over",
 "An example parsed into a recycled features object is indistinguishable from one parsed into a fresh object, whatever the object held before and whoever returned it. Returned objects are emptied before anyone else can obtain them. (Debug formatting is not covered.)",
 ["histories", "schedules", "inputs"], "every sequence of examples parsed and returned, including ones whose parsing failed midway",
 "Tests recycle objects rarely; a leak needs a particular earlier example.",
 [R + "object_pool.rs", R + "sparse_namespaced_features.rs", R + "types.rs", R + "parsers/vw_text_parser.rs", R + "parsers/json_parser.rs", R + "parsers/dsjson_parser.rs"],
 [("pool", R + "object_pool.rs"), ("clearing on return", R + "types.rs clear_and_return_object"), ("inactive namespaces", R + "sparse_namespaced_features.rs")],
 technique="field-sensitive clear-before-return analysis over all pool returns, plus guarded-access check of inactive namespaces",
 note="Decides that each returned object is cleared or marked inactive in every field first, and that inactive content is never observed.")

prop("C14", "Parallel parsing is indistinguishable from serial parsing",
 "With any number of parse threads, training processes every example of the input exactly once, in input order, on a single learner, and gives the same results as a single thread. It terminates on every input: no thread waits for a message that nobody will send, including when an example fails to parse or learning stops with an error. (A panic inside a parser is C10's subject, the publication of updates C16's.)",
 ["schedules", "inputs", "fault_sequences"], "every interleaving, every number of parser threads, every position of a failing example",
 "Tests never run the multi-threaded command; races and hangs need particular interleavings.",
 [C + "train.rs"],
 [("queues between reader, parsers and learner", C + "train.rs execute"), ("hand-over slot", C + "train.rs ParseResult")],
 technique="channel typestate and ordering analysis over explored MIR of the training command: sequence of sends, hand-over protocol, endpoint ownership and drop order",
 note="Decides send/receive pairing, order of enqueueing, publication protocol, endpoint lifetimes and that only one thread touches the learner; liveness is decided through endpoint ownership and not by exploring schedules.")

prop("C15", "No failure is silently dropped",
 "Every error from reading input, parsing, learning, creating or writing files and serialising models is reported to the user: commands end with a failing exit status, and library calls return the error. A command that reports success has written all of its output completely, and output is flushed before success is reported.",
 ["fault_sequences", "inputs"], "every point at which an operation can fail",
 "Tests never make I/O fail.",
 [C + "main.rs", C + "train.rs", C + "test.rs", C + "export_model.rs", C + "import_model.rs", C + "convert_data.rs", C + "create_inv_hash_table.rs", C + "gen_schema.rs", C + "config.rs", R + "workspace.rs"],
 [("command entry points", C + "*.rs execute"), ("error type", R + "error.rs")],
 technique="error-flow analysis: every Result produced in the workspace must be propagated, converted or inspected on all paths; writers flushed before success",
 note="Decides that no error value is discarded and that every buffered writer is flushed with its error checked before a success return.")

prop("C16", "Sharing library objects between threads cannot race",
 "No type claims to be sendable or shareable between threads beyond what its contents allow, so safe code can never cause a data race through the library or the tool. The only hand-made synchronisation, handing a parsed example from a parser thread to the learner, publishes the example after it is completely written and reads it only after seeing it published.",
 ["schedules", "programs"], "every way safe code can share the types, every interleaving and memory order",
 "Data races do not show up in tests that pass.",
 [C + "train.rs", R + "reduction.rs", R + "workspace.rs", R + "object_pool.rs"],
 [("hand-over slot", C + "train.rs ParseResult"), ("thread-safe reductions", R + "reduction.rs ReductionImpl")],
 technique="auto-trait audit of every unsafe Send/Sync impl and raw access; publication typestate over explored paths of the hand-over slot",
 note="Decides soundness of all unsafe auto-trait impls and the write-publish-read protocol with its memory orders.")

prop("C17", "The Python package is a transparent view of the library",
 "Every value that crosses the Python boundary keeps its meaning: each label, prediction, enum member, format and error maps to its own counterpart, attributes return what the constructor stored, and every call forwards its arguments, in order and unchanged, to the library function it names. Names exported by the compiled module, by the Python package and by its type stubs agree. Kinds documented as not implemented (the binary label and prediction) have no counterpart.",
 ["inputs", "programs"], "every call through the Python package",
 "The Python tests cover a handful of calls.",
 [PY + "src/lib.rs", PY + "src/features.rs", PY + "src/labels.rs", PY + "src/predictions.rs", PY + "src/parsers.rs", PY + "src/workspace.rs", PY + "python/reductionml/__init__.py", PY + "python/reductionml/_reductionml.pyi"],
 [("wrappers", PY + "src/*.rs"), ("package", PY + "python/reductionml/__init__.py"), ("stubs", PY + "python/reductionml/_reductionml.pyi")],
 technique="mapping-table extraction from MIR of the bindings and from the Python syntax trees, cross-checked for agreement",
 note="Decides enum/variant mappings, attribute round trips, argument forwarding and name agreement; Python objects' runtime conversion by PyO3 is trusted.")

prop("C18", "Debug and release builds behave the same",
 "Whether debug assertions are compiled in or not, the same calls give the same predictions, the same updates and the same errors; debug-only code only checks and never changes state, and no arithmetic on input data relies on wrapping that only release builds provide.",
 ["inputs", "configurations"], "every input on either build profile",
 "The tests run one build profile.",
 [R + "reduction.rs", R + "hash.rs", R + "interactions.rs", R + "weights.rs", R + "parsers/json_parser.rs"],
 [("debug-only consistency checks", R + "reduction.rs ReductionWrapper"), ("index arithmetic", R + "weights.rs")],
 technique="differential analysis of the MIR of both cfg(debug_assertions) settings, and enumeration of overflow-checked operations on input-derived values",
 note="Decides equality of effects of all functions that differ between profiles and absence of unguarded overflow-checked arithmetic on hash/index/data values.")

prop("C19", "Updating touches exactly the weights that predicting read",
 "For a base learner, prediction, update and sensitivity enumerate the same features and interactions in the same order with the same indices: the constant feature, the interactions, the number of bits and the offset agree in all of them. An update changes only weights of features that are present in the example.",
 ["inputs", "configurations"], "every example, interaction list and option setting",
 "Tests check final accuracy on a few data sets, where a mismatch merely learns worse.",
 [R + "reductions/coin.rs", R + "weights.rs", R + "interactions.rs"],
 [("feature walkers", R + "weights.rs"), ("three phases of the base learner", R + "reductions/coin.rs")],
 technique="sibling comparison of the traversal calls and of the three walkers' value-numbered index sequences",
 note="Decides agreement of the traversal arguments and of the walkers themselves.")

prop("C20", "Sub-models and per-feature state never share weights",
 "Distinct (feature index, sub-model, state slot) triples address distinct cells of a weight table, and every address computed for an in-range triple lies inside it. Each reduction gives its sub-models distinct offsets within the number it declares.",
 ["configurations", "inputs"], "every number of bits, sub-model count and state size",
 "Tests use single-model stacks; aliasing needs several sub-models or slots.",
 [R + "dense_weights.rs", R + "reduction.rs", R + "reductions/coin.rs", R + "reductions/binary.rs"],
 [("weight addressing", R + "dense_weights.rs"), ("offset computation", R + "reduction.rs DepthInfo")],
 technique="symbolic layout check of allocation size and address expression, and agreement of all accessors",
 note="Decides injectivity of the address expression and its bound by the allocation for the extracted expressions.")

prop("C21", "Every action is scored exactly once, with the shared features",
 "For a list of actions, each action is predicted and, where the method calls for it, updated exactly once, in list order, with the shared features merged in, and the result lists exactly the actions of the input, each with its own score or probability. The cost, probability and action of the label reach the sub-learner's update unmixed.",
 ["inputs"], "every number of actions, with and without shared features and labels",
 "Tests have two or three actions.",
 [R + "reductions/cb_adf.rs", R + "reductions/cb_explore_adf_greedy.rs", R + "reductions/cb_explore_adf_softmax.rs", R + "reductions/cb_explore_adf_squarecb.rs", R + "explore.rs"],
 [("action loops", R + "reductions/cb_adf.rs"), ("exploration distributions", R + "explore.rs")],
 technique="loop-coverage analysis over explored MIR: iteration source, per-iteration effects and the identity of the index attached to each output",
 note="Decides per-iteration effects and provenance of each output entry; numerical distribution properties are not claimed.")

prop("C22", "The published configuration schema describes what is accepted",
 "The schema published for the current version and the schema printed by the tool describe exactly the configuration the program accepts: the same reductions, the same options with the same types, names, defaults and required-ness.",
 ["configurations", "programs"], "every option of every reduction",
 "No test compares the schema file with the deserialisers.",
 ["schemas/config/latest/schema.json", R + "config_schema.rs", R + "reduction_factory.rs", R + "global_config.rs"] + RED,
 [("schema generation", R + "config_schema.rs"), ("published schema", "schemas/config/latest/schema.json")],
 technique="agreement check between the field tables of the derived deserialisers and the committed schema",
 note="Decides set equality of names, types, defaults and required-ness between code and schema.")

prop("C23", "Sub-model bookkeeping is restored after every call",
 "The record that tracks where in the stack a call is (depth and weight offset) is handed back to the caller as it was received, on every path, and each level adds its own contribution exactly once before calling its child.",
 ["inputs", "configurations"], "every stack and call sequence",
 "An imbalance only shows in deeper stacks or on a second call.",
 [R + "reduction.rs"] + RED,
 [("depth info", R + "reduction.rs DepthInfo"), ("wrapper around each reduction", R + "reduction.rs ReductionWrapper")],
 technique="balanced-update typestate over explored MIR paths",
 note="Decides balance on every non-panicking path and that the child sees the incremented record.")

prop("C24", "Progress metrics measure every example they name",
 "While training, every requested metric is given every processed example exactly once, with that example's own features and label and the prediction made before learning from it, and computes what its name says: the mean squared error, the inverse-propensity estimate of the reward, the number of features, the number of the example. Reading a metric never crashes or cuts the value, whatever was seen. A requested metric that does not fit the model's labels or predictions is refused with an error.",
 ["inputs", "configurations"], "every training file, choice of metrics and mode (quiet, predictions file, parser threads)",
 "A skipped, doubled or mismatched measurement still prints a plausible number.",
 ["reductionml-cli/src/train.rs", R + "metrics/"], [("training loop", "reductionml-cli/src/train.rs process_example"), ("metrics", R + "metrics/*.rs add_point, get_value, supports")],
 technique="exact normal form of the metrics' increments and values; dominance / obligation-per-example analysis of the training loop per mode; decision table of supported types",
 note="Arithmetic is read as real arithmetic. Assumes the file table row order (rendering) is comfy-table's.")

prop("C25", "Examples that do not fit the model are refused",
 "An example whose features or label are of another kind than the model takes, that has no action to choose from, or whose label names an action it does not have, is refused with an error by training and by every Python call, before the model is touched; an example that fits is never refused. Choosing a data format that cannot describe what the model takes is an error, not a crash.",
 ["inputs", "configurations"], "every combination of model, kind of features and kind of label, and every action number",
 "Tests feed each model matching examples only.",
 [R + "workspace.rs", "reductionml-cli/src/train.rs", "reductionml-python/src/workspace.rs"], [("check", R + "workspace.rs Workspace::check_example"), ("callers", "reductionml-cli/src/train.rs process_example; reductionml-python/src/workspace.rs")],
 technique="guard classification per kind of example (path exploration of MIR) and dominance of every prediction/update by the guard's success on the same values",
 note="Functions outside the core library; calling the Rust library directly without the check is the caller's own risk.")

prop("C26", "Loss derivatives and updates agree with the loss",
 "For every loss function, prediction, label, label limits and step sizes: the first derivative is the derivative of the loss with respect to the prediction, the second derivative that of the first, the squared gradient the square of the first derivative, and both updates move against the gradient by the amount their definition gives; choosing a loss in the configuration uses exactly that loss for all of these.",
 ["inputs", "configurations"], "every loss, prediction, label, limits and step size (as real numbers)",
 "Tests compare a few points with numbers produced by the same formulas.",
 [R + "loss_function.rs", R + "loss_function/squared_loss.rs", R + "loss_function/logistic_loss.rs", R + "reductions/coin.rs"], [("losses", R + "loss_function/*.rs"), ("dispatch", R + "loss_function.rs")],
 technique="symbolic reading of MIR into rational functions with exp/ln over a finite case split, formal differentiation, exact comparison",
 note="Rounding is not modelled. The approximated inverse in the logistic update is kept as a symbol.")

prop("N01", "Exploration probabilities form a distribution",
 "Every probability vector returned by an exploration method is non-negative and sums to one within rounding.",
 ["inputs"], "every score vector and exploration setting", "Tests check a few vectors.",
 [R + "explore.rs"], [("exploration", R + "explore.rs")],
 na="Quantifies over floating-point values computed in loops; no sound static bound on the rounded sums is in reach, and no structural clause beyond C21 (each action exactly once) is a necessary condition.")

prop("N02", "Coin betting converges and stays finite",
 "Training the base learner on finite inputs keeps all weights finite and drives the loss of a realisable problem towards zero.",
 ["inputs", "histories"], "every finite training sequence", "Tests check two small problems.",
 [R + "reductions/coin.rs"], [("update", R + "reductions/coin.rs")],
 na="Purely numerical statement over unbounded histories; static analysis cannot bound the values.")

prop("N03", "Exported model text reproduces floats bit for bit",
 "Exporting a model to JSON and importing it gives bitwise identical weights.",
 ["histories"], "every model", "Tests round-trip one model.",
 [R + "dense_weights.rs", C + "export_model.rs"], [("export", C + "export_model.rs")],
 na="Depends on the float printing and parsing of third-party crates, which lie outside the analysed source; the structural part (no field lost) is C08.")

prop("N04", "Training time grows linearly with input size",
 "Training takes time proportional to the number of features processed, and memory stays bounded by the model and the queues.",
 ["inputs"], "every input size", "Benchmarks are not asserted.",
 [C + "train.rs"], [("pipeline", C + "train.rs")],
 na="Run-time quantity; not decidable from the source.")
