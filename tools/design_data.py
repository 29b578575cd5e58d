# per property: (bounds and assumptions, what is not decided, what the batch of planted changes showed)
D = {
"C01": ("No bound: all functions reachable from predict / learn / sensitivity, dynamic calls resolved to every implementation. Third-party functions are judged by name (a closed list of sources: clocks, randomness, environment, files, threads, hash-table iteration, atomics, locks, addresses as numbers).",
        "A third-party function that is pure by name and impure inside; numerical equality between compilers.",
        "Cell / atomic / thread-local counters, HashMap iteration, `SystemTime`, interior mutability added to the weights, and predict reaching learn are reported; extra helpers, BTreeMap use and local caches are not."),
"C02": ("Merging and unmerging are interpreted algebraically; loops over actions are handled by loop summaries of the location that is lent. Documented assumptions: an inactive namespace counts as absent, a generated namespace is not in the example beforehand.",
        "Paths that unwind.", "Early return between merge and unmerge, unmerge from another object, wrong truncation length, namespace not restored: reported."),
"C03": ("Each reduction is explored per variant of the lent features and per boolean option; calls to sub-models are uninterpreted, so equality is equality of value-numbered terms (sound; incomplete for algebraically equal but differently associated floats, which are normalised only for commutativity).",
        "Whether learn itself is a good update.", "Dropped, doubled and swapped updates, other offset/label/features in the combined step, prediction after the update: reported."),
"C04": ("All factories and all methods of all reductions, one exploration per declared label/features/prediction variant.", "Types of sub-models loaded from a model file (see findings).", "A removed comparison, a comparison of the wrong pair, a wrong declared type: reported."),
"C05": ("Every field of every configuration struct and every clap field; data and control dependence on explored MIR.", "That the effect is the documented one beyond its kind (scale, exponent, bound, flag).", "46 of 47 planted changes reported (dropped, swapped, constant, half-applied options); the miss limits the number of metrics (`.take(4)`)."),
"C06": ("Complete tables: registry, metrics, losses, links, formats.", "Names accepted by third-party parsers (clap value names are read from the attribute tables).", "Swapped entries, a duplicate name, an unreachable implementation and a default for unknown names: reported."),
"C07": ("All derived visitors of configuration types; the published schema file is read as data.", "Type errors inside serde itself.", "Removed deny_unknown_fields, changed default in one source only, `unwrap_or_default` on the parsed configuration: reported."),
"C08": ("All types reachable from the workspace by type; every serialiser and deserialiser body.", "Bit-exact text of floats (N03).", "Skipped fields, crossed fields, state reset after loading, an export that skips the last model or an off-by-one table walk: reported."),
"C09": ("All loading entry points with everything local inlined, in the debug build (arithmetic checked); intervals, lengths and order facts must exclude each construct.", "Panics inside third-party crates; what happens later with a model whose stored weights contradict the stored sizes (listed finding).", "Removed range checks, unwraps on parsed text, reordered validation, unchecked allocation: reported; extracted helpers, `match` for `if let`, other loop forms: quiet."),
"C10": ("All parser entry points; all loops; text positions and lengths by interval and order facts.", "Panics inside third-party crates (serde_json, str slicing is analysed at the call).", "Unwraps, indexes, slices, missing advance, dropped last part, ignored conversion failures: reported."),
"C11": ("All constructions of FeatureIndex in all crates, with provenance through parameters, fields and captures up to the configuration.", "Rust API users who pass their own numbers.", "Mask removed, mask of another bit count, seed constant: reported."),
"C12": ("Formulas are value-numbered and compared after normalisation; two and three terms of interactions.", "Hash quality.", "Another seed, order, separator, default-namespace name, missing value: reported."),
"C13": ("All pool returns and all readers of namespaces.", "Debug formatting.", "Namespace not emptied, inactive namespace observed, recycled buffer not cleared: reported."),
"C14": ("All closures of the training command; endpoint ownership over all paths. No schedule is enumerated: the argument is order of queueing + single learner + endpoint lifetime.", "The channel library itself.", "Swapped sends, kept sender, second learner, unpublished failure, receiver kept alive at an early stop: reported."),
"C15": ("Every call site with a Result in every crate.", "Failures that libraries swallow.", "`let _ =`, `.ok()`, missing flush, unjoined thread, exit status 0: reported."),
"C16": ("All unsafe auto-trait impls, raw accesses, mutable statics.", "Data races inside third-party crates.", "Relaxed publication, write after publication, read before acquiring, unconditional Send: reported."),
"C17": ("All pyo3 classes, methods and functions; the Python files are parsed with `ast`.", "pyo3's generated glue (its registration tables are read).", "Crossed variants, swapped arguments, wrong getter, missing export, differing stub: reported."),
"C18": ("Both builds of all four crates. Differing functions are compared by matching effects and results; every overflow check of the workspace is an obligation. Assumed: counters of examples stay below 2^31, lengths below 2^63, the table addresses of C20, the offsets of C20/C23, restored features (C02).", "Differences inside third-party crates between their debug and release builds; floating-point differences between optimisation levels.", "15 planted differences (other argument in the debug arm, missing step in the release arm, early return, wrapping arithmetic turned checked, shifts out of range, new assertions): all reported; 9 refactors (cfg attribute, optional copy, helpers): quiet."),
"C19": ("All walkers and all their callers.", "Rounding.", "A skipped namespace or interaction, other offset, value not multiplied, constant dropped in one walker: reported."),
"C20": ("Polynomial comparison of shift amounts; all accessors; all factories.", "Tables loaded with contradicting sizes (C09 finding).", "Swapped shifts, cast after shift, one accessor different, too small table, colliding offsets: reported."),
"C21": ("All loops over actions and all exploration methods.", "Numerical properties of the distributions (N01).", "Off-by-one action, skipped last action, merged twice, score paired with another action: reported."),
"C22": ("Complete tables on both sides.", "Prose descriptions in the schema.", "Option only in the code or only in the schema, other default, other type: reported."),
"C23": ("Polynomial normal form of the offset at every child call and every return; debug and release.", "Paths that unwind.", "Missing decrement, decrement by another amount, child given the unincremented record: reported."),
 "C24": ("Increments and reported values as exact formulas; every pair of label and prediction types; every mode of the training command (quiet, predictions file) and every setting of the conditions on which the per-example function branches.", "Rounding and overflow of the float sums; the rendering of the table; whether the iterators of the features yield every feature (C12, C13).", "22 trial bugs reported (sign, abs value, skipped zero cost, first listed action, action used as a position, shared part or first action skipped, maximum for sum, counter not kept, i32 cut, predict after learn, metrics only without predictions file, take(3), first metric fed twice, report before feeding, not asking supports); 9 refactorings quiet."),
 "C25": ("Every kind of features x (no label or every kind of label) in every guard; every call of a workspace entry outside the core crate. Every pair of feature and label types in every function that chooses a parser.", "That the declared types are those the reductions really take (C11); values of features.", "12 trial bugs reported (off by one action, capacity for length, binary label let through, feature check only without label, refusing the last or the only action, result ignored, label not checked, only checked when not quiet); 7 refactorings quiet."),
 "C26": ("Every order type of prediction, label and limits (12 cases), step-size conditions split both ways; formulas compared exactly as rational functions with exp/ln atoms.", "Rounding; the quality of the approximation inside the logistic importance-aware update (kept as a symbol).", "13 trial bugs reported (sign, factor, clamp to the wrong limit, dispatch to another method, swapped limits); 8 refactorings quiet."),
}
