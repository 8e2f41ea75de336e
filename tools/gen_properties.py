#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (kept as a script so that statements are easy to edit)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {"files": files,
                    "state": [dict(zip(("name","meaning","where"), s)) for s in state],
                    "mechanism": [dict(zip(("name","where"), m)) for m in mech],
                    "observe_at": list(observe), "hook_needed": hook}})

prop("C01", "Concurrent updates are never lost or applied twice",
 "When several threads update the same counter, gauge, float gauge or histogram through shared references, alone or as a series of a metric vec (dense or sparse, including several threads racing to touch the same label group or different label groups for the first time), then after all of them return the metric holds exactly the result of applying every update once. For a gauge that is also set concurrently, the final value is one that some sequential order of the operations consistent with each thread's order produces.",
 ["schedules"], "every interleaving of 2-3 threads doing 1-4 updates each on one or two label groups",
 "The existing tests are single threaded; a lost update needs a preemption between a load and a store, or between the lookup and the insertion of a series.",
 ["core/src/metric/counter.rs","core/src/metric/gauge.rs","core/src/metric/histogram.rs","core/src/metric.rs","core/src/metric/sparse.rs"],
 [("atomic fetch_add / CAS loop","core/src/metric/counter.rs, core/src/metric/gauge.rs AtomicF64::inc_by"),("OnceLock::get_or_init for dense cells","core/src/metric.rs VecInner::get_metric"),("re-lookup under the write lock before inserting","core/src/metric/sparse.rs ShardedMap::get_metric")],
 [("dense cells","lazily initialised metric per label index","core/src/metric.rs VecInner::Dense"),("shards","sharded hash table of series","core/src/metric/sparse.rs ShardedMap")],
 ["text exposition after all threads joined","public atomics in CounterState/GaugeState"])

prop("C02", "A histogram scrape is an atomic snapshot",
 "Every scrape of a histogram series shows a state the histogram was in at one instant between the start and end of that series' sampling: the sum is the sum of exactly the observations counted in the buckets, the buckets are cumulative, and the +Inf bucket equals the count. An observation running concurrently is either wholly visible or wholly absent, and observations that completed before the scrape started are always visible.",
 ["schedules"], "every interleaving of 1-3 observing threads (1-3 observations each) with 1-2 scraping threads",
 "A torn snapshot needs the scraper to run between an observer's bucket increment and its sum update; tests scrape only when nothing else runs.",
 ["core/src/metric/histogram.rs","core/src/text.rs"],
 [("observers hold the read lock, the scraper holds the write lock","core/src/metric/histogram.rs HistogramLockGuard::observe / core/src/text.rs HistogramState::collect_into")],
 [("HistogramStateInner","buckets, inf and sum of one histogram","core/src/metric/histogram.rs")],
 ["text exposition of Histogram and HistogramVec"])

prop("C03", "Removing a series conserves every update",
 "When series of a sparse metric vec are removed while other threads update, re-create or remove them, each update that was made ends up in exactly one place: in the value returned by exactly one successful removal, or in the series still live at the end. A removal returns a value only if the series existed, never returns the same series twice, never disturbs any other series, and while a thread holds a reference to a series that series is not removed under it.",
 ["schedules","histories"], "every interleaving of 2-3 threads doing up to 3 operations from {update, get-and-hold, remove} over two label groups that share a shard",
 "The only removal test is single threaded with two series; losing an update needs an updater between lookup and increment while the removal runs.",
 ["core/src/metric/sparse.rs","core/src/metric.rs"],
 [("removal takes the shard write lock, references hold the shard read lock","core/src/metric/sparse.rs ShardedMap::remove_metric / get_metric"),("write guard downgraded to read guard after insertion","core/src/metric/sparse.rs ShardedMap::get_metric")],
 [("shards","sharded hash table of series","core/src/metric/sparse.rs")],
 ["MetricVec::remove_metric return value","text exposition at the end"])

prop("C04", "A concurrent scrape is complete, duplicate free and monotone",
 "A scrape of a metric vec or group that runs concurrently with updates, first uses and removals lists every series at most once, lists every series that existed when the scrape began and was not removed meanwhile, and lists none that was never touched. Each listed value is one the series had at some moment during the scrape (so it includes every update completed before the scrape began and none begun after it ended), and two successive scrapes never show a counter that is not removed going down; encoding never fails or panics.",
 ["schedules"], "every interleaving of one or two scraping threads (1-2 scrapes each) with 1-2 threads creating, updating or removing series",
 "Tests scrape quiescent vecs only, so the collection loop never meets a table that is being changed.",
 ["core/src/metric.rs","core/src/metric/sparse.rs","core/src/text.rs"],
 [("each shard is walked under its read lock","core/src/metric.rs MetricVec::collect_family_into"),("dense cells are published by OnceLock","core/src/metric.rs VecInner::Dense")],
 [("shards / dense cells","live series","core/src/metric.rs, core/src/metric/sparse.rs")],
 ["text exposition", "MetricVec::get_cardinality"])

prop("C05", "No operation mix deadlocks or runs forever",
 "Any mix of updates, first uses, removals, scrapes, cardinality queries and interning of new label strings from several threads, where each thread holds at most one metric reference at a time, terminates under every schedule in which each runnable thread eventually runs. In particular a thread that holds a reference to one series never prevents the others from completing once it releases it.",
 ["schedules"], "every interleaving within the preemption bound of every pair and selected triples of public operations over colliding and distinct label groups",
 "A deadlock needs two threads to meet at lock acquisitions in opposite order or a lock upgrade; single threaded tests never block.",
 ["core/src/metric/sparse.rs","core/src/metric.rs","core/src/metric/histogram.rs","core/src/text.rs","core/src/label/impls.rs"],
 [("a lookup releases its read lock before taking the write lock","core/src/metric/sparse.rs ShardedMap::get_metric"),("one shard lock is held at a time while scraping","core/src/metric.rs collect_family_into"),("CAS loops retry only when another thread made progress","core/src/metric/gauge.rs AtomicF64::inc_by")],
 [("shard RwLocks","one per shard","core/src/metric/sparse.rs"),("histogram RwLock","one per histogram","core/src/metric/histogram.rs")],
 ["termination of every operation"])

prop("C06", "Concurrent use is free of data races",
 "Under every schedule, all conflicting accesses that concurrent metric operations (first use of dense and sparse series, updates, scrapes, removals, histogram sampling, label interning, lazily computed process-wide settings) make to shared memory are either atomic or ordered by synchronisation, so that a series seen by one thread is always seen fully initialised.",
 ["schedules"], "every interleaving of 2-3 threads of the harnesses of C01-C05 and C08, with happens-before tracking of every memory access of the library and its dependencies",
 "The tests are single threaded and run without a race detector; a missing release or acquire never shows on x86 in a test.",
 ["core/src/metric.rs","core/src/metric/sparse.rs","core/src/metric/histogram.rs","core/src/metric/gauge.rs","core/src/label/impls.rs"],
 [("OnceLock publication","core/src/metric.rs VecInner::get_metric, core/src/metric/sparse.rs default_shard_amount"),("RwLock around shards and histogram state","core/src/metric/sparse.rs, core/src/metric/histogram.rs"),("sampling through &mut under the write lock","core/src/metric/histogram.rs HistogramStateInner::sample")],
 [("all heap and static memory of the metric","", "")],
 ["vector clocks maintained by the checker"])

prop("C07", "Label groups and their identifiers are in bijection",
 "For every label set, encoding a label group and decoding the result gives back the same group; two groups get equal identifiers exactly when all their label values are equal, and the identifier of a group never changes. If the set has a fixed cardinality c (the product of its parts, absent when some part is dynamic or the product does not fit), the dense indices of its groups are exactly 0..c, each used once and decoding to its group, and a value outside a fixed set is rejected rather than mapped to some series. A group whose identifier cannot be represented may be rejected as well, but never shares an identifier.",
 ["inputs","programs"], "every value of every label set shape in a generated family (derived groups with 0-4 fields, all mixes of enum, fixed runtime and dynamic fields, composed, nested, shared and singleton sets)",
 "Tests check three hand-picked shapes; mixed-radix mistakes show only for particular field counts, orders and cardinalities.",
 ["core/src/label/group.rs","core/src/label/value.rs","core/src/label/impls.rs","derive/src/label_group/to_tokens.rs","derive/src/value/to_tokens.rs"],
 [("mixed radix encoding of fixed fields, tuple for dynamic ones","derive/src/label_group/to_tokens.rs SetEncode/SetDecode"),("composition of two sets","core/src/label/group.rs ComposedGroup")],
 [], ["LabelGroupSet::{encode,decode,encode_dense,decode_dense,cardinality}","MetricVec::try_with_labels"])

prop("C08", "Concurrent interning of label strings is consistent",
 "When several threads use a dynamic label set at once, the same string always yields the same identifier and the same series, different strings always yield different ones, and every identifier decodes to the string it was made from, also while other threads intern new strings or scrape.",
 ["schedules"], "every interleaving of 2-3 threads interning and using 1-2 equal or different strings, with and without a scraper",
 "The dynamic label tests are single threaded.",
 ["core/src/label/impls.rs","core/src/metric.rs","derive/src/label_group/to_tokens.rs"],
 [("get-or-intern on the shared interner","core/src/label/impls.rs LabelSet for ThreadedRodeo")],
 [("interner","string to key table shared by all threads","lasso::ThreadedRodeo")],
 ["LabelGroupSet::{encode,decode}","text exposition"])

prop("C09", "A metric vec behaves as a map from label groups to metrics",
 "After any sequence of operations a metric vec holds exactly the series its history implies: a series exists once touched (by shared or exclusive access or by initialising all dense series) until removed, starts from the metric's initial value, keeps its own value whatever happens to other series, and starts afresh if touched again after removal. Removal returns the removed state on a sparse vec and nothing on a dense one, the cardinality query returns the exact number of live series with the label set's cardinality as upper bound, and a scrape lists exactly the live series.",
 ["histories"], "every operation sequence up to a depth over small label sets, for counters, gauges, float gauges and histograms, dense and sparse, plus deep grow/shrink histories with hundreds of series",
 "Tests try a handful of sequences; rehash, tombstone and re-creation bugs need particular histories.",
 ["core/src/metric.rs","core/src/metric/sparse.rs"],
 [("VecInner dispatch","core/src/metric.rs"),("hash table insert/find/remove with rehash from the stored key","core/src/metric/sparse.rs")],
 [("dense cells / shards","live series","core/src/metric.rs, core/src/metric/sparse.rs")],
 ["MetricVec public API","text exposition"])

prop("C10", "Storage representation is invisible",
 "Whether a metric vec is stored densely or sparsely, by default or by an explicit constructor, and however many CPUs the machine has, the same operations give the same series, values, cardinality and exposition, apart from the order of series within the family and the documented lack of removal and of bulk initialisation. The default constructors accept every label set, including empty ones, ones at the dense/sparse boundary and unbounded ones.",
 ["configurations","histories"], "every constructor x label set cardinality around the representation boundary x CPU counts 1..64 x operation histories",
 "Tests use cardinalities 2 to 12 on whatever machine runs them, so one representation and one shard count.",
 ["core/src/metric.rs","core/src/metric/sparse.rs"],
 [("choice of representation by cardinality","core/src/metric.rs with_label_set_and_metadata"),("shard selection by the top hash bits","core/src/metric/sparse.rs")],
 [("shift / shards","shard count and index shift","core/src/metric/sparse.rs")],
 ["text exposition","MetricVec::get_cardinality"])

prop("C11", "Observations land in exactly the right bucket",
 "For every sequence of observations and every valid set of thresholds, the exposed cumulative count of each bucket is the number of observations less than or equal to its bound, the +Inf bucket and the count are the number of all observations, and the sum is the sequential floating point sum of them in order. An observation that is not less than or equal to any bound (including NaN) counts only towards +Inf.",
 ["inputs","histories"], "every sequence up to length 3-4 over an alphabet of values at, just below and just above every bound plus signed zeros, subnormals, infinities and NaN, for 0 to 20 buckets",
 "Tests observe four ordinary values against one threshold layout; off-by-one and boundary mistakes need a value equal to a bound.",
 ["core/src/metric/histogram.rs","core/src/text.rs"],
 [("partition_point over the bounds","core/src/metric/histogram.rs observe"),("running total while encoding","core/src/text.rs HistogramState::collect_into")],
 [("buckets/inf/sum","","core/src/metric/histogram.rs HistogramStateInner")],
 ["text exposition of Histogram and HistogramVec"])

prop("C12", "Threshold constructors build the documented bounds",
 "The exponential constructor yields start*factor^i and the linear one start+width*i for every i below N, explicit bounds are kept as given, and the bounds in use appear unchanged as le labels (a last bound of +Inf coincides with the bucket that always closes a histogram). Each constructor panics when its documented conditions are not met (start greater than 0, factor greater than 1, width greater than 0, every bound less than the next one; a comparison with NaN is not met) and on nothing else, for every number of buckets including none.",
 ["inputs"], "every combination of constructor, bucket count (0..16, 32, 64) and argument from an alphabet of 29 values around the documented limits, NaN and infinities included (a NaN start of linear buckets is left open); every bound array over up to 13 values up to length 5-7 (NaN as the only bound is left open)",
 "Tests build two valid exponential layouts; the panics and the other constructors are untested.",
 ["core/src/metric/histogram.rs"],
 [("assertions and array construction","core/src/metric/histogram.rs Thresholds")], [],
 ["Thresholds::get","le labels in the text exposition"])

prop("C13", "Text exposition round-trips labels and help text",
 "Parsing the text output by the Prometheus text format rules gives back exactly the label names, label values and help text that were put in, for every valid UTF-8 string (including quotes, backslashes, newlines, other control characters, multi-byte characters and empty strings), and one sample per series. No string can break out of its place in the output and forge another label, sample or comment line.",
 ["inputs"], "every string up to length 5 over an alphabet of special and ordinary characters, in each label position, mixed value kinds, and in help text",
 "Tests escape one string; injection needs particular neighbouring special characters.",
 ["core/src/text.rs","core/src/label/impls.rs"],
 [("escaping of label values","core/src/text.rs write_label_str_value"),("help line writing","core/src/text.rs write_help")], [],
 ["bytes produced by BufferedTextEncoder and TextEncoder"])

prop("C14", "Text output is well formed over any encoder history",
 "Whatever sequence of help, type, metric, family and group writes is made and however often the encoder is finished and reused, the output of each collection parses as a complete Prometheus text document: HELP and TYPE lines directly precede their family with the right name and type, every sample carries its family's name (with the histogram suffixes for histograms) and a family that has samples is separated from the next one by one blank line. A reused encoder produces byte for byte what a fresh one would, and the buffered and the streaming encoder agree.",
 ["histories"], "every sequence up to depth 4-5 of encoder operations over a menu of metrics, vecs (empty and filled), histograms, groups and finish calls",
 "Tests encode one or two families with a fresh encoder; the separator state machine and reuse are unobserved.",
 ["core/src/text.rs","core/src/metric.rs","core/src/metric/group.rs"],
 [("encoder state deciding on the separating blank line","core/src/text.rs State"),("finish/flush resetting the state","core/src/text.rs")],
 [("state","whether the last thing written was a sample","core/src/text.rs TextEncoder")],
 ["bytes produced"])

prop("C15", "Text encoding reports every write failure",
 "If the underlying writer fails at any point, the collection in progress returns that error and never reports success for output that was not fully accepted; what was accepted before the failure is a prefix of the fault-free output. Writers that accept only part of each write or are interrupted yield the complete, unchanged output, and an encoder that failed once can be used again after the writer recovers, without panicking.",
 ["fault_sequences"], "a failure or a stop of each kind at every byte and every write call, alone and in pairs, short writes of every size, interruptions at every call, for families covering every metric type and label kind",
 "The tests only write to memory; no write ever fails.",
 ["core/src/text.rs","core/src/metric.rs","core/src/metric/group.rs"],
 [("error propagation through the label visitor","core/src/text.rs write_metric_value GroupVisitor"),("write_all everywhere","core/src/text.rs")], [],
 ["Result of collect_family_into/collect_group_into/write_help/flush","bytes accepted by the writer"])

prop("C16", "Protobuf output decodes to exactly the collected families",
 "Decoding the protobuf output gives exactly one length-delimited metric family message per family that was collected, in order, with its own name, help and type, and one metric per live series with exactly its labels and value. This holds for every length of name, help, label and message, for families without any series, and for every history of collections, flushes and reuse of one encoder; nothing of one family or collection ever appears in another.",
 ["inputs","histories"], "every operation sequence up to depth 5-6 over a menu of families (with/without help, empty, filled, absent, of each type), every payload length around the varint boundaries up to 2^28, label values of every kind, size and sign in every position, metric values around every power of two, and 0..130 / 1200 series",
 "Tests encode two small families; varint boundaries, empty families and reuse are never reached.",
 ["prometheus-proto/src/lib.rs","prometheus-proto/src/encoding.rs"],
 [("length computed before the message is written","prometheus-proto/src/lib.rs encode_message / GroupLenVisitor"),("state machine buffering one family","prometheus-proto/src/lib.rs ProtoEncoder")],
 [("state/buf","family under construction with room for its length","prometheus-proto/src/lib.rs ProtoEncoder")],
 ["bytes produced by ProtoEncoder"])

prop("C17", "Only valid metric and label names exist and compose exactly",
 "A metric name is accepted exactly if it matches [a-zA-Z_:][a-zA-Z0-9_:]* and a label name exactly if it matches [a-zA-Z_][a-zA-Z0-9_]*, by every constructor that takes one; rejection is by the documented panic or error. A name with any nesting of namespaces and suffixes encodes to the namespaces joined by underscores, the name and the suffixes, in order, and its reported length is the number of bytes it writes.",
 ["inputs"], "every string up to length 3 over one representative per character class (plus every single byte/char in each position), every nesting of namespace and suffix up to depth 4",
 "Tests use a few good names and no bad ones.",
 ["core/src/metric/name.rs","core/src/label/name.rs"],
 [("validation functions","core/src/metric/name.rs const_assert_metric_name/try_assert_metric_name, core/src/label/name.rs assert_label_name"),("encoders of WithNamespace/WithSuffix","core/src/metric/name.rs")], [],
 ["MetricName::{from_str,try_from_str}","LabelName::from_str","MetricNameEncoder"])

prop("C18", "Derived enum labels are numbered and named as documented",
 "For every enum the fixed cardinality derive gives the number of variants, numbers them from 0 in declaration order with decoding inverse to encoding, and exposes each variant as its rename, else its explicit integer discriminant, else its name in the requested case style (snake case by default). With a singleton name the enum alone is a label group with exactly that one label.",
 ["programs"], "a generated family of enums: every case style x identifier shapes (one word, several words, acronyms, digits, underscores, single letters), discriminants, renames, 1 to 300 variants, singleton or not",
 "The doc tests cover four small enums and two case styles.",
 ["derive/src/value/to_tokens.rs","derive/src/value/attr.rs","derive/src/value/parse.rs"],
 [("generated encode/decode/visit","derive/src/value/to_tokens.rs"),("case conversion table","derive/src/value/attr.rs RenameAll")], [],
 ["FixedCardinalityLabel and LabelValue impls","text exposition"])

prop("C19", "Derived metric groups expose every field exactly once, correctly",
 "Collecting a derived group writes every field once in declaration order: a metric under its field name or rename with its doc comment as help, a nested group under its namespace prefix (accumulating over any nesting depth) or unprefixed if flattened, and optional, shared, borrowed and composed groups exactly as their content. The generated constructor takes the declared arguments and initialises each field from its init expression, its metadata and label set, or its default.",
 ["programs"], "a generated family of groups: every field kind x attribute combination up to 3 fields, nesting of namespace/flatten up to depth 3, every wrapper",
 "Tests cover one group with one nested namespace.",
 ["derive/src/metric_group/to_tokens.rs","derive/src/metric_group/attr.rs","core/src/metric/group.rs","core/src/metric/name.rs"],
 [("generated collect_group_into/new","derive/src/metric_group/to_tokens.rs"),("WithNamespace encoder adapter","core/src/metric/group.rs")], [],
 ["text and protobuf exposition"])

prop("C20", "A timer records its elapsed time exactly once or not at all",
 "Starting a timer and then dropping it, also by unwinding, or observing it records exactly one observation equal to the time elapsed since it was started, in the histogram and label group it was started for; observing also returns that duration and the later drop records nothing more. Forgetting a timer records nothing, timers never affect each other, and explicit duration observations record the duration in seconds.",
 ["histories"], "every interleaving of up to 3 timers over start/advance clock/observe/drop/forget/unwind on plain and labelled histograms, dense and sparse, under a virtual clock",
 "Timers are untested; with a real clock a test cannot pin the recorded value.",
 ["core/src/metric/histogram.rs"],
 [("Option taken on observe/forget, drop records if still present","core/src/metric/histogram.rs HistogramTimer/HistogramVecTimer")],
 [("vec/start","target histogram and start instant of a timer","core/src/metric/histogram.rs")],
 ["text exposition of the histogram","returned Duration"])

prop("C21", "The process collector reports the observed process",
 "For every process that was alive when the collector was made the process collector reports that process's own number of open file descriptors, file descriptor limit (absent when unlimited), virtual and resident memory, CPU seconds, thread count and start time, each once under its documented name with its help and nothing else; a figure that the system does not let it read is left out and the others are still shown. For a process that does not exist it reports nothing and does not fail.",
 ["configurations"], "self and child processes over a grid of extra descriptors, descriptor limits (small, large, unlimited), thread counts, memory mapped, CPU burnt and start delays, and dead or never existing pids; every combination of figures of a /proc written by the harness (limits, descriptors, sizes, times, states, names, unreadable files)",
 "The only test constructs the collector and never collects.",
 ["process/src/lib.rs"],
 [("procfs sampling of the given pid","process/src/lib.rs collect_group_into"),("start time computed once","process/src/lib.rs ProcessCollector::new")],
 [("pid/start_time","observed process","process/src/lib.rs")],
 ["text exposition"])

prop("C22", "The tokio collector reports the observed runtimes",
 "For every set of named or unnamed runtimes, of either flavour and any worker count, poll histogram on or off, the tokio collector writes each documented family once, with exactly the samples the runtime's own metrics interface shows: one per runtime, worker, queue or thread kind, labelled with the runtime's name if it has one, worker index and kind, with cumulative poll time buckets ending in +Inf. No two samples of one scrape carry the same name and labels. A failed attempt to add the current runtime panics as documented and leaves the collector as it was.",
 ["configurations","histories"], "every combination of 0-3 runtimes x flavour x 1-4 workers x histogram off/linear/log x task workloads, sampled at rest; every history of additions (also where there is no current runtime) and scrapes up to a depth; up to 26 runtimes and 33 workers",
 "The crate has no enabled test.",
 ["tokio/src/lib.rs"],
 [("metric! macro looping over runtimes and workers","tokio/src/lib.rs collect"),("label groups Worker/Overflow/QueueKind/ThreadKind/RuntimeName","tokio/src/lib.rs")],
 [("runtimes","observed runtimes","tokio/src/lib.rs NamedRuntimesCollector")],
 ["text exposition"])

prop("C23", "Shared and exclusive access have the same effect",
 "Every update made through an exclusive reference to a metric (alone or in a vec, dense or sparse, existing or new series) has exactly the effect of the same update made through a shared reference, and the two can be mixed in any order. A reference always refers to the series it was asked for, with that metric's metadata.",
 ["histories"], "every sequence up to depth 4 of shared and exclusive updates with boundary arguments on every metric type, standalone and in vecs, compared with the all-shared sequence",
 "The exclusive API is used by no test.",
 ["core/src/metric/counter.rs","core/src/metric/gauge.rs","core/src/metric/histogram.rs","core/src/metric.rs","core/src/metric/sparse.rs"],
 [("MetricMut implementations","core/src/metric/counter.rs, gauge.rs, histogram.rs"),("get_metric_mut","core/src/metric.rs, core/src/metric/sparse.rs")], [],
 ["text exposition","public atomics"])

prop("C24", "Exposed numbers equal the stored numbers",
 "Every counter and histogram count (the full u64 range), gauge (the full i64 range), float gauge and histogram sum (every f64, including signed zeros, subnormals, infinities and NaN), and every integer or float label value is exposed in text such that parsing it gives back exactly the stored value, and in protobuf as the nearest double. The helper functions that write a single value after its family's help or type expose the value they are given.",
 ["inputs"], "every value of an alphabet of several hundred boundary numbers (0, 1, powers of two and ten and their neighbours, extremes of u64/i64/f64, subnormals, infinities, NaN) x every metric and label kind x both encoders",
 "Tests expose four small values.",
 ["core/src/text.rs","core/src/metric/counter.rs","core/src/metric/gauge.rs","prometheus-proto/src/lib.rs","prometheus-proto/src/encoding.rs"],
 [("number formatting","core/src/text.rs write_metric_value"),("double encoding","prometheus-proto/src/encoding.rs")], [],
 ["text and protobuf exposition"])

prop("C25", "Protobuf encoding survives and reports write failures",
 "If the underlying writer fails at any point, the write, collection or flush in progress returns that error and success is never reported for output that was not fully accepted; what was accepted is a prefix of the fault-free output. Short and interrupted writes do not change the output, and after a failure every later family the encoder delivers decodes cleanly by itself, without panics and without bytes of an earlier family mixed into it.",
 ["fault_sequences"], "a failure at every byte and every write call, alone and in pairs, short writes of every size and interruptions, over operation histories of 1-3 families followed by reuse after recovery",
 "Tests only write to memory.",
 ["prometheus-proto/src/lib.rs"],
 [("buffer reset on flush","prometheus-proto/src/lib.rs flush_buf")],
 [("state/buf","family under construction","prometheus-proto/src/lib.rs ProtoEncoder")],
 ["Result of writes and flush","bytes accepted by the writer"])

prop("C26", "Derived label groups expose each field once under its name",
 "A derived label group presents each of its fields exactly once, in declaration order, under the field's name or rename and with the field's own value, alone, composed with other groups (left part first) or decoded from a metric vec. The generated set constructor takes exactly the non-default fields and keeps each in its own place.",
 ["programs"], "a generated family of label groups: 0-4 fields in every order of enum, fixed runtime and dynamic kinds, with and without rename/default, lifetimes, composed pairwise and nested",
 "Tests cover one two-field group per encoder.",
 ["derive/src/label_group/to_tokens.rs","derive/src/label_group/attr.rs","core/src/label/group.rs"],
 [("generated visit_values and set","derive/src/label_group/to_tokens.rs"),("ComposedGroup::visit_values","core/src/label/group.rs")], [],
 ["LabelGroup::visit_values","text and protobuf exposition"])

prop("C27", "A panic in user code leaves the metrics usable",
 "If code of the user that the library calls panics (a label set while encoding, decoding or telling its cardinality, a label group or value while it is visited, the equality of identifiers, a metric type's default or collection, a name, a writer, or the holder of a metric reference), the panic reaches the caller and nothing else happens: no lock stays held, the interrupted operation has taken effect entirely, not at all, or has at most created its series with the initial value, every other series keeps its value, and every later operation and every scrape with a new encoder works as if the panic had not been.",
 ["fault_sequences","histories"], "every operation of a metric vec x every history up to a depth and tables of many sizes x a panic at each call of user code in turn, once and twice, followed by every operation on every series",
 "No test lets user code panic; what remains after unwinding depends on where exactly it stopped.",
 ["core/src/metric.rs","core/src/metric/sparse.rs","core/src/metric/histogram.rs","core/src/text.rs","prometheus-proto/src/lib.rs"],
 [("locks released by guards, also while unwinding","core/src/metric/sparse.rs ShardedMap::get_metric"),("OnceLock stays empty if the initialiser panics","core/src/metric.rs VecInner::get_metric"),("entry inserted only when its value exists","core/src/metric/sparse.rs")],
 [("dense cells / shards","live series and the locks around them","core/src/metric.rs, core/src/metric/sparse.rs")],
 ["text exposition","MetricVec public API","termination of later operations"])

prop("C28", "Repeating work holds no more memory or descriptors",
 "A program that repeats the same finite piece of work (updates, timers, creation and removal of the same series, successful and failing scrapes with encoders that are kept or new ones, panics of holders of a metric reference, process scrapes) holds no more memory after many repetitions than after a few, and no more file descriptors. Every metric state that was created is alive as long as its series exists or its owner keeps it, and is dropped exactly once; when the vecs and encoders are dropped, all memory is given back.",
 ["histories"], "every piece of work of up to three operations over four kinds of metric vec and three metric types, and larger ones with 5-1000 series, each repeated until what is held stops growing",
 "Tests run every operation a few times and do not look at what stays behind.",
 ["core/src/metric.rs","core/src/metric/sparse.rs","core/src/text.rs","prometheus-proto/src/lib.rs","process/src/lib.rs"],
 [("entry moved out of the table on removal","core/src/metric/sparse.rs ShardedMap::remove_metric"),("buffers emptied and reused","core/src/text.rs BufferedTextEncoder::finish, prometheus-proto/src/lib.rs ProtoEncoder::flush_buf")],
 [("dense cells / shards","live series","core/src/metric.rs, core/src/metric/sparse.rs"),("buf","bytes being encoded","core/src/text.rs, prometheus-proto/src/lib.rs")],
 ["global allocator","drops of metric states","/proc/self/fd"])

prop("C29", "Misuse does not compile",
 "A program is rejected by the compiler if it gives an invalid label or metric name in a constant or a derive attribute, derives a trait for an item it cannot represent, or writes derive arguments that are unknown, misspelt, malformed, given twice, missing or contradictory, on the item or on any field or variant, or that give two fields of one group the same name. So is a program that gets exclusive access through a shared metric or beside a live reference to it, lets a reference, timer, guard, name or label value outlive what it borrows, shares or sends metrics, metadata or encoders whose contents must not be, mixes metrics with labels, identifiers, buckets or metadata of another type, or makes or changes states, names, thresholds and identifiers behind their checks. The right counterpart of each such program compiles, and where a derive may either refuse or take an input, taking it means what the language says it means.",
 ["programs"], "some thousand (thorough: over fifty thousand) programs that are each wrong in one way, next to their right counterparts",
 "Tests are programs that compile; what must not compile cannot be written in them, and whether a validation happens at all is not seen by programs that pass it.",
 ["derive/src/value/attr.rs","derive/src/value/parse.rs","derive/src/label_group/attr.rs","derive/src/metric_group/attr.rs","core/src/label/name.rs","core/src/metric/name.rs","core/src/metric.rs"],
 [("attribute parsers","derive/src/*/attr.rs parse_attrs"),("const assertion of names","core/src/label/name.rs assert_label_name, core/src/metric/name.rs const_assert_metric_name"),("guards and references that borrow the vec","core/src/metric.rs MetricLockGuard, MetricMut, LabelId")],
 [],
 ["the compiler's verdict on each program"])

prop("C30", "Instances do not affect each other",
 "What a counter, gauge, histogram, timer, metric vec, interner or encoder shows depends on the operations on it alone: not on what is done with others, of its own type or of another, that live beside it, lived where it lives now or change places with it, nor on which threads do it. This also holds if one is used from code of the user that the library calls while another is at work (a label group or value being visited, a label set, the hash or the comparison of identifiers, a writer): both come to an end, and each is as if the other were not there.",
 ["histories","schedules"], "every sequence of operations on two instances, each step on one of two threads, with instances replaced in place and exchanged, and every instance used from inside every call of user code of every vec",
 "Tests use one instance at a time on one thread; caches, scratch buffers and statics that are shared between instances show only when uses alternate, an address is used again, a thread changes or a call is nested.",
 ["core/src/metric.rs","core/src/metric/sparse.rs","core/src/metric/histogram.rs","core/src/label/impls.rs","core/src/label/value.rs","core/src/text.rs","prometheus-proto/src/lib.rs"],
 [("all state is in the instance","core/src/metric.rs MetricVec, core/src/text.rs TextEncoder, prometheus-proto/src/lib.rs ProtoEncoder"),("the only statics are properties of the machine","core/src/metric/sparse.rs default_shard_amount, process/src/lib.rs clk_tck")],
 [("dense cells / shards","live series","core/src/metric.rs, core/src/metric/sparse.rs"),("state, buf","what an encoder has written of a family","core/src/text.rs, prometheus-proto/src/lib.rs")],
 ["text exposition","protobuf exposition","MetricVec public API","termination"])

prop("C31", "Names in user code do not matter to the derives",
 "What the three derives generate compiles and does the same whatever legal names the user gives to fields, variants, items, lifetimes and parameters (keywords written raw and names that differ only in case or underscores included), whatever the exported names are as long as no two are equal, and in every legal shape of the item. It does so wherever the item stands: beside the user's own types, aliases, traits, constants, functions, modules and macros of any conventional name, those of the prelude included, and beside methods of any name on the user's types; without a prelude, inside functions, with the crate known under another path, and when a macro_rules macro writes the item or any part of it. Reserved for the derives are names with two leading underscores for types and constants; lower-case constants and types that hide primitive types are not meant.",
 ["programs"], "some 3 500 (thorough: about 9 000 in each of three editions) programs that differ in names and surroundings and are compiled and run",
 "Tests use a few names in one place; the derived code meets every name its users think of, and a clash shows only in the program that has it.",
 ["derive/src/lib.rs","derive/src/label_group/to_tokens.rs","derive/src/label_group/parse.rs","derive/src/metric_group/to_tokens.rs","derive/src/metric_group/parse.rs","derive/src/value/to_tokens.rs","derive/src/value/parse.rs"],
 [("paths that start at a crate","derive/src/*/to_tokens.rs"),("spans of the derived code","derive/src/lib.rs derive_span"),("names of their own for variables","derive/src/label_group/to_tokens.rs SetDecode")],
 [],
 ["the compiler's verdict","label visits","identifiers","text exposition"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
