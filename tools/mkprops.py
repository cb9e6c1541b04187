#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (kept as python so that long texts stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files, "state": [{"name": a, "meaning": b, "where": c} for a, b, c in (state or [])],
                  "mechanism": [{"name": a, "where": b} for a, b in mech],
                  "observe_at": observe or [], "hook_needed": None}})

SCH = ["schedules", "histories"]
prop("Q01", "Queue is a linearizable bounded FIFO",
 "Under any interleaving of enqueue, try_enqueue, dequeue, try_dequeue, size, maxsize and setmaxsize calls from any number of threads, the results are those of one FIFO sequence: every element accepted is handed out exactly once and in acceptance order, and size/maxsize report that sequence's length and limit. A bounded queue never accepts an element while it holds maxsize or more (try_enqueue returns false, enqueue blocks), lowering the limit discards nothing, and a limit of zero means unlimited.",
 SCH, "all histories of queue calls by any number of threads and all interleavings of their steps",
 "The queue test runs a handful of single-schedule producer/consumer cases; loss, duplication, reordering or overfilling shows only under particular interleavings and limit changes.",
 ["src/c/queue.c", "include/iot/queue.h"],
 [("every operation is one critical section on q->mtx", "src/c/queue.c"), ("head_push / tail_pop on an IOT_DATA_LIST", "src/c/queue.c")],
 [("queue", "elements in order", "struct iot_queue_t"), ("maxsize", "limit, 0 = none", "struct iot_queue_t")], ["call/return of every public function"])
prop("Q02", "Queue never loses a wakeup; stop releases every waiter",
 "A thread blocked in dequeue (or enqueue on a full queue) is released whenever an element (or room) becomes available that no other waiter takes, including room created by raising or removing the limit; no schedule leaves a caller blocked for ever while it could proceed. After stop, no dequeue or enqueue blocks: dequeue still drains what is queued and then returns NULL, enqueue on a full queue returns without adding; freeing the queue frees each element still in it exactly once.",
 SCH, "all interleavings, all sets of blocked producers/consumers, spurious wakeups, stop at any moment",
 "A lost signal needs a waiter to arrive between a test and a wait, or several waiters at once; a test passes or hangs by luck of the OS schedule.",
 ["src/c/queue.c"], [("added / removed condition variables signalled under q->mtx, while-loop re-check", "src/c/queue.c")],
 [("running", "cleared by stop", "struct iot_queue_t")], ["threads still blocked at quiescence"])
prop("T01", "Thread pool runs each accepted job exactly once, in priority order",
 "Every job accepted by add_work, or by try_work returning true, is executed at most once with its own function and argument, and exactly once if the pool keeps running until wait returns; a job refused by try_work is never executed. Jobs leave the queue highest priority first, jobs without priority last, and in submission order among equals. A job with a priority runs on a thread that has this priority, unless the system refuses to give it.",
 SCH, "all interleavings of submitters, workers, stop/start and all priority assignments",
 "Tests count executions under one natural schedule with one or two priorities; double execution, loss or mis-ordering depends on interleaving and on job-cell reuse.",
 ["src/c/threadpool.c", "include/iot/threadpool.h"],
 [("jobs list front/rear/cache updated under the component mutex", "src/c/threadpool.c"), ("priority insertion", "iot_threadpool_add_work_locked")],
 [("front/rear/cache", "queued and recycled job cells", "struct iot_threadpool_t")], ["submission returns, job function entry/exit"])
prop("T02", "Thread pool respects its bounds and never strands a submitter or waiter",
 "At most max_jobs accepted jobs are ever waiting to run (0 = unlimited) and at most num_threads run at once; try_work returns false exactly when the queue is full and never blocks, add_work blocks exactly while it is full. wait returns only when no accepted job is queued or running, and every concurrent caller of add_work or wait returns once that condition holds; an idle running worker never leaves a queued job unstarted.",
 SCH, "all interleavings of several submitters, several waiters and workers; all thread counts and limits",
 "Tests use one waiter and one submitter on the natural schedule; lost wakeups of the second waiter or submitter need particular interleavings.",
 ["src/c/threadpool.c"], [("job_cond, queue_cond, work_cond", "src/c/threadpool.c")],
 [("jobs/working", "queued and running counts", "struct iot_threadpool_t")], ["blocked calls at quiescence"])
prop("T03", "Stopping and freeing a thread pool is safe at any moment",
 "Before the pool is started, and from the moment stop has returned until the next start, no further job is taken from the queue, while queued jobs are kept and run after the next start. The last free (also when called from one of the pool's own jobs) discards queued jobs without running them, lets running jobs finish, returns only after every other worker has gone, and neither touches freed memory, frees twice nor leaks.",
 SCH, "all interleavings of stop/start/free with submitters and running jobs, reference counts, frees from inside a job",
 "Teardown races exist only in windows a timing-based test does not hit; jobs queued at free time are rarely present in tests.",
 ["src/c/threadpool.c", "src/c/component.c"], [("component state machine + created counter + pending_delete", "src/c/threadpool.c")],
 [("created", "live worker threads", "struct iot_threadpool_t")], ["job starts relative to stop/start/free returns; heap"])
prop("S01", "Schedules run no earlier than due and as soon as due",
 "While the scheduler is running an added schedule is triggered first at its creation time plus delay (or, if that is past, as soon as it is added), after a reset at the reset time plus period plus delay, and then once per period measured from the previous trigger; it is never triggered before that instant. No sequence or interleaving of add, reset, remove, stop and start lets the scheduler sleep past the earliest due schedule.",
 SCH, "all interleavings of API calls with the scheduler thread, all periods/delays, on a virtual clock",
 "Tests sleep for real time and accept wide margins; a missed wakeup is hidden because the next wakeup happens to follow, or needs a signal in a short window.",
 ["src/c/scheduler.c", "include/iot/scheduler.h"],
 [("timed wait until the first start time; signal when the front changes", "iot_scheduler_thread"), ("queue keyed by start time", "iot_schedule_queue_add")],
 [("queue", "active schedules by start time", "struct iot_scheduler_t"), ("schd_time", "next wake-up", "struct iot_scheduler_t")], ["virtual time of each trigger"])
prop("S02", "Repeat counts, add, remove and reset have their exact effect",
 "A schedule with repeat count N triggers exactly N times and then is idle (0 = unlimited); add returns true exactly when the schedule was not active and remove exactly when it was; after remove or delete has returned, or while the scheduler is stopped, no new trigger of it begins until it is added or the scheduler started again. Each trigger calls the run callback, then the function once with its argument, or, when the pool has no room, the abort callback instead of the function and counts one dropped event. Without concurrency an occasion that falls due while the previous execution is still in progress is skipped: it uses up one repetition without a run. A schedule with a priority executes in the pool, or in a thread of its own, with this priority unless the system refuses it. No two schedules of a scheduler have the same id. What becomes of an exhausted schedule that is added again without a reset is not part of this property.",
 SCH, "all histories of schedule operations, repeat counts, stop/start and pool saturation",
 "Tests cover a few fixed sequences with real sleeps; removing or deleting while a trigger is in progress, several schedules with equal start times and drop accounting are not explored.",
 ["src/c/scheduler.c"], [("queue/idle maps, repeat counter, valid_current re-check after callbacks", "iot_scheduler_thread")],
 [("repeat", "remaining repetitions", "struct iot_schedule_t"), ("scheduled", "active flag", "struct iot_schedule_t")], ["callback order"])
prop("S03", "A schedule never overlaps itself and its argument is freed once, last",
 "Unless concurrency was enabled, two executions of the same schedule never overlap, and enabling concurrency and synchronous execution exclude each other. The free function of a schedule is called exactly once after delete (or when the scheduler is freed), never while its function or callbacks run or before they will run, and freeing the scheduler ends its thread without touching freed memory.",
 SCH, "all interleavings of delete/free/remove with executing functions and callbacks",
 "Needs delete or free to land inside a running execution or between the trigger and its start on a pool thread.",
 ["src/c/scheduler.c"], [("refs counter on the schedule", "iot_schedule_add_ref / iot_schedule_free")],
 [("refs", "1 + executions in flight", "struct iot_schedule_t")], ["entry/exit of functions, free function calls, heap"])
prop("C01", "Component state machine and reference count are atomic",
 "A component starts in Initial; set_stopped, set_running and set_starting succeed from every state but Deleted, set_deleted from every state but Running, Deleted is final, and each returns true exactly when it changed the state. wait and wait_and_lock return only with a state in the requested set and every waiter whose set contains the current state eventually returns; dec_ref returns true exactly once, for the last reference, whatever the interleaving of add_ref and dec_ref.",
 SCH, "all interleavings of setters, waiters and reference counting, all state sets",
 "Tests exercise setters from one thread; waiter wakeup and reference races need interleavings.",
 ["src/c/component.c", "include/iot/component.h"], [("state under component mutex, broadcast on change", "iot_component_set_state"), ("atomic refs", "iot_component_dec_ref")],
 [("state", "current state", "struct iot_component_t"), ("refs", "reference count", "struct iot_component_t")], ["returns of setters and waits"])
prop("C02", "Container resolves, orders, starts, stops and frees components correctly",
 "For every configuration, each named component is created exactly once whatever the order and depth of references between components, a component is created after the components its configuration resolves, and a missing, unknown-type or cyclic reference resolves to NULL without failure. Start and stop call each component's callbacks and start/stop functions once in dependency order (stop in reverse of start), find, list and delete reflect exactly the present components, and freeing the container releases each component, stopped first if it is not, exactly once. Finding, listing, reading, deleting and starting may overlap with each other in any interleaving.",
 ["configurations", "histories"], "all dependency graphs (cycles, missing names, several factories) and histories of container operations",
 "Tests use one or two fixed configurations with two components; graph shape, repeated lookup and cyclic references are not enumerated.",
 ["src/c/container.c", "include/iot/container.h"], [("on-demand loading through iot_container_find_component", "src/c/container.c"), ("head/tail component list", "src/c/container.c")],
 [("head/tail", "components in creation order", "struct iot_container_t")], ["factory, start, stop, free callbacks; list/find results"])
prop("L01", "Logger filters by level, follows its chain and obeys start and stop",
 "A message logged to a chain of loggers reaches the sink of each logger of the chain exactly when the first logger's level admits its severity and so does that logger's own level; it arrives exactly once per sink, chain order kept, with the severity, the sender's own logger name and text intact and one common time stamp per call. A stopped logger emits nothing, a restarted one emits at the level it last had, and a level given while stopped takes effect at the start. File, UDP and console sinks write one whole record of at most 1023 bytes ending in a new line per message (console: to the stream for its severity; file: appended), so concurrent writers never mix, lose or duplicate records; a freed logger releases itself and then its successor, each exactly once. One logger is controlled by one thread at a time, chains are acyclic and are not changed while in use.",
 ["histories", "schedules", "inputs"], "all histories of level changes/start/stop/log over chains of loggers, concurrent writers, message lengths",
 "Tests check a few levels on one logger; sequences of start/stop/level changes and chains with different levels are not enumerated.",
 ["src/c/logger.c", "include/iot/logger.h"], [("level gate in the macros and in the chain walk", "src/c/logger.c")],
 [("level/save", "effective and saved level", "struct iot_logger_t")], ["custom log function, file contents"])
prop("D01", "Data values are owned exactly once: freed at the last reference, never before",
 "Every value stays valid, with its contents unchanged by others' releases, as long as one reference (a caller's or a container's) to it exists, and is released exactly once when the last goes: adding transfers the caller's reference to the container, replacing/removing/emptying/resizing/freeing releases what was held, pop and replace functions give the reference back, and COPY/TAKE/REF ownership copies, frees or leaves the user's buffer as documented. This holds for every sequence of operations on every type, with metadata and nested or shared containers, and for reference counts changed by several threads at once.",
 ["histories", "schedules"], "all operation sequences over all value types, sharing patterns and interleavings of add_ref/free",
 "Tests free what they build in one order; a leak, double free or early free shows only on particular combinations of sharing, replacement and failure paths.",
 ["src/c/data.c", "include/iot/data.h"], [("atomic refs", "iot_data_add_ref / iot_data_free"), ("release of members", "iot_data_free")],
 [("refs", "reference count", "struct iot_data_t")], ["pointer free callbacks, heap blocks, ref counts"])
prop("D02", "Lists behave as double-ended sequences",
 "Any sequence of pushes, pops, finds, removes, replacement, emptying and iteration on a list (typed or not, static or not) gives the results of a mathematical sequence: head and tail operations act on their ends, length is exact, iteration visits tail to head (prev: head to tail) exactly once and then ends and restarts, has_next predicts next, and iterator removal and replacement affect exactly the current element and leave the iteration on track.",
 ["histories"], "all operation sequences on lists, including iterator operations at the ends",
 "Tests use short fixed sequences; end-of-list and single-element cases of iterator removal combine in many ways.",
 ["src/c/data.c"], [("doubly linked head/tail list", "iot_data_list_*")], [("head/tail/length", "list ends", "struct iot_data_list_t")], ["results of every list call"])
prop("D03", "Vectors behave as resizable arrays of optional values",
 "Any sequence of add, get, resize, compact, element counting, conversion, dimensions and iteration on vectors (typed or not) gives the results of a mathematical array: size is exact, reading an element in range gives it (get_pointer out of range gives NULL; get requires an index in range), shrinking drops and growing adds NULL entries, compact removes exactly the NULLs keeping order, and iteration in both directions visits every index exactly once, with has_next predicting next.",
 ["histories"], "all operation sequences on vectors and iterators, all sizes and nestings",
 "Fixed small examples in tests; interaction of resize, compact, nested counting and iterator wrap-around is unbounded.",
 ["src/c/data.c"], [("values array with size", "iot_data_vector_*")], [("values/size", "elements", "struct iot_data_vector_t")], ["results of every vector call"])
prop("D04", "Maps are exact ordered dictionaries",
 "Any sequence of add, add_unused, merge, remove, get (all typed variants), empty and iterator operations gives the results of a mathematical map: each key has the last value stored, size is exact, typed getters return the value or the default exactly as documented, and iteration visits every entry exactly once in ascending key order (prev: descending), start and end returning the first and last, for every key type and every order of insertion and deletion.",
 ["histories"], "all insertion/deletion orders (all tree shapes), all key types and key values including mixed-type keys",
 "The red-black tree has many rebalancing cases; tests insert a few sequential keys and delete few of them.",
 ["src/c/data.c"], [("red-black tree keyed by iot_data_compare", "iot_node_*")], [("tree/size", "entries", "struct iot_data_map_t")], ["results of every map call"])
prop("D05", "Equality, ordering and hash agree with the values",
 "Two values are equal exactly when type and contents are the same (for arrays also the element type; equal_value: when numbers have the same mathematical value), NULL included; compare gives a total order (antisymmetric, transitive, zero exactly on equal values) that orders numbers of one type by value, strings lexically and binaries by length and then content, compare_value orders mixed numeric types by mathematical value, and equal values have equal hashes. This holds whatever operations produced the values, not only for freshly built ones. Excluded: not-a-number values, and changing a scalar in place while a container holds it.",
 ["inputs", "histories"], "all pairs and triples of values of all types, built by all operation sequences",
 "A law over pairs/triples of an infinite domain, and stale cached hashes depend on the history of mutations.",
 ["src/c/data.c"], [("cached hash with rehash flag", "iot_data_equal / iot_data_hash"), ("type-directed comparison", "iot_data_compare*")], [("hash/rehash", "cached content hash", "struct iot_data_t")], ["equal/compare/hash results"])
prop("D06", "Numeric casts and parses succeed exactly when the value fits",
 "cast and transform convert between integer, float and boolean types exactly when the value is representable in the target range, giving that value, and otherwise fail leaving the output alone; getters that cast agree with them. Reading a number of a given type from the text of a numeral gives the value the text denotes (for floats the nearest) when that fits the type, and otherwise NULL, never a different value.",
 ["inputs"], "all values (boundaries of every type) and all pairs of source and target types",
 "12x12 type pairs with boundary values on each: tests sample a few per pair.",
 ["src/c/data.c"], [("range tests", "iot_data_cast"), ("strtoll/strtoull/strtod", "iot_data_alloc_from_string")], [], ["return value and output"])
prop("D07", "Copies are equal to and independent of their source",
 "A deep copy equals its source, and no later change to either (at any depth, including contained maps, lists, vectors, arrays and strings) is visible in the other; a shallow copy is a new container of the same type holding the same elements by reference. Copying changes nothing observable in the source but the reference counts of shared elements.",
 ["histories", "inputs"], "all value structures and all later mutations of either side",
 "Tests compare a copy once and rarely mutate afterwards.",
 ["src/c/data.c"], [("recursive copy", "iot_data_copy / iot_data_shallow_copy")], [], ["dumps of both values before and after mutations"])
prop("D08", "Path operations return updated copies and leave the original intact",
 "get_at returns what following the keys and indexes leads to, or NULL when the path does not match; add_at, remove_at and update_at return a new structure that differs from the original exactly at the path, share every part off the path by reference, and leave the original and its contents observably unchanged. compress leaves every observable value equal while making equal members share one instance.",
 ["inputs", "histories"], "all nested structures and all paths (matching or not)",
 "Structure and path spaces are unbounded; tests use a few matching paths.",
 ["src/c/data.c"], [("copy along the path", "iot_data_*_at"), ("cache map", "iot_data_compress_with_cache")], [], ["dumps before/after"])
prop("D09", "Typecodes, element types and array conversions are exact",
 "Type, element type, key type, type name and size queries report the actual contents; a typecode matches a value exactly when core, element and key types agree; arrays and binaries keep length, size, element type and bytes through conversion to each other, to strings and back, taking the buffer, transformation and iteration. The two user tags of a value are independent of each other, false at first, and hold what was last set.",
 ["inputs", "histories"], "all element types, lengths and conversion sequences",
 "Type-pair and length combinations are not enumerated by tests.",
 ["src/c/data.c"], [("typecode tables", "src/c/data.c"), ("array storage", "iot_data_alloc_array")], [], ["query results and bytes"])
prop("J01", "JSON text survives a round trip",
 "For every value made of null, booleans, integers of any width, finite floats, strings (any UTF-8), vectors, lists, arrays, binaries and maps, serialising to JSON gives valid JSON text that says exactly that value (numbers that read back as the same number, binaries as base64, every map entry once), the same whatever the initial buffer size, and parsing it back gives an equal value when it is made of the types that JSON has (null, boolean, 64-bit integer, double, string, vector, string-keyed map). With ordering requested, parsing and writing keeps the entries in their original order, each key once. Not-a-number and infinity have no JSON form and are not judged.",
 ["inputs"], "all value trees, all string contents, all buffer sizes",
 "Escaping, number formatting and buffer growth depend on exact contents and sizes; tests use fixed documents.",
 ["src/c/data-json.c", "src/c/json.c"], [("string holder growth and escaping", "src/c/data-json.c"), ("jsmn tokeniser", "src/c/json.c")], [], ["output text, parsed value"])
prop("J02", "JSON parsing accepts every valid document and is safe on every input",
 "Every valid JSON document parses to the value it denotes (numbers as signed 64-bit integer when integral and in range, else unsigned, else the nearest double; all escapes and surrogate pairs; any whitespace; nesting; the last of equal keys counts), with or without ordering and with or without a string cache, and its tokens are the documented ones. Every input whatsoever, valid or not, is handled without touching memory out of bounds, aborting or leaking, and texts with unfinished objects, arrays or strings, mismatched brackets or invalid escapes give null. A \\u0000 escape and unpaired surrogates are not judged.",
 ["inputs"], "all byte strings (nesting bounded by the stack)",
 "Input space unbounded; tests parse a few documents.",
 ["src/c/data-json.c", "src/c/json.c"], [("token walk", "iot_data_value_from_json"), ("tokeniser", "iot_json_parse")], [], ["parsed value, tokens, crash"])
prop("E01", "CBOR, XML and YAML conversions preserve the document's content",
 "Encoding a value as CBOR yields the well-formed RFC 8949 bytes for that value whatever the initial buffer size; parsing a well-formed XML document yields its element tree (names, attributes, children in order, text) and parsing a YAML document yields its maps, sequences and typed scalars; malformed XML yields NULL, malformed YAML yields NULL with the exception text, and no input causes a crash or leak.",
 ["inputs"], "all values / all documents of the supported subset",
 "Length and number encodings switch at many boundaries; tests cover a few values per branch.",
 ["src/c/data-cbor.c", "src/c/data-xml.c", "src/c/data-yaml.c"], [("recursive encoders/parsers", "src/c/data-cbor.c, data-xml.c, data-yaml.c")], [], ["bytes / parsed tree"])
prop("B01", "Base64 decoding inverts encoding",
 "For every byte sequence the encoder gives its RFC 4648 text (with padding), of the announced size and terminated, and decoding that text gives the same bytes and length; text with a character outside the alphabet is refused, as is a result that does not fit the given buffer, and neither direction writes outside the given buffer.",
 ["inputs"], "all byte sequences and lengths, all malformed texts, all buffer sizes",
 "Tail handling depends on length mod 3 and on byte values; tests use a few strings.",
 ["src/c/base64.c", "include/iot/base64.h"], [("3-to-4 byte groups and lookup table", "src/c/base64.c")], [], ["text and bytes"])
prop("F01", "File writes are atomic and report failure",
 "Writing a file (iot_file_write, iot_file_write_binary, iot_store_write, iot_store_config_save) either returns true and leaves exactly the given bytes under the name, or returns false and leaves the previous contents of that name (or its absence) as they were. At no instant - whichever system call fails and wherever the program is killed - does a reader find the named file missing, truncated or mixed once it existed. No other file is changed (the name with .new appended is the temporary file the write uses), and a completed write leaves no temporary file behind.",
 ["crash_points", "fault_sequences", "histories"], "every failing or interrupting point of every write, every previous content, disk full after any number of bytes",
 "Tests never make a system call fail, fill the disk or interrupt a write.",
 ["src/c/file.c", "src/c/store.c", "include/iot/file.h", "include/iot/store.h"], [("write to temporary name then rename", "src/c/file.c")], [], ["directory contents after every system call"])
prop("F02", "Reading, deleting and listing files say what is there",
 "Reading gives exactly the stored bytes and their number, terminated (NULL when there is no such file or it cannot be read); deleting removes the named file and nothing else and reports whether it did; listing gives exactly the regular names of the directory that match the pattern; stored configurations (name and URI) are found again under the same name, listed by their names, and overridden store functions get every call. No operation leaks memory or file handles or follows with a crash, whatever fails.",
 ["inputs", "histories", "fault_sequences"], "every sequence of writes, reads, deletes, lists over any names, contents (binary included) and patterns",
 "Names, contents, patterns and operation orders are unbounded; tests use one or two files.",
 ["src/c/file.c", "src/c/store.c", "include/iot/file.h", "include/iot/store.h"], [("directory scan", "iot_file_list"), ("name to path", "iot_store_config_*")], [], ["results, directory contents"])
prop("G01", "Configuration substitution and lookup are exact",
 "iot_config_substitute_env replaces each ${NAME} by the value of that environment variable everywhere in the text, and only those, keeps every other character unchanged, never substitutes inside a value again, and returns NULL with one error logged when a name is empty or has no value. The typed configuration getters return the entry's value when it can be given in the type asked for (and the very string, map, vector or component for those), otherwise fail, leave the output alone and log one error to the logger given, or to the default logger when none is; strings asked for by allocation are the caller's own, and the default string replaces only missing or non-string entries.",
 ["inputs", "configurations"], "all texts, all environments, reference positions, nested, adjacent and unfinished references; all entry types and values (variable names up to 63 bytes)",
 "Tests substitute one or two references in a fixed text and read values of the fitting type.",
 ["src/c/config.c", "include/iot/config.h"], [("scan and replace", "iot_config_substitute_env"), ("lookup and cast", "iot_config_cast")], [], ["resulting text, value, log"])
prop("M01", "Time stamps are unique and increasing, waits are never short",
 "iot_time_nsecs never returns the same value twice and each call returns more than every call that completed before it began, in any thread order and even when the clock stands still or steps back, and it equals the clock when the clock is ahead of all earlier results. Second, milli- and microsecond readings are the clock rounded down, and the wait functions return only after the requested time has passed, also when the sleep is interrupted by signals.",
 ["schedules", "histories"], "all clock behaviours (stalls, backward steps, interrupted sleeps) and all interleavings of callers",
 "The clock never stalls or steps back in a test run; the compare-and-swap race needs an interleaving.",
 ["src/c/time.c", "include/iot/time.h"], [("compare-and-swap on the last value", "iot_time_nsecs"), ("EINTR loop", "iot_wait")], [("lasttime", "last value returned", "iot_time_nsecs")], ["returned values, virtual clock"])
prop("U01", "UUIDs are well formed and unique; hash and UUID checks are exact",
 "Every generated UUID (binary or string) is distinct, also when generated by several threads at once, has version 4 and the RFC 4122 variant, and its text is the 36-character lower-case form of its 16 bytes; the UUID text check accepts exactly 36-character strings of hex digits with dashes at positions 8, 13, 18 and 23. The string and data hashes are the documented djb2 (xor) function of the bytes, agreeing with each other on the same bytes.",
 ["schedules", "inputs"], "all interleavings of generators, all random seeds, all strings",
 "Uniqueness under races and exactness of a predicate over all strings cannot be sampled by the few fixed cases in tests.",
 ["src/c/uuid.c", "src/c/util.c", "src/c/hash.c"], [("generator state under a mutex", "iot_uuid_generate"), ("character scan", "iot_util_string_is_uuid"), ("shift-add-xor loop", "src/c/hash.c")], [("uuid_seed", "generator state", "src/c/uuid.c")], ["ids, predicate and hash results"])
prop("H01", "Threads and mutexes are what was asked for",
 "iot_thread_create returns true exactly when the system has made a thread: exactly one, which runs the given function with the given argument once, is never left joinable (whatever route it was made by), and whose id is stored if asked for. When the system allows it the thread has the real-time priority asked for (if that is a valid priority and the caller is privileged; an ordinary policy otherwise, never one inherited from the caller) and the affinity asked for (if such a processor exists); when the system refuses these, a thread with default attributes is made instead; false, and one error logged, only when the system refuses even that. A priority is valid exactly when it lies within the system's FIFO limits, also when several threads ask at once. A priority that was set is the one read back. A mutex made by iot_mutex_init excludes, inherits priorities, and in a debug build refuses its owner a second lock, and others the unlock.",
 ["faults", "inputs", "schedules"], "all priorities, affinities, system limits and refusals; all interleavings of validity queries",
 "Refusals by the system, unprivileged callers and races of first queries do not occur in test runs.",
 ["src/c/thread.c"], [("thread made, retried with defaults", "iot_thread_create"), ("range test", "iot_thread_priority_valid"), ("mutex attributes", "iot_mutex_init")], [], ["threads the system was asked for, results, logged errors"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
