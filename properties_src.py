TECH = "deterministic simulation with fault injection: seeded search over schedules and faults, minimised replayable tapes"
HOOKS = dict(guard="none", enable="no hook in /repo: the checks use the seams the code has (traits, libc symbols, patched dependencies)", source_commits=[])
NOTES = "properties.jsonl and this file are generated by registry.py from properties_src.py; see DESIGN.md."

prop("L01", "Rolling log files never lose, duplicate or reorder acknowledged bytes",
 "Every byte whose write to the rolling log was acknowledged is on disk exactly once, in writing order, when the live file and its rotated files are put together, whatever rotations, clock adjustments, disk errors, short writes, process crashes and restarts happen in between. No rotated file is ever overwritten, no existing log is truncated when it is reopened, and while the clock does not move backwards the rotated files sort by their suffix in the order they were written.",
 ["crash_points", "fault_sequences", "histories", "configurations"],
 "every rotation strategy and size limit, every history of writes, clock movements, crashes between or inside operations, restarts, and errors of any system call",
 "the unit tests write three lines with hand-set start times on a healthy disk: no two rotations ever share a millisecond, no call ever fails, nothing crashes",
 ["crates/rolling-logger/src/lib.rs", "crates/rolling-logger/src/log_file.rs", "crates/rolling-logger/src/strategy.rs"],
 [("rotation: flush, rename to a suffixed name, reopen", "crates/rolling-logger/src/lib.rs flush_and_rotate"), ("open in append mode", "crates/rolling-logger/src/log_file.rs new")],
 check="base-sim", observe=["the files in the log's directory", "results of write and flush"],
 level_note="Seeded search over histories of one log with faults at every system call; exact byte-stream oracle. Assumes process crashes, not power loss, and one writer per path.")

prop("L02", "Log rotation happens exactly when the configured policy says",
 "A write that starts when the live log has reached its size limit, or when the configured period has fully elapsed since the log was started or last rotated, goes into a fresh file, and the previous content becomes exactly one rotated file. No other write rotates: failed or partial writes, restarts and clock adjustments never cause an early rotation, and the size that counts includes what an earlier process left in the file.",
 ["histories", "configurations", "fault_sequences"],
 "every strategy, limit, line size and sequence of clock readings around the boundaries, with restarts, clock jumps and write errors",
 "the unit tests check one boundary per period with a hand-set start, and one size limit; none has a pre-existing file, a failed write or a moved clock",
 ["crates/rolling-logger/src/log_file.rs", "crates/rolling-logger/src/strategy.rs", "crates/rolling-logger/src/lib.rs"],
 [("needs_rotation", "crates/rolling-logger/src/log_file.rs"), ("start of the period", "crates/rolling-logger/src/strategy.rs")],
 check="base-sim", observe=["number, names and sizes of files before and after each write"],
 level_note="Seeded search with a policy model evaluated before every write; virtual wall clock. Period arithmetic is in whole seconds.")

prop("L03", "Logging recovers as soon as disk faults stop",
 "Whatever combination of failing opens, renames, writes and status calls the log went through, the first write after the faults stop is accepted in full and stored, and nothing acknowledged before is lost.",
 ["fault_sequences", "histories"],
 "every sequence of system-call errors at any point of writing and rotating, followed by a healthy disk",
 "no existing test makes a system call fail",
 ["crates/rolling-logger/src/lib.rs", "crates/rolling-logger/src/log_file.rs"],
 [("rotation tolerates a half-done rotation", "crates/rolling-logger/src/lib.rs flush_and_rotate")],
 check="base-sim", observe=["result of each write", "files on disk"],
 level_note="Liveness as progress within one write once faults stop, over seeded fault sequences.")

prop("E01", "The event queue delivers exactly the admitted events, once and in order",
 "With any number of threads pushing and popping, every event of a type the filter admits is delivered exactly once with exactly the values it was given, an event pushed after another push returned never comes out before it on one consumer, and a pop never reports an empty queue while a completed push is waiting. Events of other types, and all events without a filter, are dropped without evaluating the extension event's constructor; a failing constructor returns its error and queues nothing.",
 ["schedules", "configurations", "histories"],
 "every interleaving of producers and consumers at operation boundaries, every filter, every sequence of builder calls",
 "the crate has no tests at all, and a sampled multi-threaded test would not control the interleaving",
 ["crates/event-queue/src/lib.rs", "crates/event-queue/src/filter.rs", "crates/event-queue/src/events.rs", "crates/event-queue/src/events/builder.rs"],
 [("filter test before push", "crates/event-queue/src/lib.rs must_keep_event"), ("lock-free queue", "crates/event-queue/src/lib.rs")],
 check="obs-sim", observe=["push results", "popped events"],
 level_note="Seeded thread schedules at queue operations, clock reads and event boundaries, checked against a history model (conservation, FIFO, emptiness). crossbeam's internals are trusted.")

prop("E02", "Recorded event durations are elapsed monotonic time",
 "Every duration in an event (operation, preparation, subgraph request, connection, response) equals the monotonic time between the two moments it names, whatever happens to the wall clock and however the threads interleave, and a duration that was never measured is zero.",
 ["histories", "schedules"],
 "every order of builder calls with any amount of time between them and any wall-clock adjustment",
 "the crate has no tests, and real clocks give no exact expectation",
 ["crates/event-queue/src/events.rs", "crates/event-queue/src/events/builder.rs"],
 [("start instants taken when a builder is created", "crates/event-queue/src/events.rs"), ("elapsed times", "crates/event-queue/src/events/builder.rs")],
 check="obs-sim", observe=["durations of popped events"],
 level_note="Virtual monotonic clock read around every call gives exact bounds per duration.")

prop("T01", "Each exported log record belongs to its span and loses nothing but its tail",
 "Every log event is exported exactly once, with the trace and span id of the span it was emitted in (or none outside spans, and in the caller's trace when one was continued), its level, and its fields, however tasks and threads interleave across await points. Texts longer than their limit are cut to a prefix with a truncation mark, never inside a character, and no text or number makes logging fail.",
 ["schedules", "inputs"],
 "every interleaving of instrumented tasks and threads with nested spans and continued remote traces, every text length and alphabet around the limits",
 "the log bridge has no tests, and trace attribution depends on which task was polled between an event's span being entered and left",
 ["crates/telemetry/src/otel/logs/bridge.rs"],
 [("trace context of the event's span", "crates/telemetry/src/otel/logs/bridge.rs extract_trace_context"), ("size limits", "crates/telemetry/src/otel/logs/bridge.rs")],
 check="obs-sim", observe=["log records and spans handed to the exporters"],
 level_note="Real tracing and OpenTelemetry stack, seeded executor and threads, captured records compared with exported spans.")

prop("T02", "Metrics add up to what the gateway reported",
 "After any set of concurrent requests, every metric data point equals the sum and count of the values reported for exactly those attributes: no report is lost, counted twice or filed under other attributes, subscriptions are not counted as queries or mutations, and gauges of connected clients and in-flight subgraph requests return to zero once all have ended.",
 ["histories", "schedules"],
 "every interleaving of requests on several threads and every combination of optional attributes",
 "there are no tests of the metrics; dashboards silently show wrong numbers",
 ["crates/telemetry/src/metrics/engine.rs", "crates/telemetry/src/metrics/request.rs", "crates/telemetry/src/metrics/mod.rs"],
 [("instruments and attributes", "crates/telemetry/src/metrics/engine.rs"), ("HTTP instruments", "crates/telemetry/src/metrics/request.rs")],
 check="obs-sim", observe=["data points collected by a metric reader"],
 level_note="Real OpenTelemetry metrics pipeline with a manual reader, compared with an independently kept ledger.")

prop("T03", "Exported spans tell each request's story, and no other",
 "With a trace exporter configured, every sampled request is exported as exactly one tree of spans (HTTP request, GraphQL operations, subgraph requests, their HTTP attempts, resolver calls, cache lookups), in its caller's trace if one was given, each span under the one it happened in and exported once, carrying exactly what was recorded for it: method, path, addresses, sizes, client, operation name, type, document and complexity, response status, error counts, retries, failures, log lines, and the status Error or Ok that goes with the outcome. Nothing of one request shows up in another, however requests interleave and wherever they are cancelled. The trace headers sent to a subgraph name the attempt's own span. Sampling and the limits on attributes, events and links are those configured, requests that are not sampled export nothing, and the resource has the configured service name and attributes.",
 ["schedules", "histories", "configurations", "fault_sequences"],
 "every interleaving of requests, operations, subgraph requests and late streams on several threads, every outcome and cancellation, every sampling and limit setting",
 "the span code has no tests, and wrong parents or statuses only show when several requests are in flight",
 ["crates/telemetry/src/span", "crates/telemetry/src/otel/traces.rs", "crates/telemetry/src/otel/layer.rs", "crates/telemetry/src/http.rs", "crates/telemetry/src/grafbase_client.rs", "crates/telemetry/src/graphql.rs", "crates/gateway-config/src/telemetry"],
 [("span builders and recorders", "crates/telemetry/src/span"), ("provider, sampler and limits", "crates/telemetry/src/otel/traces.rs"), ("trace propagation", "crates/telemetry/src/http.rs"), ("which exporters are on", "crates/gateway-config/src/telemetry/mod.rs")],
 check="obs-sim", observe=["spans written by the stdout exporter", "trace headers of subgraph requests"],
 level_note="Real tracing and OpenTelemetry pipeline with the stdout exporter; simulated requests make the calls of the engine and keep a ledger.")

prop("T04", "Telemetry reaches exactly the collectors the configuration names",
 "Spans, measurements and log records go to exactly the exporters that the telemetry configuration enables: per signal its own OTLP section, setting by setting overriding the global one (enabled, endpoint, protocol, headers, timeout, batch_export), the Grafbase collector for spans and measurements, and standard output; at the configured address (a global endpoint without a path gets /v1/traces, /v1/metrics or /v1/logs, none at all means the local default), with the configured headers and timeout and the resource of the service. Each item is sent to each of them once, in batches no larger than configured and within the configured delay, and counted exactly once in the exported measurements; it is dropped only when the configured queue is full. A collector that refuses, fails, hangs or is slow costs no other collector anything, holds up no request, and what is queued at shutdown still goes out.",
 ["schedules", "fault_sequences", "configurations", "histories"],
 "every layering of exporter settings, every interleaving of request threads with the exporters' own threads, every behaviour of every collector over time",
 "the tests parse configurations but never build an exporter from one, and no test has a collector",
 ["crates/telemetry/src/otel", "crates/gateway-config/src/telemetry"],
 [("exporters, batching and resource", "crates/telemetry/src/otel"), ("layered settings", "crates/gateway-config/src/telemetry/exporters/otlp.rs"), ("which exporters are on", "crates/gateway-config/src/telemetry/mod.rs")],
 check="obs-sim", observe=["requests received by the collectors, with times", "standard output", "time spent emitting"],
 level_note="Real exporters over HTTP with their threads under the simulated scheduler; the HTTP client's network is simulated. OTLP over gRPC is not exercised.")

prop("Q01", "A federated answer equals the answer of one server owning the whole graph",
 "For any set of subgraphs that composes and any valid operation, the gateway's response contains exactly the data, with the same keys in the same order, nulls and list lengths, that a single server holding the whole supergraph and all the data would return, with errors exactly when that server reports some, whatever the subgraphs' latencies, the order of their replies and the state of the operation cache. Every request sent to a subgraph is valid for that subgraph's schema and asks for entities by one of their keys, and every mutation field is executed once, in the order of the operation.",
 ["inputs", "schedules", "configurations", "histories"],
 "every composition of subgraphs and every operation, every interleaving of subgraph replies, operations answered from a warm, cold, serialised or lossy operation cache",
 "the integration tests fix a few dozen schemas and operations, all subgraphs answer at once, and each expectation is a hand-checked snapshot",
 ["crates/graphql-composition", "crates/engine/schema", "crates/engine/query-solver", "crates/engine/src/prepare", "crates/engine/src/execution", "crates/engine/src/response", "crates/engine/src/resolver/graphql"],
 [("composition into one federated graph", "crates/graphql-composition/src/compose.rs"), ("choice of subgraphs", "crates/engine/query-solver"), ("plans started when their inputs are there", "crates/engine/src/execution/operation/coordinator.rs"), ("merging of subgraph answers", "crates/engine/src/response/write")],
 check="engine-sim", observe=["HTTP response bodies", "requests received by the subgraphs"],
 level_note="Differential check against an independent reference executor over seeded graphs, operations, reply orders and caches. Some operation shapes that hit known planner defects are kept out of the random workload and checked as fixed cases instead.")
prop("Q02", "Failing subgraphs cost only their own fields, and never correctness",
 "Whatever a subgraph does wrong (refused or broken connections, timeouts, HTTP errors, truncated, malformed or mistyped bodies, missing entities), the gateway answers with well-formed GraphQL data that differs from the faultless answer only by nulls in nullable places: never by another value, a missing or additional field, or a list of another length. Whenever something is lost the response has an error (unless the subgraph itself gave null or nothing), root fields that only healthy subgraphs take part in are unaffected, `data` is null only if a failed root field is non-null, and an answer during which no subgraph failed is complete.",
 ["inputs", "schedules", "fault_sequences", "configurations"],
 "every composition of subgraphs and every query, every assignment of failures to subgraph requests, every interleaving of subgraph replies",
 "the integration tests have a handful of failing subgraphs, each with one field and one kind of failure; what happens to plans that depend on, or share objects with, a failed one is not tested",
 ["crates/engine/src/execution", "crates/engine/src/response", "crates/engine/src/resolver/graphql", "crates/engine/src/prepare/cached"],
 [("plans after a failed plan", "crates/engine/src/execution/operation/coordinator.rs"), ("defaults of failed plans", "crates/engine/src/prepare/cached/shape/root.rs"), ("errors while parsing", "crates/engine/src/response/write/deserialize"), ("null propagation", "crates/engine/src/response/data.rs")],
 check="engine-sim", observe=["HTTP response bodies", "requests received by the subgraphs", "faults injected"],
 level_note="Differential check against an independent reference executor, over seeded graphs, operations, faults and reply orders.")

prop("Q03", "Mutations run in order, one at a time, and never twice uncalled for",
 "The root fields of a mutation are sent to their subgraphs in the order of the operation, each once, and the request for one is not sent before the request for the previous one has ended (answered, failed or timed out). A mutation request is sent again only if retrying of mutations is enabled for its subgraph (by the subgraph's retry settings if it has any, else by the gateway's) and only after an attempt that failed to connect, timed out, or was answered with 429 or 5xx. If the answer has data, all fields were sent. A mutation is never run for a GET request, whether its plan is cached or not (405), and a query never sends one.",
 ["inputs", "schedules", "fault_sequences", "configurations"],
 "every mutation over every composition, every assignment of failures and delays, every retry configuration, any number of concurrent clients",
 "the tests have single mutations of one or two fields on healthy subgraphs; retries of mutations and failures between fields are not tested",
 ["crates/engine/query-solver/src/post_process", "crates/engine/src/execution", "crates/engine/src/engine/retry_budget.rs"],
 [("order of partitions", "crates/engine/query-solver/src/post_process/mutation_order.rs"), ("order of plans", "crates/engine/src/prepare/operation_plan/builder.rs"), ("retry settings", "crates/engine/schema/src/builder/subgraphs.rs"), ("safe methods", "crates/engine/src/prepare/with_cache.rs")],
 check="engine-sim", observe=["requests received by the subgraphs, with times and outcomes", "HTTP status and bodies"],
 level_note="Invariants over the recorded request history, against the reference executor's log of mutation fields.")

prop("Q04", "Retries and deadlines follow the configuration",
 "A subgraph request is sent again only if retries are enabled for its subgraph (by its own settings if it has any, else by the gateway's), with the same body, after an attempt that failed to connect, timed out, or was answered with 429 or 5xx, at most 200*2^n ms after the n-th failure, and never beyond the retry budget (min_per_second over the ttl plus retry_percent of the successes); while the budget is not used up every such failure is retried, so that an operation whose requests all succeed in the end has the faultless answer. Every request carries its subgraph's timeout. An operation is answered within the gateway's timeout, with GATEWAY_TIMEOUT exactly then, and nothing is sent or left in flight for it afterwards. Once faults stop, answers are faultless again.",
 ["inputs", "schedules", "fault_sequences", "configurations"],
 "every query, every sequence of failures and delays, every retry and timeout configuration, any number of concurrent clients",
 "no test retries under concurrency, exhausts a budget, or lets time pass between failures",
 ["crates/engine/src/resolver/graphql/request/execute.rs", "crates/engine/src/engine", "crates/engine/schema/src/builder/subgraphs.rs"],
 [("retry loop", "crates/engine/src/resolver/graphql/request/execute.rs"), ("budgets", "crates/engine/src/engine/retry_budget.rs"), ("gateway timeout", "crates/engine/src/engine/runtime.rs"), ("settings of a subgraph", "crates/engine/schema/src/builder/subgraphs.rs")],
 check="engine-sim", observe=["requests received by the subgraphs, with times, timeouts and outcomes", "HTTP bodies and the time they took"],
 level_note="Invariants over the recorded request history on virtual time, with the reference executor for the answers.")

prop("Q05", "Operation events and engine metrics report what happened",
 "Every operation that is answered puts exactly one operation event in its own event queue, with its name, type and the status and error count of its answer, and one event for every subgraph request with the outcome of each attempt, in no queue but its own and in none that filters them out. The engine's metrics equal the totals of what happened: operations per name and status, operation cache hits and misses, subgraph requests and retries, and no subgraph request stays counted as in flight once it was answered, failed, or was cancelled by the gateway's timeout.",
 ["schedules", "histories", "fault_sequences", "configurations"],
 "every mix of concurrent operations, failures, retries and timeouts",
 "the metric and hook tests run one operation at a time on healthy subgraphs",
 ["crates/engine/src/resolver/graphql", "crates/engine/src/execution", "crates/event-queue", "crates/telemetry/src/metrics"],
 [("in-flight requests and subgraph events", "crates/engine/src/resolver/graphql/context.rs"), ("operation events", "crates/engine/src/execution/operation/coordinator.rs"), ("operation metrics", "crates/engine/src/execution/request/single.rs"), ("event filters", "crates/event-queue/src/lib.rs")],
 check="engine-sim", observe=["events popped from each request's queue", "metric totals", "requests received by the subgraphs"],
 level_note="Accounts kept by the harness from the simulated network and the answers, compared with events and metrics.")

prop("Q06", "What may be executed depends on policy and request, never on who asked before",
 "A request is executed exactly when the policy allows it, and answered as Q01 says; otherwise it is refused with the code of the rule it broke, its mutations are not run and no subgraph hears of it. The policy: document size; limits on depth, height, aliases, root fields, complexity and cost; introspection; mutations over GET; batching and its limit; trusted documents in every enforcement mode, with their per-client ids and the bypass header; automatic persisted queries, whose hash must be that of a query sent along. Whatever was executed, cached, refused or lost from the operation cache before, for this client or another, concurrently or in the same batch, the verdict on a request is the same, except that a bare hash is known once its query was accepted; each member of a batch is judged on its own, and a failing trusted document store refuses, but never lets through.",
 ["histories", "schedules", "configurations", "inputs"],
 "every configuration of limits and trusted documents, every history of requests of several clients, alone, concurrent and in batches, over GET and POST, with a warm, cold or lossy operation cache and a failing document store",
 "the limit and trusted document tests send one request to a fresh gateway with one setting each; none asks again once the cache has an entry, mixes clients, or combines rules",
 ["crates/engine/src/prepare", "crates/engine/src/engine/cache.rs", "crates/engine/operation/src/request"],
 [("choice of the document and its key", "crates/engine/src/prepare/trusted_documents.rs"), ("cache keys", "crates/engine/src/engine/cache.rs"), ("limits", "crates/engine/operation/src/validation"), ("cost", "crates/engine/src/prepare"), ("requests and batches", "crates/engine/operation/src/request/mod.rs")],
 check="engine-sim", observe=["responses and their status", "requests received by the subgraphs"],
 level_note="Seeded search over histories against a model of the policy; operations whose height or cost the model cannot tell exactly only have to be judged alike every time.")

prop("Q07", "The entity cache never changes an answer, and never outlives its permission",
 "With entity caching on, whatever was cached before, clients receive what the subgraphs would answer: an entry is used only for the same subgraph, the same forwarded headers, and the same query, variables and entity; mutations are always executed and never cached; nothing is stored from answers that failed, have errors, or forbid it (private, no-store, not fresh), or from a subgraph with caching off; an entry's time to live is the answer's max-age less its age, or else the one configured for the subgraph, or else the global one. A cache that fails, is slow, or loses entries costs requests but no answers; an operation whose parts are all cached and fresh sends no request.",
 ["histories", "schedules", "fault_sequences", "configurations"],
 "every history of queries and mutations by clients with different headers, cache and subgraph failures, and passage of time",
 "the caching tests repeat a handful of fixed queries on one mock schema without faults",
 ["crates/engine/src/resolver/graphql", "crates/engine/schema/src/builder/subgraphs.rs", "crates/gateway-config/src/entity_caching.rs"],
 [("cache keys and times to live", "crates/engine/src/resolver/graphql/cache.rs"), ("partial hits", "crates/engine/src/resolver/graphql/federation/with_cache.rs"), ("root fields", "crates/engine/src/resolver/graphql/root_fields.rs"), ("per-subgraph settings", "crates/engine/schema/src/builder/subgraphs.rs")],
 check="engine-sim", observe=["responses", "requests received by the subgraphs", "entries written to the cache and their times to live"],
 level_note="Seeded search over histories; answers against a reference executor, cache writes against what the subgraphs' answers allowed.")

prop("C01", "Registries given the same subgraphs hold the same graph, also after a restart",
 "Whatever the order in which subgraph publications arrive, are lost, duplicated or retracted, two schema registries that hold the same subgraph versions agree: both compose them, into the same federated SDL and the same API schema byte for byte, or both refuse them with the same diagnostics. Storing a composed graph and reading it back loses and changes nothing: the SDL that is rendered from what was read is the SDL that was stored. No set of subgraph documents makes composition panic.",
 ["schedules", "inputs", "histories"],
 "every set of subgraph documents, complete or half-published, every hash seed, every order of publication",
 "the composition tests compose fixed directories of subgraphs once, in one process, and compare with a snapshot; hash order never varies and mixtures of releases are never met",
 ["crates/graphql-composition/src"],
 [("composition", "crates/graphql-composition/src/compose"), ("rendering and reading back", "crates/graphql-composition/src/federated_graph"), ("ingestion", "crates/graphql-composition/src/ingest_subgraph.rs")],
 check="graph-sim", observe=["federated SDL", "API SDL", "diagnostics"],
 level_note="Simulated registry replicas behind a lossy network, each composition in a process with hash seeds of its own; byte comparison.")

prop("C02", "The composed graph says exactly what its subgraphs say",
 "A release whose subgraphs agree is composed, and one that contradicts itself is rejected. The composed graph states all of, and nothing but, what follows from the subgraphs: types, fields with the most general output type, arguments and input fields that all subgraphs know with the strictest input type, enum values by how the enum is used, defaults, descriptions, members and implementations; for every subgraph its keys, and which fields it resolves, requires, provides, has as external or took over from another; every access rule (@authenticated, @requiresScopes, @policy), @inaccessible, @deprecated, @tag, cost and composed directive, and every directive of a linked extension. The API schema shows everything of it that isn't inaccessible, and nothing else.",
 ["inputs", "configurations"],
 "every consistent set of federation 1 and 2 subgraphs in every way of writing them down (aliases, imports, extensions, root names), and every contradiction put into one",
 "the composition tests are some two hundred hand-written directories, each about one rule at a time",
 ["crates/graphql-composition/src", "crates/graphql-wrapping-types/src"],
 [("merging of types and fields", "crates/graphql-composition/src/compose"), ("validation", "crates/graphql-composition/src/validate"), ("join directives", "crates/graphql-composition/src/emit_federated_graph"), ("API schema", "crates/graphql-composition/src/federated_graph/render_sdl/render_api_sdl.rs"), ("nullability of composed types", "crates/graphql-composition/src/subgraphs/field_types.rs")],
 check="graph-sim", observe=["federated SDL", "API SDL", "diagnostics"],
 level_note="Seeded generation of releases and contradictions against a reference composition (expect.rs), compared statement by statement. The reference follows the crate's documented behaviour and snapshots.")

prop("D01", "A schema delta says exactly what changed, and applying it gives the new schema",
 "The diff of two schema versions lists exactly their differences, each once and in one order: added, removed and changed types, fields, arguments, argument defaults, enum values, union members, interface implementations, directive definitions, schema definitions and extensions, wherever the definitions stand and however the documents are laid out. The span of a change encloses exactly the definition it names, with its description. Applying the diff with the texts at its spans, also after it was sent through its serialised form, to the old version gives the new one, keeps everything else of the old version as it was, and applying an empty diff changes nothing. No pair of valid schemas, or of the schemas in a replica's history, makes diffing or patching panic or produce something unreadable.",
 ["histories", "inputs", "schedules"],
 "every history of schema versions in every layout, deltas that are skipped, delayed, duplicated or reordered on their way to replicas that crash and restart from what they stored",
 "the diff and patch tests are some forty hand-written pairs of one feature each, all plainly laid out; kinds of types never change and no two changes meet",
 ["crates/graphql-schema-diff/src"],
 [("differences", "crates/graphql-schema-diff/src/state.rs"), ("traversal", "crates/graphql-schema-diff/src/traverse_schemas.rs"), ("spans", "crates/graphql-schema-diff/src/change.rs"), ("applying", "crates/graphql-schema-diff/src/patch")],
 check="graph-sim", observe=["changes with paths and kinds", "text at the spans of changes", "the patched document, parsed"],
 level_note="Simulated registry and gateways; changes and patched schemas against a reference (delta.rs). Without type extensions and with at most one schema extension; descriptions, directives, input field defaults and directive definitions that stay are not tracked by the diff and have to be kept as they were.")

prop("O01", "Operation checks pass a release exactly when it breaks no recorded operation",
 "Given the operations recorded for the current version, however often, in whatever order and batches, and the request threshold, the checks report exactly the changes of the new version that break a used field, argument, enum value, type condition, input type or left-out argument, as errors or, where the values that clients send are unknown, as warnings; changes to what no recorded operation uses are never reported. If nothing is reported, every recorded operation is valid on the new version and gets values of types it can handle. No pair of schemas and no recorded operation makes the checks panic.",
 ["histories", "inputs", "fault_sequences"],
 "every history of releases and clients, every operation, every usage log with lost and repeated batches, every threshold",
 "the check tests are some thirty pairs of schemas with one change and one operation each",
 ["crates/operation-checks/src", "crates/graphql-schema-diff/src"],
 [("usage", "crates/operation-checks/src/aggregate_field_usage.rs"), ("rules", "crates/operation-checks/src/check/rules.rs"), ("ingestion of operations", "crates/operation-checks/src/operation/async_graphql.rs"), ("ingestion of schemas", "crates/operation-checks/src/schema/async_graphql.rs")],
 check="graph-sim", observe=["diagnostics: path, kind of change, severity"],
 level_note="Simulated clients, usage collection and deployments; every verdict against a model of usage and rules (gate.rs), and every passed release against the validity of the recorded operations.")

prop("I01", "Introspecting an endpoint gives the schema the endpoint serves, or an error",
 "Introspection asks the endpoint for its subgraph SDL and, if that is not answered, for its types. A subgraph SDL that arrives complete and with a success status is the result: the same definitions, or the very text where no parser takes it. Otherwise, when the types arrive complete and without errors, the result is a schema that states exactly them: types, fields, arguments, defaults, wrappers, deprecations, descriptions, directives and root types, also from servers that only know the introspection of June 2018. Otherwise the result is an error with the endpoint's messages; no cut, withheld or erroneous answer is ever turned into a schema, and neither question is skipped before giving up. Every request is a POST of JSON to the given address that carries every configured header as given, the user agent and accept header, and nothing configured for another endpoint; headers that are no headers give an error. Introspections running at the same time, or given up, do not affect each other.",
 ["fault_sequences", "schedules", "inputs"],
 "every endpoint, every sequence of refused, lost, cut, delayed and erroneous answers, every interleaving of concurrent introspections",
 "the crate has no tests of its own; the gateway's introspect one healthy endpoint",
 ["crates/grafbase-graphql-introspection/src"],
 [("choice between the two questions", "crates/grafbase-graphql-introspection/src/lib.rs"), ("subgraph SDL", "crates/grafbase-graphql-introspection/src/subgraph.rs"), ("introspection query", "crates/grafbase-graphql-introspection/src/standard.rs")],
 check="graph-sim", observe=["requests on the wire", "returned SDL, parsed", "errors"],
 level_note="The HTTP client is replaced by a simulated one (sim/shims/reqwest013); timers are virtual. Not simulated: redirects, compression, TLS, endpoints that never answer (there is no time limit to test), partial subgraph data with errors.")

def pure(id, title, statement, files, where):
    prop(id, title, statement, ["inputs"], "every input", "unit tests sample inputs", files, [(title, where)],
         na="a pure function of its input: no concurrency, time, I/O or second party for a schedule or a fault to act on")

pure("N01", "Configuration parsing accepts exactly the documented configuration",
 "Every grafbase.toml that follows the reference is accepted with the documented defaults, and anything else is refused with an error naming the offending key.",
 ["crates/gateway-config/src"], "crates/gateway-config/src/lib.rs")
pure("N02", "Schema validation reports exactly the violations of the specification",
 "A type system document passes validation exactly when it satisfies the rules of the specification that the crate lists.",
 ["crates/graphql-schema-validation/src"], "crates/graphql-schema-validation/src/lib.rs")
pure("N03", "Lint rules report exactly the names that break the conventions",
 "Linting a schema reports each name that breaks a convention once, with the rule's message, and no other.",
 ["crates/graphql-lint/src", "crates/gqlint/src"], "crates/graphql-lint/src/lib.rs")
pure("N04", "Field selection maps are parsed and printed faithfully",
 "Every @is and @require selection map that is valid against its types is accepted, binds to the fields it names, and prints as what it was parsed from.",
 ["crates/engine/field-selection-map/src"], "crates/engine/field-selection-map/src")
pure("N05", "Graph references and wrapping types survive their textual form",
 "Printing and parsing a graph reference or a type with its list and non-null wrappers returns the same value; malformed text is refused.",
 ["crates/graph-ref/src", "crates/graphql-wrapping-types/src"], "crates/graphql-wrapping-types/src/lib.rs")
pure("N06", "Environment references in configuration strings are replaced exactly once",
 "A {{ env.NAME }} reference is replaced by the variable's value, a missing variable is an error, and all other text is kept.",
 ["crates/serde-dynamic-string/src"], "crates/serde-dynamic-string/src/lib.rs")
