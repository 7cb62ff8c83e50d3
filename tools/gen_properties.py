#!/usr/bin/env python3
"""Source of properties.jsonl (kept as code so the lines stay uniform)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),
      why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
      **({"state":state} if state else {}),observe_at=[observe],hook_needed=hook)))

p("C01","Distributed results equal single-node results",
  "Any query that the distributed engine accepts returns the same multiset of rows, with the same schema, as plain single-node DataFusion over the same data. This holds for every cluster size, transport, planner option, stage sizing and data layout, and whether or not the query ended up being distributed at all.",
  ["programs","inputs","configurations","schedules"],
  "all SQL queries over file scans and user-defined leaves (filters, aggregates, grouping sets, distinct, windows, set operations, subqueries, joins), all data (nulls, skew, empty partitions and tables), 1..N workers, all combinations of the distributed options and of DataFusion's own partitioning options",
  "The tests run TPC-H/TPC-DS style and hand-picked queries with one layout and the default options; they sample neither the product of planner options, cluster sizes and data layouts nor unusual plan shapes (empty inputs, nested set operations, more tasks than partitions).",
  ["src/distributed_planner/distributed_query_planner.rs","src/distributed_planner/inject_network_boundaries.rs","src/coordinator/distributed.rs","src/coordinator/query_coordinator.rs","src/execution_plans/","src/distributed_planner/partial_reduce_below_network_shuffles.rs"],
  [("distributed planning pipeline","src/distributed_planner/distributed_query_planner.rs"),("network boundary injection","src/distributed_planner/inject_network_boundaries.rs"),("head stage execution","src/coordinator/distributed.rs"),("partial reduction below shuffles","src/distributed_planner/partial_reduce_below_network_shuffles.rs")],
  "rows and schema returned to the caller, against an independent single-node session")
p("C02","Joins of every kind and strategy keep single-node semantics",
  "Every join type (inner, left, right, full, semi, anti, mark/EXISTS/IN, cross, non-equi), under every physical strategy (partitioned, broadcast build side, collected build side, sort-merge, nested loop), yields exactly the single-node rows: no row is duplicated because its side was replicated to several tasks, and no row (in particular no unmatched build-side row) is lost or repeated. Every consumer task of a replicated build side observes the same complete build-side rows, including when the build side is itself limited, aggregated or sorted.",
  ["programs","inputs","configurations","schedules"],
  "all join types x strategies x build sides (limits, aggregates, unions, empty, skewed, null keys) x uneven producer/consumer task counts x broadcast on/off",
  "The repo's join tests cover a few queries per join type on one cluster size, and compare only the strategies the optimizer picks for that data; wrong replication needs a particular combination of join type, build shape and task counts.",
  ["src/distributed_planner/insert_broadcast.rs","src/distributed_planner/normalize_collect_joins.rs","src/execution_plans/broadcast.rs","src/execution_plans/network_broadcast.rs","src/distributed_planner/inject_network_boundaries.rs"],
  [("broadcast insertion","src/distributed_planner/insert_broadcast.rs"),("collect-left normalisation","src/distributed_planner/normalize_collect_joins.rs"),("broadcast fan-out","src/execution_plans/broadcast.rs")],
  "rows returned for join queries, against a single-node session")
p("C03","ORDER BY, LIMIT and OFFSET are honoured globally",
  "Rows of an ordered query arrive in the requested order across all tasks and workers, and a query with LIMIT/OFFSET returns exactly the rows single-node execution may return: the right count always, the right rows whenever the order is total, and always a sub-multiset of the unlimited result. Pushing a limit towards the workers never changes the result, whatever operator carries it.",
  ["programs","inputs","configurations","schedules"],
  "all nestings of sort, top-k, limit and offset over scans, joins, aggregates and unions, including plans built by the user with their own boundaries; all arrival orders of the workers' data",
  "A limit applied on the wrong side of a boundary only shows when the rows kept by one task differ from the global ones, which depends on how data falls on tasks and on arrival order; unit tests pin plan snapshots for a few shapes.",
  ["src/distributed_planner/push_fetch_into_network_coalesce.rs","src/execution_plans/network_coalesce.rs","src/distributed_planner/inject_network_boundaries.rs","src/coordinator/distributed.rs"],
  [("fetch push-down below the boundary","src/distributed_planner/push_fetch_into_network_coalesce.rs"),("order-preserving gathering of task outputs","src/execution_plans/network_coalesce.rs")],
  "order and content of the rows returned to the caller")
p("C04","Unions deliver every branch's rows exactly once",
  "When the branches of a union are spread over different tasks, every branch is executed by some task, every row of every branch is produced exactly once, and no branch's rows depend on how many tasks or branches there are. This holds with nested unions, branches that need their own boundaries, single-task branches and fewer tasks than branches.",
  ["programs","configurations","inputs"],
  "all unions (1..N branches, nested, mixed with joins/aggregates/limits), all task counts (fewer, equal, more than branches), isolation enabled and disabled, static and adaptive sizing",
  "The tests check the assignment arithmetic for some shapes and a few union queries; correctness must hold for the whole product of branch weights, task budgets and boundary placements below the union.",
  ["src/execution_plans/children_isolator_union.rs","src/distributed_planner/insert_children_isolator_union.rs"],
  [("branch-to-task assignment","src/execution_plans/children_isolator_union.rs"),("union rewrite","src/distributed_planner/insert_children_isolator_union.rs")],
  "rows per branch (each row carries a unique id) and executions of each branch's leaves")
p("C05","Adaptive stage sizing never changes results",
  "With task counts decided at run time from sampled data, queries return exactly the rows that single-node execution returns: rows consumed by sampling are still delivered once, in order, and every statistic (including zero rows, unknown sizes, all-null columns or a failing producer) leads to a valid stage size between one and the cluster limit. Sampling never deadlocks or fails a query that would succeed with fixed sizes.",
  ["programs","inputs","configurations","schedules","fault_sequences"],
  "all queries under adaptive sizing, all target bytes per partition, empty/tiny/large/skewed inputs, slow, failing and early-ending producers, all timings of the load reports",
  "The adaptive tests run a handful of queries with one size target; the decision depends on run-time arrival of load reports from many tasks, which tests do not vary.",
  ["src/coordinator/prepare_dynamic_plan.rs","src/execution_plans/sampler.rs","src/distributed_planner/statistics/"],
  [("runtime stage preparation","src/coordinator/prepare_dynamic_plan.rs"),("sampling of producer output","src/execution_plans/sampler.rs"),("cost model","src/distributed_planner/statistics/")],
  "results, stage sizes sent to workers and load reports on the coordinator channel")
p("C06","Boundaries move every row exactly once to the right place",
  "Between any two stages, each row produced by a producer task reaches the consumer tasks exactly once (exactly once per consumer task for a broadcast), unchanged, and rows with equal hash keys meet in the same consumer task and partition, consistently on both sides of a co-partitioned join. This holds for any number of producer and consumer tasks and partitions, including uneven divisions, one task, and boundaries placed by the user.",
  ["configurations","inputs","programs","schedules"],
  "all combinations of producer tasks, consumer tasks and partitions for shuffle, coalesce and broadcast boundaries, with planner-made and user-made plans and any data",
  "The arithmetic mapping (producer task, partition) to (consumer task, partition) must be a bijection for every size combination; tests check single combinations, mostly evenly divisible ones.",
  ["src/execution_plans/network_shuffle.rs","src/execution_plans/network_coalesce.rs","src/execution_plans/network_broadcast.rs","src/execution_plans/broadcast.rs","src/distributed_planner/network_boundary.rs","src/worker/impl_execute_task.rs"],
  [("partition ranges requested per consumer task","src/execution_plans/network_shuffle.rs"),("producer task groups per consumer task","src/execution_plans/network_coalesce.rs"),("replicated reads","src/execution_plans/network_broadcast.rs"),("producer head applied on the worker","src/worker/impl_execute_task.rs")],
  "unique row ids leaving each leaf and arriving in each consumer task/partition")
p("C07","Stage sizes respect cluster limits and user hints",
  "No stage is ever given more tasks than the configured maximum per stage (or than the available workers when none is configured), nor fewer than one; a hard maximum stated for a leaf is never exceeded by the stage that contains it, and where only desires are stated the stage gets the largest of them within the limits. Stages holding operators that must see all data in one place run as exactly one task.",
  ["programs","configurations","inputs"],
  "all queries, all leaf hints (desired or maximum, including zero and huge), all worker counts, per-stage limits, scale factors and both sizing modes",
  "Snapshot tests show sizes for chosen plans; the bound must survive every merge of hints through joins, unions, broadcast sides and shuffles.",
  ["src/distributed_planner/inject_network_boundaries.rs","src/events/desired_task_count.rs","src/events/defaults/file_scan_config.rs","src/coordinator/prepare_dynamic_plan.rs"],
  [("hint merging","src/events/desired_task_count.rs"),("annotation of stages","src/distributed_planner/inject_network_boundaries.rs")],
  "task counts in the produced plan and in every task dispatched to a worker")
p("C08","Distributed plans are well formed and minimal",
  "In every plan produced, stages of one query have distinct numbers, each boundary's producer stage provides what its consumers read (task and partition counts agree, schemas agree, no boundary links one task to one task), and leaf variants match the number of tasks. A query for which distribution brings no boundary is left as the plain plan, and without the distributed planner or with no workers the result is a clear error or the plain plan, never a half-distributed one.",
  ["programs","configurations"],
  "all planned queries and user-built plans, all options and cluster sizes",
  "Tests snapshot some plans; structural validity must hold for every plan shape and option combination.",
  ["src/distributed_planner/distributed_query_planner.rs","src/distributed_planner/prepare_network_boundaries.rs","src/stage.rs"],
  [("boundary preparation and stage numbering","src/distributed_planner/prepare_network_boundaries.rs"),("plan entry point","src/distributed_planner/distributed_query_planner.rs")],
  "the physical plan returned by the planner, walked structurally")
p("C09","Every task is dispatched once, to its routed worker",
  "For each execution, every task of every stage is sent exactly one plan, at exactly the worker chosen for it by routing, and every consumer reads that task's output from that same worker; each output partition a stage produces is requested by exactly the consumers it is meant for and executed at most once. Custom routing is followed position by position, an answer of the wrong length is an error, and when no custom routing applies, tasks of a stage are spread over distinct available workers.",
  ["programs","configurations","schedules","histories"],
  "all queries, cluster sizes, routing handlers and repeated executions, with and without a co-located worker",
  "Only an end-to-end recording of all worker traffic shows duplicates, omissions or mismatched addresses; tests check a few routing handlers' final results.",
  ["src/coordinator/query_coordinator.rs","src/events/route_tasks.rs","src/events/defaults/","src/worker/impl_coordinator_channel.rs","src/worker/worker_connection_pool.rs"],
  [("task dispatch","src/coordinator/query_coordinator.rs"),("routing handlers","src/events/route_tasks.rs")],
  "all messages crossing the public worker channel interface, recorded with caller and destination")
p("C10","Work unit feeds deliver every unit once, in order, to its owner",
  "Every unit emitted by a user's feed is received exactly once, in emission order, by the one task and partition that owns it, with its content intact; while the query runs, each receiving partition sees its end only after its source partition ended and all its units arrived, and an error from the feed surfaces as the query's error. Slow feeds, many feeds per plan, early-terminating consumers, clocks that disagree and any interleaving change neither content nor order; a query that has its answer ends without waiting for feeds that have not ended; and consuming a partition twice is an error rather than a silent split.",
  ["schedules","inputs","configurations","fault_sequences"],
  "all feeds (units, delays, errors, empty partitions, very many units), task/partition layouts, local and remote tasks, and interleavings with the rest of the query",
  "The repo's tests drive a few scripted feeds; ordering and exactly-once depend on batching and interleaving of several feeds over one channel.",
  ["src/work_unit_feed/","src/coordinator/query_coordinator.rs","src/worker/impl_coordinator_channel.rs"],
  [("feed provider and remote proxy","src/work_unit_feed/remote_work_unit_feed.rs"),("feed pump","src/coordinator/query_coordinator.rs"),("worker-side registry","src/work_unit_feed/work_unit_feed_registry.rs")],
  "units emitted by the provider and units received by the leaf operator, each with a unique id")
p("C11","Failures surface as errors: never truncated results, never a hang",
  "If any part of a distributed query fails (operator error or panic on a worker, plan rejected, feed error, worker unreachable, connection lost at any byte), the query ends with an error within bounded time; it never returns a successful but incomplete result and never hangs. A failure that could not affect the answer may be tolerated, but then the answer is complete.",
  ["fault_sequences","crash_points","schedules","configurations"],
  "all fault kinds x positions (which task, which batch, which byte) x query shapes x sizing modes x transports",
  "Tests inject an error at one or two fixed points; truncation shows only if the failure hits a particular moment of a stream.",
  ["src/protocol/grpc/worker_client.rs","src/protocol/grpc/worker_service.rs","src/protocol/grpc/spawn_select_all.rs","src/worker/impl_coordinator_channel.rs","src/coordinator/query_coordinator.rs","src/worker/single_write_multi_read.rs"],
  [("demultiplexing of a worker's stream","src/protocol/grpc/worker_client.rs"),("plan hand-over to readers","src/worker/single_write_multi_read.rs"),("background task error collection","src/coordinator/query_coordinator.rs")],
  "the query's outcome (rows or error, and time) against the complete single-node result")
p("C12","Errors keep their meaning across the wire",
  "An error raised on a worker reaches the caller with the same error category, message and nested cause that a local execution would expose, for every category of DataFusion, Arrow, Parquet, IO, object-store and schema error, at any nesting depth and through any number of stages. Errors that are not of these kinds still arrive as errors carrying their text. Errors too large for the transport may arrive abridged, keeping the category of their root cause and the beginning of their text, and never disturb other queries.",
  ["inputs","configurations"],
  "all error variants and nestings, raised in any stage, including contexts, diagnostics-free variants, shared and external errors, and non-ASCII or very long messages",
  "There are round-trip unit tests for individual variants, but not for nestings, real transports or multi-hop propagation.",
  ["src/protocol/grpc/errors/"],
  [("error conversion to and from the wire format","src/protocol/grpc/errors/")],
  "the error value obtained by the caller, against the error raised in the leaf on the worker")
p("C13","Finished queries leave nothing behind",
  "After a query ends in any way (all rows read, early stop, error, cancellation, dropped before or during start), the workers and the coordinator return to their prior state in bounded time: no registered tasks, running operators, open streams, background tasks or memory reservations of that query remain. Reservations never go below zero or stay above zero.",
  ["histories","fault_sequences","schedules","configurations"],
  "all endings of a query at all moments, repeated and concurrent, over all transports",
  "The suite checks a registered-task count in a few happy and cancelled runs; leaks arise from particular moments of cancellation or failure.",
  ["src/worker/impl_coordinator_channel.rs","src/worker/task_data.rs","src/protocol/grpc/worker_client.rs","src/coordinator/query_coordinator.rs","src/coordinator/distributed.rs"],
  [("task entry removal","src/worker/impl_coordinator_channel.rs"),("end-of-query notification","src/coordinator/query_coordinator.rs"),("memory reservation of buffered data","src/protocol/grpc/worker_client.rs")],
  "live operators, registered tasks, alive runtime tasks and memory-pool balances after each query")
p("C14","Stopping early stops the remote work",
  "When the consumer no longer needs rows (limit satisfied, stream dropped, query cancelled), every operator still running for that query on any worker is stopped within bounded time and produces no more than a bounded amount of further data, even if its input is infinite or blocked. Other queries on the same workers are unaffected.",
  ["schedules","histories","configurations"],
  "all drop moments, plan shapes (through shuffles, broadcasts, unions, feeds), endless and blocked sources, all transports",
  "A finite test dataset ends by itself, so an execution that is never cancelled goes unnoticed.",
  ["src/worker/impl_execute_task.rs","src/protocol/grpc/on_drop_stream.rs","src/protocol/grpc/worker_client.rs","src/coordinator/query_coordinator.rs"],
  [("drop propagation","src/protocol/grpc/on_drop_stream.rs"),("end-of-query signalling","src/coordinator/query_coordinator.rs")],
  "leaf operators' stream lifetimes and rows produced after the stop")
p("C15","Flow control bounds memory without blocking progress",
  "Data buffered by a consumer for one worker connection stays within the configured budget plus the messages needed for progress, whatever the producers' speed, and producers are paused meanwhile rather than buffered without bound. Backpressure never deadlocks: for every budget (however small), batch size, number of partitions and order in which partitions are read, abandoned or finished, every partition that is read is eventually delivered completely. Workers send messages no larger than the maximum message size set by the user (single rows that are larger excepted).",
  ["schedules","configurations","inputs"],
  "all budgets (zero to unlimited), message sizes, partition counts, and orders of reading, abandoning and finishing sibling partitions",
  "Deadlock or overflow needs particular consumer orders (skewed reads, abandoned siblings) and small budgets that no test uses.",
  ["src/protocol/grpc/worker_client.rs","src/worker/worker_connection_pool.rs","src/protocol/grpc/spawn_select_all.rs"],
  [("buffer budget and wake-ups","src/protocol/grpc/worker_client.rs"),("connection sharing among partitions","src/worker/worker_connection_pool.rs")],
  "memory-pool peak and balance, rows produced while the reader is stalled, completion of every read partition")
p("C16","Batches arrive bit-for-bit equal after crossing the wire",
  "A record batch sent between any two processes of a query arrives with the same schema, row order, values and nulls, for every Arrow type (nested, dictionary, view, decimal, temporal, run-end, union, zero-column, zero-row), any slice offset, batch size, compression setting and message size. No rows are merged, split across or lost between partitions by re-batching.",
  ["inputs","configurations"],
  "all Arrow types and layouts (sliced, dictionary-encoded with differing dictionaries, views with unused buffers, empty), all compressions, batch sizes and partition interleavings",
  "Tests use the numeric and string columns of sample tables; type- and layout-specific loss in encoding, dictionary handling or view compaction is unsampled.",
  ["src/protocol/grpc/worker_service.rs","src/protocol/grpc/worker_client.rs"],
  [("batch encoding on the worker","src/protocol/grpc/worker_service.rs"),("batch decoding by the consumer","src/protocol/grpc/worker_client.rs")],
  "batches emitted by the leaf on the worker, against batches obtained through the boundary")
p("C17","Workers execute exactly the plan the coordinator built",
  "The plan that a worker runs for a task equals the plan the coordinator produced for that task: same operators, expressions, partitioning, ordering, limits, schemas and boundary parameters, including user-defined nodes handled by the user's codecs, tried in a consistent order. Only the data assigned to that task is shipped, and a plan that cannot be transported is an error, not a silently altered plan.",
  ["programs","configurations"],
  "all plans (all operators the engine can ship, nested boundaries, user nodes with several codecs), all tasks",
  "Codec tests round-trip a few nodes in isolation; composition with user codecs, per-task specialisation and dynamic filters are not swept.",
  ["src/codec/","src/common/maybe_encoded.rs","src/execution_plans/distributed_leaf.rs","src/coordinator/query_coordinator.rs"],
  [("plan codec","src/codec/distributed_codec.rs"),("per-task specialisation","src/coordinator/query_coordinator.rs")],
  "plan handed to the channel by the coordinator against the plan decoded on the worker")
p("C18","Collected metrics are complete and true",
  "After a successful query with metrics collection on, the plan reported to the user carries metrics for every operator of every task of every stage that ran, attached to the right operator and task, and the numbers equal what the operators really recorded on the workers (for instance rows counted by the sources). Aggregated and per-task presentations are consistent with each other, and collecting metrics never alters, blocks or fails the query.",
  ["programs","configurations","schedules"],
  "all queries, stage counts, presentations, early-terminating and adaptive runs",
  "Tests compare metrics for chosen plans; attribution must hold for every plan shape and arrival order of the reports.",
  ["src/metrics/","src/coordinator/metrics_store.rs","src/explain_analyze.rs","src/worker/impl_coordinator_channel.rs"],
  [("metrics collection per task","src/metrics/task_metrics_collector.rs"),("plan rewriting with metrics","src/metrics/task_metrics_rewriter.rs"),("metric wire format","src/protocol/grpc/metrics_proto.rs")],
  "metrics in the rewritten plan against counts kept by the monitored leaves")
p("C19","Session configuration and headers reach every worker intact",
  "Every distributed option and every user option extension registered for distribution has, in every worker's session for that query, the value it has in the coordinator's session, for every value including empty, unset and unusual text; a value that cannot travel in a header is an error and never altered. Headers chosen for passing through arrive unmodified with every task of every stage and with every data request of the session that chose them, reserved names are rejected, and other headers are not forwarded. Options of one query never leak into another.",
  ["inputs","configurations","histories"],
  "all distributed option extensions, keys and values, header names and values, any number of hops, concurrent queries with different values",
  "Tests use a couple of plain values and one hop.",
  ["src/config_extension_ext.rs","src/passthrough_headers.rs","src/coordinator/query_coordinator.rs","src/worker/impl_coordinator_channel.rs"],
  [("option extension encoding in headers","src/config_extension_ext.rs"),("pass-through headers","src/passthrough_headers.rs")],
  "session options and headers observed inside operators on the workers")
p("C20","Extension handlers run in order and their answers are applied",
  "User handlers for sizing, leaf scaling, routing and worker-side plan rewriting are consulted in registration order and before the built-in ones: the first one that answers decides, all rewrite handlers compose in order, and exactly the answer is applied. An error from a handler is reported as the query's error, and a handler that declines leaves the behaviour unchanged.",
  ["configurations","programs","histories"],
  "all sequences of handlers (declining, answering, failing), on coordinator and workers, static and adaptive",
  "Tests register one or two handlers at a time.",
  ["src/events/","src/distributed_ext.rs","src/worker/impl_coordinator_channel.rs"],
  [("handler chains","src/events/common.rs"),("worker plan rewriting","src/events/worker_plan_rewrite.rs")],
  "calls recorded inside the handlers, and the resulting plan and traffic")
p("C21","Concurrent and repeated queries do not interfere",
  "Any number of queries running at the same time over the same workers, sessions or even the same plan object return the results they would return alone; failure or cancellation of one does not disturb another, and executing one plan again gives a fresh, complete result. Worker state of one query is never visible to another.",
  ["schedules","histories","fault_sequences"],
  "all interleavings of many queries (successful, failing, cancelled) over shared workers and connections, re-executed plans and partitions executed in any order",
  "Tests run queries one by one.",
  ["src/worker/worker_service.rs","src/worker/worker_connection_pool.rs","src/coordinator/distributed.rs","src/protocol/grpc/channel_resolver.rs"],
  [("per-query task registry","src/worker/worker_service.rs"),("per-execution coordinator state","src/coordinator/distributed.rs")],
  "results and traffic of every query in a concurrent batch")
p("C22","The cluster recovers after worker failures",
  "After a worker stops and comes back at the same address, later queries succeed without restarting the coordinator (a cached connection that broke may be reported once before it is replaced), and while it is down queries that need it fail with an error that names the failing connection rather than hanging. Connections are reused among queries and a broken cached connection is never used forever.",
  ["fault_sequences","histories","crash_points"],
  "all sequences of stop, restart and query at all moments, over real sockets and the default connection cache",
  "No test restarts a worker.",
  ["src/protocol/grpc/channel_resolver.rs","src/protocol/channel_resolver.rs"],
  [("connection cache","src/protocol/grpc/channel_resolver.rs")],
  "outcomes of a history of queries, stops and restarts, against the known liveness of workers")
p("C23","A co-located worker behaves like a remote one",
  "Running the coordinator inside a worker process, or several tasks in one process, uses shortcuts that are invisible: results, errors, metrics, option and header propagation, cancellation and cleanup are the same as when every task is remote. The shortcut is taken only for tasks addressed to that very worker.",
  ["configurations","programs","fault_sequences"],
  "all queries and faults with and without a local worker context, for every placement of tasks",
  "The local path is exercised by tests only in its most common shape.",
  ["src/protocol/in_process/","src/worker/impl_execute_task.rs","src/worker/worker_connection_pool.rs"],
  [("in-process channel","src/protocol/in_process/"),("connection selection","src/worker/worker_connection_pool.rs")],
  "outcome pairs (local shortcut on and off) of the same query")
p("C24","Metric values survive transport and merging",
  "Every metric kind (counts, times, gauges, byte counters, latencies with percentiles, pruning and ratio metrics, custom names and labels) has the same value, labels and partition after crossing the wire, and merging the metrics of several tasks gives the mathematically right aggregate (sums, minima, maxima, weighted averages, percentiles) independent of order. No value overflows, panics or is dropped.",
  ["inputs","configurations"],
  "all metric kinds and values (zero, maximal, unset), any label set, any number and order of tasks",
  "Unit tests cover single values per kind.",
  ["src/protocol/grpc/metrics_proto.rs","src/metrics/"],
  [("metric wire format","src/protocol/grpc/metrics_proto.rs"),("latency, bytes and gauge metrics","src/metrics/latency_metric.rs")],
  "metrics recorded by a monitored operator on workers, against what the coordinator reports")
p("C25","What workers report about themselves is true",
  "While a query runs, a worker asked for its progress (GetTaskProgress) lists exactly the tasks it was sent that have not ended, each once and under its own key, and never tasks of other workers or of queries that have ended. The rows it shows for a task never go back, and equal the rows that task delivered once its output was taken (stages that end in a broadcast excepted, which does not count rows). The workers it lists are those its resolver gives (or the resolver's error), and its version is the one it was built with. Asking disturbs no query.",
  ["schedules","histories","configurations"],
  "all queries, numbers of tasks, moments of asking, worker sets, failing resolvers",
  "Tests ask once, about one finished plan; what is reported depends on when it is asked and which tasks share the worker.",
  ["src/protocol/grpc/observability/service.rs","src/worker/","src/protocol/grpc/worker_service.rs"],
  [("observability service","src/protocol/grpc/observability/service.rs"),("worker version","src/protocol/grpc/worker_service.rs")],
  "GetTaskProgress, GetClusterWorkers, Ping and GetWorkerInfo polled from outside while queries run")
import os
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
