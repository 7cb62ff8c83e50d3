pub mod boundary;
pub mod colocate;
pub mod errors;
pub mod feeds;
pub mod flow;
pub mod faults;
pub mod handlers;
pub mod metrics;
pub mod query;
pub mod recovery;
pub mod watch;
pub mod session;
pub mod ship;
pub mod together;
pub mod trace;
use crate::core::Plan;

pub const QUERY_RULE: &str = "Case = random tables (unique row ids, nulls, skew, empty chunks; monitored leaf or parquet), random cluster (1-6 workers, in-memory or TCP transport), random planner/DataFusion options, random query from a compositional generator. Non-trivial: the query was distributed to more than one task and returned rows; distinct by query text and traffic shape (stages, tasks, partition ranges).";
pub const TRACE_RULE: &str = "Case = random world and query as for C01; monitors walk the plan and the recorded dispatch trace (every plan sent, every partition range read, by whom, from where). Non-trivial: more than one task was dispatched; distinct by plan text and traffic shape.";
pub const BOUNDARY_RULE: &str = "Case = a random tree of user-placed boundaries (shuffle, coalesce, broadcast; 1-3 deep; random producer and consumer task and partition counts), with recording pass-through nodes on both sides of every boundary, run on a random cluster. Non-trivial: more than one task was dispatched and rows crossed; distinct by plan, schema and traffic shape.";
pub const ERROR_RULE: &str = "Case = a random error (every DataFusion category, nested in contexts, shared, collections, Arrow and external wrappers; odd messages) raised by a leaf, while starting a stream, by the worker's session builder or plan rewrite handler, or by evaluating an expression; compared level by level with the error of a local execution (or with the one raised). Non-trivial: it came from a worker; distinct by query and error.";
pub const FAULT_RULE: &str = "Case = random world and query as for C01, run first without faults; then with one fault at a random point of that run's extent (leaf error, panic or delay at any batch, failing calls, sessions, plan rewrites, broken streams, cut or crashed connections, unknown workers); or plans whose boundary partitions are read at different paces, some abandoned, while others fail half way. Non-trivial: the fault was hit; distinct by query, fault and order of events.";
pub const STOP_RULE: &str = "the reader has what it needs, drops the stream, is cancelled or never polls while sources are endless or blocked: within 15 s every source stream is closed and no task is registered; queries whose LIMIT is satisfiable end by themselves with the right number of rows; a concurrent query on the same workers gets its right rows";
const LEFT_RULE: &str = "Case = random world and query as for C01; then a history of 3-8 endings (read to the end, dropped after n batches, never polled, never executed, aborted at a random microsecond; with faults as for C11; some concurrent; plans kept or dropped), after each of which everything must be released. Non-trivial: distributed; distinct by query, history and order of events.";
const SESSION_RULE: &str = "Case = 1-3 queries at once, each with random distributed options, random values of four option extensions (typed and free text: empty, blank, odd characters, dotted and capital keys, unset, and text no header can carry) and random passed-through headers; every session a worker builds and every request's headers are recorded and compared with the coordinator's. Non-trivial: more than one task was dispatched; distinct by the values the workers saw.";
const COLOCATE_RULE: &str = "Case = random world and query as for C01 (join-heavy, more tasks than workers half of the time, worker URLs differing by host, port, path or query), with the coordinator inside one of the worker processes: rows compared with the reference; or errors at random points compared with those of the same query run all-remote; or histories of early endings after which nothing may be left. Every worker session is recorded: the tasks of that worker must run there without remote calls from the coordinator, all others remotely, with the same options and headers. Non-trivial: a co-located task ran; distinct by query and traffic shape.";
pub const QUERY_ASSUME: &[&str] = &[
    "plain single-node DataFusion with one partition is the reference; cases where plain DataFusion with the same options disagrees with that reference are counted inconclusive",
    "workers share one process; transports are real gRPC over in-memory pipes or loopback TCP",
];

const SHIP_RULE: &str = "Case = a query from a zoo of expressions, aggregates, windows, joins and set operations, or one of the C01 generator, over random tables (monitored leaves, parquet), cluster and options; sometimes with user-defined functions (known to the workers or not) and with user-defined nodes over every leaf that up to three codecs with overlapping claims encode (or none, or ones that fail on the worker). The plan sent for each task and the plan the worker registered are compared node by node (display, schemas, partitioning, orderings, limits, boundary stages and URLs) and by their encoding; rows with undistributed execution. Non-trivial: more than one task ran; distinct by query and traffic shape.";
const METRIC_RULE: &str = "Case = random world and query as for C01 with recording nodes (sent with a codec of their own) over every leaf, filter, projection and join; each records metrics of every kind (random values, names, labels, partitions; for C24 also extreme ones, many per node), some of them only when its stream is dropped. After the query, both presentations (per task and aggregated), their text, or EXPLAIN ANALYZE [VERBOSE], are compared with what was recorded, node by node and task by task; C18 also compares all operators of the plans kept on workers. Results dropped early and collection turned off are included. Non-trivial: distributed; distinct by query and traffic shape.";
const HANDLER_RULE: &str = "Case = random world and query as for C01 with 0-4 recording handlers each for sizing, leaf scaling and routing (registered before and after the tables' own handlers, on the builder, its configuration or the finished session; some think before they answer) and 0-3 rewriting handlers on every worker. Each answers, declines, fails or gives the wrong number of URLs as a function of the node. Checked: who was asked in which order until the first answer, that every leaf and stage was asked about, and that task counts, leaf variants, URLs and rewritten plans in the traffic are exactly the answers; refusals are the query's error; handlers that decline leave plans as they are. Non-trivial: distributed or refused; distinct by plan and traffic shape.";
const TOGETHER_RULE: &str = "Case = random world and 1-3 queries as for C01, each run alone first; then 2-8 lanes of 1-3 steps at once over 1-3 sessions and shared connections: full results, queries failing with an error of their own, queries dropped or aborted at a random point, planned again or all sharing one plan object, with random delays on the network. Every full result is compared with the single-node one, every error with the one its own query must report, the tasks read with those the same session sent; then nothing may be left and every query runs once more. Non-trivial: more than one distributed run and more than two tasks; distinct by program and order of calls.";
const WATCH_RULE: &str = "Case = random cluster with observability services, worker versions and changing or failing resolvers; 1-3 queries over random hand-made stages run, held before they end or dropped, while a watcher keeps asking every worker for its progress. Each answer may only list tasks that worker was sent, once, with rows that never go back; while all queries are held the lists must be exactly the tasks sent, with the rows each has delivered; after the end they must be empty. Worker lists and versions must be those configured. Non-trivial: tasks were dispatched; distinct by plans and order of events.";
const RECOVERY_RULE: &str = "Case = random world and query as for C01 on 1-4 workers, each with a runtime and real sockets of its own, with the crate's default channel resolvers; then a history of 5-11 steps: queries at once, also from runtimes that end afterwards, cancelled ones, and workers that crash, leave gracefully, come back at the same address, have their connections reset or do not answer for a while, idle or amid queries; the resolver sometimes learns who is there. Whenever all resolved workers are up queries must be right at the first attempt, otherwise right or fail naming a connection to a stopped worker; connections accepted by each worker are counted. Non-trivial: distributed, and something happened; distinct by history and world.";
const FEED_RULE: &str = "Case = random world and query as for C01 over tables read through work unit feeds (1-9 feeds per table, units of two types naming chunks of the table and units without rows of 0 B to 7 MB, pauses, more units than a batch, empty feeds; random task layout, co-located coordinator, skewed clocks): what providers emit and what readers receive is recorded and compared unit by unit, and rows with the reference; or with a feed failing or panicking anywhere; or workers without registered feeds; or LIMITs over feeds that never end; or histories of early endings after which no feed may be open. Non-trivial: more than one remote reader; distinct by mode, query and traffic shape.";
const FLOW_RULE: &str = "Case = one boundary (coalesce, shuffle or broadcast; 1-4 producers, 1-3 consumers) carrying up to 4 MB of incompressible rows in messages of 10 B to 300 kB with a budget of 0 B to 64 MB; every consumer partition is read at its own pace (late, slow, with long pauses, abandoned after n batches or before reading). Recorded: every reservation of every connection, what producers emitted and consumers read over time, and which rows each partition got. Case 0 is the directed scenario of the known finding. Non-trivial: rows crossed a connection; distinct by parameters and traffic shape.";
pub fn plans() -> Vec<Plan> {
    let q = |prop, case, quick, thorough| Plan {
        prop,
        case,
        quick,
        thorough,
        parallel: 7,
        rule: QUERY_RULE,
        level: "exploration",
        assumptions: QUERY_ASSUME,
        stuck_s: 40,
        need: &[("queries_distributed", 50)],
    };
    vec![
        q("C01", query::c01, (2400, 45), (60000, 800)),
        q("C02", query::c02, (2400, 45), (60000, 800)),
        q("C03", query::c03, (2400, 45), (60000, 800)),
        q("C04", query::c04, (2400, 45), (60000, 800)),
        q("C05", query::c05, (2400, 45), (60000, 800)),
        Plan { rule: BOUNDARY_RULE, need: &[("boundaries_checked", 200), ("keys_placed", 1000)], ..q("C06", boundary::c06, (3000, 40), (100000, 800)) },
        Plan { rule: BOUNDARY_RULE, need: &[("boundaries_checked", 200), ("cells_compared", 1000)], ..q("C16", boundary::c16, (3000, 40), (100000, 800)) },
        Plan { rule: TRACE_RULE, need: &[("queries_distributed", 50), ("hard_maximum_checks", 50), ("exact_size_checks", 20)], ..q("C07", trace::c07, (2400, 40), (60000, 800)) },
        Plan { rule: TRACE_RULE, need: &[("static_plans_checked", 50), ("left_plain", 10)], ..q("C08", trace::c08, (2400, 40), (60000, 800)) },
        Plan { rule: ERROR_RULE, need: &[("errors_from_workers", 100)], ..q("C12", errors::c12, (3000, 40), (100000, 800)) },
        Plan { rule: FAULT_RULE, need: &[("faults_hit", 100), ("errors_reported", 50)], parallel: 16, ..q("C11", faults::c11, (2400, 40), (60000, 800)) },
        Plan { rule: STOP_RULE, need: &[("ended_with_operators_running", 200), ("stopped_by_itself", 100), ("neighbours_fine", 200)], ..q("C14", faults::c14, (2000, 40), (60000, 800)) },
        Plan { rule: LEFT_RULE, need: &[("endings", 500), ("task_counts_checked", 50)], parallel: 28, ..q("C13", faults::c13, (2000, 40), (60000, 800)) },
        Plan { rule: SESSION_RULE, need: &[("sessions_compared", 500), ("data_requests_compared", 100), ("values_that_cannot_travel", 20), ("queries_together", 50)], ..q("C19", session::c19, (2400, 40), (60000, 800)) },
        Plan { rule: COLOCATE_RULE, need: &[("local_tasks", 500), ("remote_tasks", 100), ("errors_compared", 50)], ..q("C23", colocate::c23, (2400, 40), (60000, 800)) },
        Plan { rule: FLOW_RULE, need: &[("connections_at_budget", 200), ("partitions_abandoned", 100), ("pausing_cases", 100)], ..q("C15", flow::c15, (2400, 40), (60000, 800)) },
        Plan { rule: SHIP_RULE, need: &[("plans_compared", 1000), ("user_nodes_rebuilt", 200), ("untransportable_reported", 30)], ..q("C17", ship::c17, (2400, 40), (60000, 800)) },
        Plan { rule: METRIC_RULE, need: &[("metrics_compared", 5000), ("worker_plans_compared", 200), ("analyzed", 50)], ..q("C18", metrics::c18, (2400, 40), (60000, 800)) },
        Plan { rule: METRIC_RULE, need: &[("metrics_compared", 20000), ("merges_compared", 2000)], ..q("C24", metrics::c24, (2400, 40), (60000, 800)) },
        Plan { rule: HANDLER_RULE, need: &[("rounds_checked", 3000), ("sizes_checked", 100), ("scaled_leaves_checked", 300), ("routings_checked", 200), ("rewritten_marks_run", 500), ("refusals_reported", 50), ("declining_plans_compared", 30)], ..q("C20", handlers::c20, (2400, 40), (60000, 800)) },
        Plan { rule: TOGETHER_RULE, need: &[("full_results_compared", 1000), ("failures_compared", 100), ("stopped", 300), ("plans_run_again", 200)], ..q("C21", together::c21, (520, 60), (60000, 800)) },
        Plan { rule: RECOVERY_RULE, need: &[("queries_right", 500), ("failures_naming_the_connection", 50), ("workers_back", 50), ("connection_resets", 30), ("runtimes_gone", 30), ("reuse_checks", 30)], ..q("C22", recovery::c22, (1000, 45), (60000, 800)) },
        Plan { rule: WATCH_RULE, need: &[("polls", 5000), ("progress_seen_moving", 200), ("final_rows_compared", 500), ("held_tasks_listed", 1000), ("worker_lists_compared", 1000)], ..q("C25", watch::c25, (1500, 40), (60000, 800)) },
        Plan { rule: FEED_RULE, need: &[("units_received_remotely", 1000), ("feed_errors_reported", 50), ("limits_over_endless_feeds", 20), ("missing_getters_reported", 10)], ..q("C10", feeds::c10, (2400, 40), (60000, 800)) },
        Plan { rule: TRACE_RULE, need: &[("queries_distributed", 50), ("stages_custom_routed", 20), ("bad_routings_rejected", 10)], ..q("C09", trace::c09, (2400, 40), (60000, 800)) },
    ]
}
