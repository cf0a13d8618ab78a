prop("C05", "Query errors have exactly the documented consequences",
 "When MySQL returns an error, the client does exactly what is documented: deadlock (1213), lock wait timeout (1205), query killed (1317), read-only (1290, 1836) and duplicate key (1062) mean no reconnect and a new iteration from the first assigned trx, after a ROLLBACK for 1205, 1290 and 1836 when the error is inside a trx; any other error or lost connection means disconnect, reconnect until MySQL accepts (prepared statements prepared again, default database set again), then a new iteration; DDL that fails in a way that retrying cannot repair stops the client with an error. Every error that ends a connection or a client is reported with its code and not as another statement's. Every failed iteration counts toward iteration limits, other clients are not affected, and no error makes Finch crash, hang, skip a statement or execute the rest of a failed iteration.",
 ["fault sequences", "programs", "schedules"], "every error code, at every statement and phase (prepare, execute, reading rows, connect), any number of times, in all combinations of trx",
 "No existing test runs a statement that fails; the tests that connect need a MySQL server and are skipped.",
 ["client/client.go", "finch.go", "dbconn/factory.go"],
 [("error handling in the critical loop", "client.Client.Run"), ("reconnect", "client.Client.Connect"), ("error classes", "finch.MySQLErrorHandling")],
 ["statements received by the MySQL server after an injected error"],
 "runtime monitoring: fault injection in the fake MySQL server (error packets, dropped connections, errors while reading rows) with a trace-specification checker over its event log",
 "Random faults at random statements; the checker replays the documented reaction." + TRUST)

prop("C06", "Data keys change and are shared according to their scope",
 "The value of a data key in the SQL that a client sends is constant within its scope and newly generated at its boundary: statement (new in every statement), row (new in every CSV row), trx (new when a trx begins), iter (new each iteration), client, and value (new every time it appears). Within the scope every use of the key, also in other statements and trx, has the same value, and a key stands for its own generator only, whatever other keys are named. The default scope is statement and, in a CSV, row.",
 ["programs", "histories"], "all trx files, key names, scopes and uses of keys; all numbers of iterations",
 "Existing tests call the scoped generator directly with a handful of counters; none checks the SQL of a running client.",
 ["data/scope.go", "client/client.go", "workload/workload.go", "trx/trx.go"],
 [("scoped generator", "data.ScopedGenerator.Call"), ("run counters", "client.Client.Run"), ("key substitution", "trx.lineBuffer / trx.File.statements")],
 ["values of data keys in statements received by the MySQL server"],
 "runtime monitoring: value-provenance oracle; every generated value is unique, so equality of values in the server's log shows exactly which uses shared a generation",
 "Single client runs." + TRUST)

prop("C07", "Data keys are shared between clients according to their scope",
 "With many clients running concurrently, client and narrower scopes are independent in each client, while client-group, exec-group and workload scope share one generator among exactly the clients of that client group, execution group, or stage. A shared generator is called once when each client starts a new iteration (plus explicit calls), the client sees that value for the whole iteration, and no call is lost, duplicated or given to two clients, whatever the interleaving.",
 ["schedules", "programs"], "all interleavings of clients in all client groups, execution groups and stages; all scopes",
 "Existing scope tests are single threaded and compare pointers of generators for one small config.",
 ["data/scope.go", "workload/workload.go", "trx/trx.go", "compute/server.go"],
 [("copying generators", "data.Scope.Copy, workload.Allocator.Clients"), ("shared generators", "data.ScopedGenerator")],
 ["values of data keys in statements received by the MySQL server, per connection"],
 "runtime monitoring: value-provenance oracle over the server's log of concurrent clients",
 "Random stages with several groups and stages under random delays." + TRUST)

prop("C08", "One-time data scopes produce one value for their whole scope",
 "A data key with stage scope is called once per stage and one with global scope once per Finch run: all clients of all groups (and, for global, of all stages) see that one value in every iteration until an explicit call, which generates the next value exactly once and makes it the one that everybody sees. A stage-scoped key starts anew in the next stage, even if trx files and key names are the same.",
 ["schedules", "histories"], "all interleavings of the first use of a value by concurrent clients; all sequences of stages",
 "Existing tests call such a generator twice in one goroutine.",
 ["data/scope.go", "workload/workload.go", "compute/server.go"],
 [("one-time scope", "data.ScopedGenerator.Call"), ("stage and global copies", "data.Scope")],
 ["values of data keys in statements received by the MySQL server"],
 "runtime monitoring: value-provenance oracle over the server's log of concurrent clients and several stages",
 "Random multi-group, multi-stage runs under random delays." + TRUST)

prop("C09", "Data generators keep their documented contracts",
 "For every valid parameter set and every number of calls, each built-in data generator returns only values it documents: integers between min and max (uniform, normal with the documented mean and deviation), gaps as documented, ranges of the documented size inside the documented bounds, sequential ranges in order and wrapping around, auto-increment in steps, random strings of the exact length, client ids and xids that are unique where they must be. Invalid parameters return an error. Copies continue independently, and none crashes.",
 ["inputs", "histories"], "all parameter values and all numbers of calls and copies",
 "Existing tests check one or two parameter sets with a few calls, and only that a value is in range.",
 ["data/integer.go", "data/id.go", "data/string.go", "data/column.go", "data/generator.go"],
 [("generators", "data.Make and Generator.Values")],
 ["values returned by data generators"],
 "runtime monitoring: contract monitors (bounds, order, uniqueness, statistical tests) around every built-in generator under random parameters, and the Go race detector",
 "Statistical tests have a false alarm chance below 1e-9 per run and use fixed seeds of the parameters.")

prop("C15", "Statistics are exact for whatever was recorded",
 "For any history of recorded events, errors, resets, copies, combinations and swaps, each stats object reports for every event type exactly the number of events, the exact smallest and largest response time, the exact number of each MySQL error, a histogram with each event in the MySQL 8.0 bucket that holds it, and each requested percentile within the bucket that holds the event of that rank. Periodic collection concurrent with recording clients loses no event, counts none twice and has no data race. Percentile names P1 to P99, P999 and so on mean what is documented.",
 ["histories", "schedules", "inputs"], "all sequences of operations, all durations, all interleavings of recording clients and collection",
 "Existing tests record a handful of values sequentially; lost or double counted events need concurrent collection.",
 ["stats/stats.go", "stats/collector.go", "stats/reporter.go"],
 [("stats and trx stats", "stats.Stats, stats.Trx"), ("collection", "stats.Collector.Collect")],
 ["stats values", "instances passed to reporters"],
 "runtime monitoring: shadow model (plain list of events) compared after every operation, conservation checker over collected intervals, and the Go race detector",
 "Random histories; a percentile is right if it is inside the documented bucket.")

prop("C16", "Intervals from all instances are reported whole, once and in order",
 "The server reports each interval at most once, in increasing order, with exactly one unmodified entry per instance that delivered stats for that interval in time: as soon as the last instance's stats arrive, or incomplete when a later interval arrives first or the final wait times out. Stats of different intervals are never mixed; late or repeated stats are dropped, never counted twice; the final interval is reported when all instances have delivered it, and stopping returns.",
 ["schedules", "fault sequences", "histories"], "all arrival orders, delays, losses and repetitions of interval stats from any number of instances, and all stop times",
 "The existing test sends a few intervals in order; wrong mixes need late or lost stats.",
 ["stats/collector.go", "stats/remote.go"],
 [("interval completion", "stats.Collector.Recv and Report"), ("final interval", "stats.Collector.Stop")],
 ["instances passed to reporters"],
 "runtime monitoring: online trace checker in a reporter attached to the real collector, under simulated delayed, lost, reordered and repeated stats",
 "Random arrival histories, sequential and concurrent.")

prop("C22", "Reports show exactly the statistics",
 "The CSV and stdout reporters write one line per reported interval with the documented columns, in which every value is computed from exactly the reported statistics of that interval: duration and runtime, clients, QPS, TPS, minimum, maximum and the requested percentiles for all queries, reads, writes and commits, error counts and compute name; combined over all instances or one line for each as configured. A CSV file always has one header and as many fields in each line, and no combination of values or options crashes a reporter.",
 ["inputs", "configurations"], "all statistics and all reporter options",
 "Existing tests report one set of values with default options.",
 ["stats/csv.go", "stats/stdout.go", "stats/reporter.go", "stats/collector.go"],
 [("CSV", "stats.CSV.Report"), ("stdout", "stats.Stdout.Report"), ("combining instances", "stats.Instance.Combine")],
 ["lines written by reporters"],
 "runtime monitoring: differential oracle; every reported line is parsed back and compared with an independent computation from the recorded events",
 "Random statistics and options, in process.")

prop("C10", "Saved columns and insert ids are reused exactly",
 "A data key saved with save-columns or save-insert-id is, in every later use in its data scope (trx by default, iter if configured), exactly the value that MySQL returned in the last row of that client's most recent execution of the saving statement: whatever the column type, NULL, number of rows, protocol (text or prepared), position among ignored columns, errors and reconnects in between, and other clients that save the same keys at the same time.",
 ["inputs", "histories", "schedules"], "all result sets and column types, all trx files that save and use keys, all interleavings of clients, all recoverable errors in between",
 "Existing tests save and read one integer and one string in the column generator; nothing runs a statement that uses a saved value.",
 ["data/column.go", "client/client.go", "trx/trx.go", "workload/workload.go", "data/scope.go"],
 [("saving", "client.Client.Run rows.Scan and LastInsertId"), ("column generator", "data.Column"), ("output keys", "workload.Allocator.Clients, trx.File.column")],
 ["values of data keys in statements received by the MySQL server, and the rows it returned before"],
 "runtime monitoring: value-provenance oracle; each use in the server's log is compared with the rows the server returned to that session before",
 "Random stages under random delays, errors and reconnects. Result sets without rows and quoted NULL are not judged (no documented value)." + TRUST)

prop("C11", "MySQL receives the SQL text that was written",
 "Every statement reaches MySQL exactly as written in the trx file, apart from documented changes: lines joined by one blank, each data key (or @PREV) replaced in place by a value of its own generator in the documented form (quoted if a string) or by one SQL parameter in a prepared statement, CSV substitutions expanded N times, copy numbers, and copies. Percent signs, quotes, question marks, comments, backslashes and any other text are not changed, also if data key names are prefixes of each other. One prepared statement is made for all copies of a prepared statement.",
 ["inputs", "programs"], "all trx files: any SQL text, data keys, modifiers, substitutions and line layout",
 "Existing tests parse about twenty small files and compare the internal format string, not what MySQL receives.",
 ["trx/trx.go", "client/client.go", "data/generator.go", "config/config.go"],
 [("statement parsing", "trx.File.statements"), ("data substitution", "client.Client.Run"), ("modifier values", "config.Vars")],
 ["statements received by the MySQL server"],
 "runtime monitoring: differential oracle; every received statement is parsed against the text as written in the trx file",
 "Random trx files executed end to end by one client. A doubled percent sign (an escape that existing tests require) and the SQL below an idle modifier are not judged." + TRUST)

prop("C12", "Data limits stop clients exactly when reached",
 "A trx with a rows modifier stops its clients when the statement has written that many rows: exactly (never one statement early or late) with one client, and with an overshoot of less than one statement per client when several clients share it; each copy of a statement has its own limit; rows are those MySQL reports as affected, not rows of failed statements. A table-size or database-size limit never stops clients before the size that MySQL reports reaches the limit, and stops them within a few checks after that; the sizes are of the named table or all tables of the database, refreshed by ANALYZE. With several limits, clients stop when the first is reached, and finch then ends by itself.",
 ["inputs", "histories", "schedules"], "all limits, row counts, client counts, copies, failures and growth histories of tables",
 "No existing test runs a data limit against a server.",
 ["limit/data.go", "client/client.go", "trx/trx.go", "workload/workload.go"],
 [("rows limit", "limit.rows"), ("size limit", "limit.size"), ("combined limits", "limit.or"), ("stopping", "client.Client.Run")],
 ["statements received by the MySQL server after the limit was reached"],
 "runtime monitoring: conservation checker over the server's log; affected rows and reported sizes are compared with the point at which each client stops",
 "Random limits and growth, end to end." + TRUST)

prop("C04", "Clients and stages end when they must, and only then",
 "Every client is active until its client group's or stage's runtime elapses or CTRL-C, whichever is first, and sends nothing afterwards, no matter what it is waiting for at that moment: a slow reply, a rate limit, an idle statement, a lock, a reconnect. Then the next execution group starts (unless the stage's runtime is over), and finch exits by itself with exit code 0. After CTRL-C no further execution group or stage runs, and finch exits promptly, and within its fail-safe time if MySQL does not answer; with --test no statement of any stage is executed.",
 ["schedules", "programs", "crash points"], "all runtimes and moments of CTRL-C, all states that clients can be in, all numbers of clients, groups and stages",
 "No existing test runs a stage with a runtime or sends a signal.",
 ["stage/stage.go", "client/client.go", "compute/server.go", "boot/boot.go"],
 [("runtime and execution groups", "stage.Stage.Run"), ("context-aware waits", "client.Client.Run"), ("signal and exit", "boot.Up")],
 ["time and text of statements received by the MySQL server, process exit"],
 "runtime monitoring: timed trace checker over the server's log under injected signals, stalls, errors and delays",
 "A missed time bound counts only if it is missed again when the case is run again alone; bounds have 1.5 s or more slack." + TRUST)

prop("C13", "Rate limits are never exceeded at any level",
 "QPS and TPS limits of a stage, execution group, client group and client hold at the same time: in no window of time do the clients in a limit's scope execute more statements (or, for TPS, begin more explicit transactions) than the rate allows, however many clients share it, whichever client group of an execution group names it, and whatever delays occur before; limits do not affect clients outside their scope and a limit by itself is reached, not undershot.",
 ["schedules", "configurations"], "all combinations of limits, numbers of clients and groups, all interleavings and delays",
 "The existing test of rate limiters counts the calls of one limiter in one goroutine.",
 ["limit/rate.go", "client/client.go", "workload/workload.go", "stage/stage.go"],
 [("limiter", "limit.rate"), ("combined limiter", "limit.and"), ("waiting", "client.Client.Run")],
 ["times of statements received by the MySQL server"],
 "runtime monitoring: sliding-window rate monitor over the server's log, one for each configured limit",
 "Windows are judged with a constant allowance for tokens that limiters hold; an exceeded bound counts only if it is exceeded again when the case is run again alone." + TRUST)

prop("C18", "Every config value resolves to what the user wrote",
 "Every value that a stage runs with is the one the documented precedence and substitution give: command line over environment over stage file over _all.yaml of the stage's directory (for mysql, params, stats) over defaults; --param over all params; $params.x, ${params.x}, $sys.x and $ENV replaced in every field, in data and reporter params and in SQL modifiers, also several in one value and params made of other params, each by exactly its value (never interpreted again); string-ints as 1,000, 1k, 1KB, 1KiB by their number. Values of one stage or directory never leak into another stage.",
 ["configurations", "inputs"], "all stage files, _all.yaml files, params, environment variables and command lines",
 "Existing tests load a few fixed files and check some fields.",
 ["config/config.go", "config/file.go", "boot/cmdline.go", "boot/boot.go", "trx/trx.go", "compute/server.go"],
 [("loading and precedence", "config.Load, config.Stage.With and CommandLine"), ("substitution and human numbers", "config.Vars"), ("command line", "boot.ParseCommandLine")],
 ["connections and statements received by the MySQL server, report files"],
 "runtime monitoring: differential oracle; the resolved values are chosen first, written in random ways with decoys of lower precedence, and compared with what the MySQL server observes of the run",
 "Random configurations end to end. Merging different reporters of _all.yaml and stage, zero durations, and durations like 5m in params (a documented human number) are not judged." + TRUST)

prop("C20", "Connections use exactly the configured identity, securely",
 "Every connection of a stage is made with exactly the user, password, database, network address and encryption that its configuration says, by the documented precedence: --dsn, mysql.dsn, then the other mysql settings of the stage, _all.yaml, my.cnf and defaults, with password files and any characters in passwords. With TLS configured, no connection is made in clear text or to a server whose certificate does not verify, unless verification is turned off. Settings of one stage do not affect another, and passwords are never printed or written without --debug.",
 ["configurations", "inputs", "fault sequences"], "all combinations of settings and sources, all user names, passwords and databases, all certificates",
 "The existing tests of connections need a MySQL server and are skipped; two tests parse a my.cnf.",
 ["dbconn/factory.go", "dbconn/mycnf.go", "config/file.go", "stage/stage.go", "client/client.go"],
 [("DSN", "dbconn.factory.setDSN"), ("my.cnf", "dbconn.ParseMyCnf"), ("TLS", "config.TLS.LoadTLS"), ("redaction", "dbconn.RedactedDSN")],
 ["handshakes received by the MySQL server", "output and files of finch"],
 "runtime monitoring: the fake MySQL server verifies user, password (challenge response), database, TLS and client certificate of every connection against the settings; taint check of the output for passwords",
 "Random settings end to end, with a private PKI. Databases in odd quoting, ports of my.cnf with host names elsewhere, and timeout-connect are not judged." + TRUST)

prop("C23", "Invalid configuration is rejected before it executes",
 "If a stage file, _all.yaml, param, command line, trx file, SQL modifier, data key, data generator, reporter or MySQL setting is invalid or names something that does not exist, finch says so and exits with an error: it does not crash, hang, ignore it or run with something else. No statement of that stage or of a later stage is executed, and if the defect is in a stage file or param, no statement of any stage; the same holds with --test. Whatever text the files contain, finch does not crash.",
 ["inputs", "configurations"], "all stage files, trx files, params and command lines, and the position of the defect among the stages",
 "Existing tests load valid files and a few that have an unknown data key; what is not rejected, or rejected by a crash or after an earlier stage ran, is not tested.",
 ["config/config.go", "config/file.go", "trx/trx.go", "stage/stage.go", "workload/workload.go", "data/generator.go", "data/integer.go", "stats/reporter.go", "boot/boot.go", "compute/server.go"],
 [("stage file validation", "config.Load, config.Stage.Validate"), ("trx file validation", "trx.File.Load"), ("preparing a stage", "stage.Stage.Prepare, compute.Server.Run")],
 ["process exit and output, statements received by the MySQL server"],
 "runtime monitoring: fault injection into configurations (about 80 kinds of defects, and random textual mutation) with a monitor of exit, output and the MySQL server's log",
 "Valid twins of some of the configurations are run to show that the defect is what was rejected.")

prop("C14", "Reported statistics account for exactly what MySQL executed",
 "The statistics that a stage reports count exactly the statements that MySQL received from its clients with statistics enabled: reads, writes, commits and all of them, per trx file and instance, and every error MySQL returned by its code, none lost, none counted twice, none of another stage or of clients with statistics disabled; with periodic reports, numbered intervals from 1 that follow each other and add up to that. No response time is shorter or longer than the execution can have taken; number of clients, durations and runtime are right. This holds for the local and every remote instance, also when messages with statistics are delayed, lost or repeated.",
 ["schedules", "fault sequences", "programs"], "all workloads, replies, errors, intervals, instances, message delays, losses and repetitions",
 "Existing tests record values by hand in one goroutine; what running clients and instances report has never been compared with what MySQL received.",
 ["client/client.go", "stats/collector.go", "stats/stats.go", "stats/remote.go", "stats/csv.go", "workload/workload.go", "stage/stage.go", "compute/api.go"],
 [("recording", "client.Client.Run"), ("collecting", "stats.Collector.Collect and Stop"), ("sending", "stats.Server"), ("reporting", "stats.CSV")],
 ["report files, statistics messages between instances, statements received by the MySQL server"],
 "runtime monitoring: conservation checker between the fake MySQL server's log and every reported row and every statistics message recorded by a proxy",
 "Real processes. A last interval shorter than half a period is left out by design and so are intervals that only remote instances had when the local one ended; stages that end by runtime may count one more statement per client." + TRUST)

prop("C17", "A stage runs on exactly the configured instances, together, once each",
 "With compute instances, each stage is executed by exactly the configured number of instances, the server's own among them unless disable-local, no instance executing a stage twice and every one all of it with the server's configuration and the server's trx files byte for byte; no instance executes before all have booted; no stage starts before the one before ended on all instances. Clients that cannot boot, restart, or are too many do not disturb this, nor do requests that are delayed, lost or repeated within the documented retries. CTRL-C of the server stops the stage on all instances, clients stop when the server is lost, later stages do not run, and no process hangs.",
 ["schedules", "fault sequences", "configurations", "crash points"], "all numbers of instances, clients and stages, all orders, delays, losses and repetitions of requests, all moments at which a process stops",
 "The existing test boots one server and one client in one process with one stage; it cannot see late, lost or repeated requests, several clients or several stages.",
 ["compute/server.go", "compute/api.go", "compute/client.go", "proto/proto.go", "stage/stage.go"],
 [("instance protocol", "compute.API"), ("stage coordination", "compute.Server.run"), ("client", "compute.Client.run"), ("retries", "proto.Client")],
 ["statements received by the MySQL server, by instance", "HTTP requests between the instances", "process exits"],
 "runtime monitoring: real server and client processes behind fault-injecting HTTP proxies; ordering, exactly-once and termination monitors over the MySQL server's and the proxies' logs",
 "An instance that is lost after it has booted is waited for until CTRL-C; that is documented by the code and not judged." + TRUST)

CLAIMED += ["C14", "C17", "C23", "C20", "C18", "C04", "C13", "C10", "C11", "C12"]
CLAIMED += ["C15", "C16", "C22", "C05", "C06", "C07", "C08", "C09"]

prop("C21", "No data race, crash or deadlock in any run",
 "Whatever a valid configuration combines (any number of clients, groups, stages and instances; shared data keys, row, size, iteration and rate limits, prepared statements, saved columns, periodic statistics and reporters) and whatever MySQL answers (errors, lost connections, results a statement does not call for), however it ends (limits, runtime, CTRL-C), no Finch process has a data race, panics, or hangs; the HTTP API of the server survives concurrent, repeated and malformed requests.",
 ["schedules", "interleavings", "fault sequences"], "all interleavings of clients, the statistics collector, reporters, stage control and HTTP requests",
 "The existing tests run almost everything in one goroutine and are not run with the race detector.",
 ["client/client.go", "stage/stage.go", "stats/collector.go", "stats/stats.go", "data/scope.go", "data/column.go", "limit/rate.go", "limit/data.go", "compute/api.go", "compute/server.go", "compute/client.go", "boot/boot.go"],
 [("clients", "client.Client.Run"), ("stage control", "stage.Stage.Run"), ("shared generators", "data.ScopedGenerator"), ("shared limits", "limit"), ("statistics", "stats.Collector"), ("HTTP API", "compute.API")],
 ["race detector reports, panics and fatal errors in process output", "process termination"],
 "runtime monitoring: Go race detector in the finch binary under stress stages, fault-injecting clusters, raw HTTP protocol clients and the workloads of the other checks, and in a harness around generators and collector; panic and hang monitors",
 "A race of statistics is not counted in a run in which Finch warned that clients did not stop and statistics are not accurate." + TRUST)
CLAIMED += ["C21"]

prop("C24", "Registered data generators and reporters are used as the API says",
 "A Finch binary built with data generators and stats reporters registered through the documented API (data.Register, stats.Register) calls their factories with the configured name, data key and resolved params; every value a generator returned reaches MySQL exactly in the places of the data key's scope, in its format, and no value is lost or comes from elsewhere; run counts passed to a generator are those of the calling client; no generator object is called by two clients at once, and none but shared scopes serves two clients; a reporter gets every interval once, numbered in order, with all statistics, one call at a time, then exactly one Stop. A factory error stops Finch before the stage executes; a name can be registered once only.",
 ["configurations", "schedules", "fault sequences"], "all stages and scopes using registered generators and reporters, all interleavings of clients and statistics",
 "The existing tests call built-in generators and reporters directly; no test registers one and runs it.",
 ["data/generator.go", "data/scope.go", "stats/reporter.go", "stats/collector.go", "trx/trx.go", "workload/workload.go", "client/client.go"],
 [("generator factory", "data.Register and data.Make"), ("reporter factory", "stats.Register and stats.Make"), ("scoped calls", "data.ScopedGenerator"), ("statement format", "trx.File.statements"), ("reporting", "stats.Collector")],
 ["calls of the registered generators and reporters", "statements received by the MySQL server", "process exit and output"],
 "runtime monitoring: a finch binary with logging probe generator and reporter under random stages; provenance, scope, exclusiveness, run count and conservation monitors over the probe's and the fake MySQL server's logs; race detector",
 "Values are unique by construction." + TRUST)
CLAIMED += ["C24"]

prop("C25", "The shipped benchmarks execute the program they document",
 "Each benchmark in benchmarks/ (intro, sysbench, aurora, jcole, xfer), run as documented, executes exactly its documented program: setup first, then the stage, with the schema, statements, transactions and order of its files, the number of clients and the runtime, rows and table sizes its params give, also when they are overridden on the command line; every generated value is within its documented range and length and of its type, values that must be equal, unique or consecutive (ranges, foreign keys, saved columns and insert ids) are, and setup leaves the tables with the rows it promises. MySQL errors, lost connections and CTRL-C in the benchmark are handled as documented, --test executes nothing, and every run ends with the right exit code.",
 ["inputs", "schedules", "fault sequences"], "all shipped benchmarks, params, numbers of clients, command lines, interleavings and fault positions",
 "The existing tests load some of these files; none of the benchmarks is ever executed.",
 ["client/client.go", "stage/stage.go", "workload/workload.go", "trx/trx.go", "config/config.go", "config/file.go", "data/scope.go", "data/integer.go", "data/string.go", "data/id.go", "data/column.go", "limit/data.go", "boot/boot.go"],
 [("stages in order", "compute.Server.Run"), ("execution", "client.Client.Run"), ("transactions", "trx.Load"), ("params", "config.Vars"), ("size limits", "limit.Data")],
 ["statements received by the MySQL server, by session", "contents of the tables", "process exit and output"],
 "runtime monitoring: the real finch binary runs the shipped benchmark files against a fake MySQL server that keeps the tables' rows; trace specification per benchmark written by hand from its documentation",
 "Durations, sizes and numbers of clients are scaled down; the benchmark files themselves are copied as they are." + TRUST)
CLAIMED += ["C25"]
