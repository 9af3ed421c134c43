CHECKS=[
("C01","TLA+ PagedQueue refines AbsQueue (TLC exhaustive); transition-covering walks + random histories run on the real queue and validated by the TLA+ trace spec QueueTrace",
 "exhaustive for page sizes 1-2 and 4-5 keys (thorough: PS<=3, 7 keys); implementation bound by trace validation of every covered (state,op) pair and of long random histories"),
("C02","TLA+ PagedQueue with Restart and Crash actions; restarts and kill points (also at every sqlite commit inside a call) replayed on the real queue, validated by QueueTrace",
 "crash points inside calls at sqlite-commit granularity; orderly restarts with changing page size"),
("C03","TLA+ Buffered (fine-grained model of accept/pop/handler/settle/terminate, invariant Accounted) checked by TLC; covering walks of BufferedWalk + random histories with signals run on a real application, validated by the TLA+ monitor BufferedTrace",
 "model: 3 keys, 1-2 terminations; implementation: every (state,op) pair of the walk graph within the op budget, plus random histories"),
("C04","TLA+ Buffered (InBudget, UsedIsN, MetaKept, ErrAfterBudget) by TLC; walks and failure histories on a real application, validated by BufferedTrace",
 "max_retries 0-5(7), restarts between attempts"),
("C05","TLA+ Buffered (Serial, InOrder, liveness NoStall) by TLC; walks and concurrent bursts on a real application, validated by BufferedTrace",
 "stall = queued work not started within 2 s of an otherwise idle loop"),
("C06","TLA+ Buffered (PauseHolds) by TLC; pause/unpause walks covering the graph on a real application, validated by BufferedTrace","2 keys, all pause operations, then random histories"),
("C07","TLA+ BufferedOps error-queue operations; covering walks and random management histories against a real application, validated by BufferedTrace","3 keys in the graph, up to 26 failed requests in random histories"),
("C08","TLA+ Buffered (sender variant) by TLC; walks and histories with scripted client outcomes and signals on a real application, validated by BufferedTrace","client outcomes scripted at the ClientBase interface"),
("C09","TLA+ BufferedOps sender management; covering walks and random histories against a real application, validated by BufferedTrace","as C07"),
("C10","TLA+ ClientExchange (attempts, late responses, shared connection, heartbeats; invariant Own) by TLC; every reaction script of ClientScripts, faults and concurrent callers run against the real clients under virtual time, validated by ClientTrace",
 "model: 2 calls (thorough 3) x max_retries 2; implementation: all scripts of 1-3 sequential calls (sampled in quick), random concurrent schedules; virtual time, real sockets"),
("C11","TLA+ ClientExchange (Budget, Outcomes, NoneAfter, liveness Ends) by TLC; every reaction script of ClientScripts, outages, drops and concurrent callers run against the real clients under virtual time, validated by ClientTrace",
 "as C10; max_retries 1-4"),
("C12","TLA+ Server (connection tasks, hooks, clients leaving at any moment; InOrder, OnceEach, liveness Answered) by TLC; transition-covering plan ServerWalk and random mixed-transport histories driven over real TCP/UDS/UDP sockets, validated by the TLA+ monitor ServerTrace",
 "model: 2 connections, 3-4 requests; implementation: every (state,op) pair of the plan graph with ~30 kinds of request, up to 7 connections in random histories"),
("C13","TLA+ Server (LogOwn: context per task) by TLC; same drivers with log lines at every await, in threads, sub-tasks, middleware, queue workers and senders, validated by ServerTrace",
 "ids compared on every line of the application's log file"),
("C14","TLA+ Server (HooksInOrder) and ServerOps!Handle (what a middleware plan must do); random plans of 1-5 middlewares over the covering plan, and buffered middleware over BufferedWalk, on real applications, validated by ServerTrace and BufferedTrace",
 "plans mix pass, mutate, replace, re-route, spoil and raise at every hook"),
("C15","TLA+ Stats (calls, counters, gathering, bounded history; HistoryOk, Snap) by TLC; walks covering its graph and random histories of calls, counters and gatherings on a real application under virtual time, validated by the TLA+ monitor StatsTrace (and by ServerTrace for calls arriving over all transports at once)",
 "model: 2 routes, 2 counters, history length 1-2; implementation: history lengths 1-4, nested counter keys, exact p95/p99 on chosen durations"),
("C16","TLA+ ErrorStates by TLC; walks covering its graph and random histories through ErrorStateList and eco.error_states.*, validated by ErrorTrace",
 "model: 2 ids, counts <=2(3); implementation: random ids in mixed case incl. non-ASCII, counts incl. 0 and negative"),
("C17","TLA+ LRURing (the linked ring the code keeps) refines LRU (recency order), TLC exhaustive; every (state,op) pair and random histories run on the real cache, validated by LRUTrace",
 "model: 4 keys, max_size 1-3; implementation: max_size 1-6, iteration interleaved with every other operation"),
("C18","TLA+ Config (effective value per setting from environment levels, file and defaults) with ConfigSpace enumerating every way a setting can be given (TLC: Own, Precedence); every combination per setting is read by real fresh processes and a sample run as real applications, validated by ConfigTrace",
 "all 162 combinations of instance/application/machine unset/empty/set, file absent/silent/set, foreign variables, for each of 16 settings; 4 application names, 4 instance ids"),
("C19","TLA+ Lock (OneRuns, NotStuck, liveness Decides) by TLC; real processes interleaved line by line through the start of an application, killed at every line, with every kind of stale lock file, validated by LockTrace",
 "model: 3 (thorough 4) processes with process-id reuse; implementation: every preemption point of one start, 400 pairs of points (thorough: all), random histories of 5 processes"),
("C20","TLA+ Logging (buffer, level, rotation, shutdown) by TLC; random histories of records, level changes, buffer sizes, shutdowns and kills on the real logger, its files read back and validated by LogTrace",
 "message kinds incl. unencodable text, mutable arguments, threads; buffer 0-50, rotation sizes down to one record per file"),
("C21","TLA+ Shipper (writer, rename-by-rename rotation, name-by-name search, post, save, kills, inode reuse; InOrder, Once, liveness Delivered) by TLC; the built shipper held before each of its file-system calls, the application rotating and writing in between, killed at every call, endpoint failing in every way, validated by ShipperTrace",
 "model: 3 lines, 3 files, 1 kill, 1 failed post (thorough 4/5/2/1); implementation: ~330 histories (thorough ~4500) with ~50000 held calls, plus the real RotatingFileHandler racing a free-running shipper"),
("C22","TLA+ Lifecycle (start, bind, work, signals at any step, failing tasks, lingering clients, several lives; Kept, Ended, liveness Ends) by TLC; a real application with TCP, UDP and UDS ended in every situation by every signal, at arbitrary lines of its code, by failing tasks, binds and bodies, restarted and asked what it still has, validated by LifecycleTrace",
 "model: 3 items, 3 lives, 2 signals (thorough 4/4/3); implementation: ~340 histories (thorough ~5000) with signals at ~190 different lines of code; an application counts as hung after 12 s"),
("C23","TLA+ Cli (what a command line asks for) with CliSpace enumerating command lines and CliSystem (tool, server, answers; TLC); every command line run by the real tools against a scripted server, validated by CliTrace; management histories done by command line on a real application, validated by BufferedTrace",
 "~1400 command lines (48 as separate processes, the rest through the tools' main), 24 histories; server answers positive, negative, late, none"),
("C24","TLA+ Tracing (receive and process spans, shared span keys, restarts; OneSpanEach, Below) by TLC; random histories of overlapping requests on a real application exporting to a collector, validated by the TLA+ monitor TracingTrace",
 "4 routes, up to 12 span keys, 64 histories of 40 operations; spans of requests cut off by a termination are not judged"),
("C25","TLA+ Metrics (discovery, translation) with MetricsSpace enumerating the variables and MetricsSystem (services, scraper, gateway; Exact, NoEco, liveness Goes) by TLC; the real scraper on virtual time among scripted services over TCP, UDP and UDS and a gateway, validated by the TLA+ monitor MetricsTrace",
 "716 variables in ~60 environments of up to 12 services, 3-6 cycles each (thorough: six times as many); seven ways for a service to fail, five for the gateway"),
("C26","TLA+ Chain (two applications, connection, terminations; NoLoss, NotTooOften, Known, liveness Arrives) by TLC; random histories on two real application processes with a proxy that loses, delays, cuts and refuses, terminations of both, validated by the TLA+ monitor ChainTrace",
 "up to ~40 requests per history, five kinds of client, 40 (thorough: 300) histories; timing: an answer within 40% of the client's time-out is in time"),
("C27","TLA+ Declare over DeclareOps (what a signature, a declaration and a sender call mean; FirstWins, OnceEach, Only, FreshKeys) by TLC; randomly declared endpoints and senders in real applications that call themselves over TCP, UDP and UDS, validated by the TLA+ monitor DeclareTrace",
 "model: 2 routes, 2 declarations of every signature, 2 requests; implementation: 16 (thorough: 120) applications with up to 60 declarations and 70-100 calls each; **kwargs contents and positional-only parameters not judged"),
("C28","TLA+ SpanKeys (identity over chains of encodings; Identity, Distinct; sanity: a lossy encoding is told) by TLC; its transition cover replayed on the real span keys through 17 forms, validated by the TLA+ monitor SpanKeysTrace",
 "model: 2 x 2 keys, 4 forms, complete; implementation: every ordered pair of forms, the cover with random forms (thorough: 15x as many), 40+ classes of malformed input; sampled values"),
("C29","TLA+ Detached (jobs nobody waits for, garbage collection at any point; NeverLost, Once, NothingLeft; sanity: a job that is not kept is lost) by TLC; its transition cover replayed on asyncio and uvloop with real garbage collection, validated by the TLA+ monitor DetachedTrace",
 "model: 2 jobs, up to 2 waits each, complete; implementation: the cover and 150 (thorough: 3000) histories of up to 60 steps; no termination while a job is unfinished"),
("C30","TLA+ Background (tasks next to requests, ends, failures, signals, clean-ups that queue, lives; Ready, Cleaned, Kept, OnlyThen, Alone, liveness Ends; three sanity switches) by TLC; its transition cover and longer lives replayed on real applications that are started again, validated by the TLA+ monitor BackgroundTrace",
 "model: 2 (thorough: 3) tasks, 2 lives; implementation: 120 (thorough: all) lives of the cover and 80 (thorough: 1500) random ones with up to 6 tasks; clean-ups wait for nothing but the queueing of a message; POSIX signals"),
]
import json,os
_ids=[json.loads(l)["id"] for l in open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"))]
NOT_APPLICABLE=[(i,"check under construction") for i in _ids if i not in [c[0] for c in CHECKS]]
NOTES="TLA+ with TLC. check.py runs one property; see DESIGN.md."
