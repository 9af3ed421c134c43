import json
P=[]
def p(id,title,statement,over,text,why,files,state,mech,observe,hook="none: public API and sockets are enough"):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=n,meaning=m,where=w) for n,m,w in state],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=[observe],hook_needed=hook)))
Q="ekosis/queues/paginated_queue.py"; PQ="ekosis/queues/pending_queue.py"
BH="ekosis/requests/buffered_handler_base.py"; BS="ekosis/sending/buffered_sender_base.py"; AB="ekosis/application_base.py"
p("C01","A persisted queue is an exact FIFO of unique span keys at every size",
 "For every page size and every history of push, pop, pop-by-span-key, inspect-by-span-key, first-N-span-keys, clear, size and is_empty calls, a PaginatedQueue answers exactly as one in-order list with unique span keys would: items leave in push order, each exactly once and with the payload that was pushed. Pushing a span key that is still queued changes nothing, and looking (inspect, size, first-N) never changes anything.",
 ["inputs","histories","configurations"],"all page sizes >= 1, all operation histories, all payloads a pydantic model can carry through JSON",
 "the unit tests push a fixed number of items in one pattern; the front page / database / back page split only goes wrong for particular interleavings of pops, keyed pops and page spills",
 [Q],[("front page","items popped from, in RAM",Q),("database","middle of the queue, ordered by record id",Q),("back page","items pushed to, in RAM; may be the same object as the front page",Q)],
 [("PaginatedQueue.pop/push page rotation",Q),("record id allocation on page writes",Q)],"return values of the PaginatedQueue public methods")
p("C02","Queue contents survive orderly restart exactly, and a crash keeps the middle",
 "Shutting a queue down and opening the same file again, any number of times, at any fill level and with the same or another page size, yields exactly the same items with the same payloads in the same order. If the process is killed without shutdown at any point, what the file yields is an in-order, duplicate-free, gap-free run of the items that were still queued, missing at most page_size items from the front and at most page_size from the back, and never an item that had already been popped or cleared.",
 ["histories","crash_points","configurations"],"all operation histories with orderly restarts and kills placed anywhere, all page sizes",
 "the unit tests restart once from one state; they never kill the process and never compare the order after several restarts",
 [Q],[("sqlite table queued_objects","what survives the process",Q)],[("shut_down page write-out",Q),("initial load of front and back page",Q)],"contents of a queue re-opened on the file (or on a copy of the file taken at the kill point)")
p("C03","A request accepted by a buffered endpoint is never lost or changed",
 "Once a buffered endpoint has answered a request with success, that request stays accounted for - waiting, in the handler, in the error queue, successfully processed, or removed by an operator - through any mix of handler successes, failures and exceptions, SIGTERM/SIGINT/SIGHUP at any moment (also in the middle of a handler), and restarts. After a handler has returned True for it, the endpoint does not hand it to the handler again, and the payload and span key the handler receives are always those of the accepted request.",
 ["histories","schedules","crash_points","inputs"],"all histories of accepts, handler outcomes, operator actions, termination signals and restarts",
 "tests send a handful of requests with well-behaved handlers and never stop the application while a handler is running",
 [BH,PQ,AB,"ekosis/requests/buffered_handler.py"],[("pending queue","accepted, not yet processed",PQ),("error queue","given up on",PQ),("item in flight","popped and handed to the handler",BH)],
 [("run(): push then acknowledge",BH),("worker loop outcome handling",BH),("application shutdown",AB)],"handler invocations, response status on the wire, eco.buffered_handler.* answers of a real application process")
p("C04","Buffered endpoint retries: exact budget, then the error queue",
 "A buffered request whose handler keeps returning False is handed to the handler exactly max(1, max_retries) times, each time re-joining the back of the pending queue, and then appears exactly once in the error queue; a request whose handler raises goes to the error queue without killing the endpoint. Used-up retries and the middleware metadata attached at push survive retries and restarts (metadata also survives reprocessing), and a reprocessed request starts with a fresh retry budget.",
 ["histories","configurations"],"all max_retries values, all failure patterns, restarts between attempts, reprocessing",
 "tests use one max_retries value and a handler that always fails; restart between attempts and metadata across reprocess are never exercised together",
 [BH,PQ],[("retries","attempts used, stored with the entry",PQ),("metadata","dict stored with the entry",PQ)],[("retry accounting in worker loop",BH),("move_all/one_error_to_pending",PQ)],"number and order of handler calls, retries/metadata seen by buffered middleware, queue sizes")
p("C05","Buffered endpoint works one request at a time, in order, without stalling",
 "For each buffered endpoint at most one request is being handled at any time, requests that have not been retried, reprocessed or interrupted by a termination are handled in the order they were accepted, and whenever processing is not paused and something is pending the endpoint goes on to handle it - whatever the timing of acceptance, pausing, failures, exceptions and restarts. Different buffered endpoints do not block one another.",
 ["schedules","histories"],"all interleavings of arrivals, handler completions, pause/unpause and restarts",
 "tests observe only the final queue sizes after sleeping, not the order or the concurrency of handler calls",
 [BH],[("worker task","the single consumer of the pending queue",BH)],[("__check_process_queue worker start",BH),("worker loop",BH)],"start and end of handler calls in a real application process")
p("C06","Pausing a buffered endpoint stops exactly what it says",
 "While receiving is paused every request to the buffered endpoint is refused with the server-busy status (500) and leaves no trace, and after unpausing requests are accepted again; while processing is paused no handler call starts (one already running may finish) and requests are still accepted. The eco.buffered_handler receiving/processing/all pause and unpause endpoints change exactly the named flags, report them truthfully, and nothing else - in particular no error-queue operation - changes them.",
 ["histories","schedules"],"all histories mixing pause/unpause commands with traffic, handler completions and error-queue operations",
 "tests pause and unpause once each on an idle queue",
 [BH,"ekosis/state_keepers/buffered_handler_keeper.py","ekosis/standard_endpoints/buffered_handler_manager.py","ekosis/servers/server_base.py"],[("_receiving_paused","refuse requests",BH),("_processing_paused","do not start handlers",BH)],[("pause/unpause methods",BH),("status mapping of the paused exception","ekosis/servers/server_base.py")],"wire responses and handler calls of a real application process")
p("C07","Error-queue management of a buffered endpoint has exactly its stated effect",
 "eco.buffered_handler.errors.* operate on exactly the error queue of the named endpoint: get_first_10 lists the oldest ten (or fewer) span keys in order, inspect returns a request without removing it, pop returns and removes it, reprocess.one and reprocess.all move it or all of them (in order) to the back of pending, clear empties the error queue, and every answer reports the true sizes and the request data as it was sent. Unknown endpoints or span keys are answered with a message and change nothing, and pending or other endpoints' queues are never disturbed.",
 ["histories","inputs"],"all histories of management commands interleaved with traffic, all payloads including empty ones, any number of errored requests",
 "tests run each management endpoint once against one known request",
 ["ekosis/standard_endpoints/buffered_handler_manager.py","ekosis/state_keepers/buffered_handler_keeper.py",BH,PQ],[("error queue","requests given up on",PQ)],[("keeper methods","ekosis/state_keepers/buffered_handler_keeper.py")],"wire responses of the standard endpoints")
p("C08","A buffered sender never loses a message and retries only retryable failures",
 "A message accepted by a buffered sender is delivered through its client in order, one at a time, and stays accounted for (waiting, being sent, in the error queue, or delivered) across termination signals at any moment (also during the wait period or mid-send) and restarts; once delivered it is not sent again. ServerBusy and communications-max-retries failures are retried from the back of the queue, max(1, max_retries) attempts in total, before the error queue; every other failure goes to the error queue at once; payload, span key and used retries are preserved throughout.",
 ["histories","schedules","crash_points","fault_sequences"],"all histories of enqueues, send outcomes, pauses, signals and restarts",
 "tests send to one dead server and look at the error queue; no signal is delivered while a send is in flight",
 [BS,PQ,AB,"ekosis/sending/buffered_sender.py"],[("pending/error queues","as for endpoints",PQ),("item in flight","popped, in wait period or being sent",BS)],[("__do_queue_processing outcome handling",BS)],"calls arriving at the client, eco.buffered_sender.* answers")
p("C09","Buffered sender pause and error-queue management do exactly what they state",
 "While a buffered sender's send process is paused no send starts and messages are still accepted; only the pause/unpause endpoints change that flag, and unpausing resumes sending. eco.buffered_sender.errors.* list (oldest ten in order), inspect, pop, reprocess (one, all in order) and clear exactly the error queue of the named sender, report true sizes and the message as enqueued, and answer unknown senders or span keys with a message and no effect.",
 ["histories","inputs"],"all histories of management commands interleaved with sends, all payloads",
 "tests run each management endpoint once against one known message",
 ["ekosis/standard_endpoints/buffered_sender_manager.py","ekosis/state_keepers/buffered_sender_keeper.py",BS],[("_sending_paused","do not start sends",BS)],[("keeper methods","ekosis/state_keepers/buffered_sender_keeper.py")],"wire responses of the standard endpoints, calls arriving at the client")
p("C10","A client call returns the response to its own request and no other",
 "For every client (transient and persisted TCP/UDS, UDP), every send_message call that returns normally returns the server's response to that very request, under any mix of concurrent callers on one client, slow or late responses, timeouts, retries, dropped connections and heartbeats. A response that arrives after its request timed out is never delivered to another request.",
 ["schedules","fault_sequences","histories"],"all interleavings of concurrent calls, server delays relative to the timeout, disconnects and heartbeats",
 "tests call clients one at a time against a prompt server",
 ["ekosis/clients/client_base.py","ekosis/clients/stream_client_base.py","ekosis/clients/persistent_stream_client_base.py","ekosis/clients/datagram_client_base.py"],[("open connection / socket","carries requests and responses","ekosis/clients/persistent_stream_client_base.py")],[("exchange serialisation and reconnect","ekosis/clients/persistent_stream_client_base.py"),("datagram response future","ekosis/clients/datagram_client_base.py")],"return value of send_message against what a scripted server sent")
p("C11","A client call ends within its attempt budget with the documented outcome",
 "Every send_message call finishes: it transmits the request at most max_retries (1 or more) times (each attempt, connecting included, bounded by the timeout, attempts separated by the retry delay), stops transmitting after the first response, and raises CommunicationsMaxRetriesReached when all attempts failed retryably and CommunicationsNonRetryable on a non-retryable failure such as a refused connection. A non-zero response status raises the exception that belongs to that status and is never retried, and a persisted client reconnects after its connection was dropped.",
 ["fault_sequences","configurations","schedules"],"all sequences of per-attempt faults (no answer, late answer, closed or refused connection, error status) for all max_retries",
 "tests cover the success path and one refused connection",
 ["ekosis/clients/client_base.py","ekosis/clients/stream_client_base.py","ekosis/clients/persistent_stream_client_base.py","ekosis/clients/datagram_client_base.py","ekosis/exceptions/response.py"],[("retry count","attempts used by this call","ekosis/clients/stream_client_base.py")],[("_send_message_retry_loop","ekosis/clients/stream_client_base.py"),("generate_response_exception","ekosis/clients/client_base.py")],"transmissions seen by a scripted server, outcome and virtual time of send_message")
p("C12","Every request gets exactly one correct response, in order",
 "On TCP and UDS every complete request line (up to the 64 KiB stream limit) on a connection is answered by exactly one response line, in request order, carrying that request's span key (when it had a readable one) and the status that describes its outcome: 0 with the endpoint's data, 100 for text that is not JSON, 300 for a failed validation, 400 for an unknown route key, 500 when receiving is paused, 600 for a declared processing failure, 999 for any other exception; UDP answers each request datagram once likewise. On TCP and UDS ENQ lines are answered with ACK, and neither malformed input, failing handlers nor disconnecting clients affect later requests, other connections or the server.",
 ["inputs","histories","schedules"],"all byte streams split over any writes and connections, all outcome kinds",
 "tests send well-formed requests one at a time plus a few malformed ones",
 ["ekosis/servers/server_base.py","ekosis/servers/stream_server_base.py","ekosis/servers/json/udp.py","ekosis/requests/request_router.py"],[("connection","sequence of lines read and answered","ekosis/servers/stream_server_base.py")],[("_route_request status mapping","ekosis/servers/server_base.py"),("connection loop","ekosis/servers/stream_server_base.py")],"bytes on the sockets of a real application process")
p("C13","Handlers, senders and log lines always see their own request's span key",
 "At every point during the handling of a request - in the endpoint, its middleware, after awaiting, in buffered processing and its retries - the span key passed to the handler and the trace and span ids stamped on log lines are those of that request, no matter how many other requests are being handled concurrently. Outside any request log lines carry none, and the logged ids are those current when the line was logged.",
 ["schedules"],"all interleavings of concurrently handled requests on all transports and buffered workers",
 "tests handle one request at a time and never check log lines of overlapping requests",
 ["ekosis/requests/request_context.py","ekosis/servers/server_base.py",BH,"ekosis/logs/otlp_formatter.py","ekosis/logs/buffered_rotating_file_handler.py"],[("current span key","context variable per task","ekosis/requests/request_context.py")],[("set/reset around routing and processing","ekosis/servers/server_base.py")],"span_key parameter inside handlers, log file lines")
p("C14","Middleware hooks run once, in registration order, and their results count",
 "For every request before_routing runs once per registered middleware in registration order before the endpoint, and after_routing once per middleware in registration order after it; each receives what the previous one returned, and the endpoint and the client get the final DTOs. For buffered endpoints before_push runs once at acceptance and the merged metadata (last one wins) is what before_process and after_process of every attempt receive, with the true retry count and outcome, in registration order.",
 ["histories","configurations","inputs"],"all numbers of middlewares, all DTO replacements, all buffered attempt histories",
 "tests register one or two recording middlewares and check call counts",
 ["ekosis/middleware/manager.py","ekosis/middleware/buffered_middleware_manager.py","ekosis/requests/request_router.py",BH],[("middleware list","registration order","ekosis/middleware/manager.py")],[("run_before_routing / run_after_routing","ekosis/middleware/manager.py"),("collect_push_metadata","ekosis/middleware/buffered_middleware_manager.py")],"hook calls recorded by middlewares, endpoint input, wire response")
p("C15","Statistics count every successful call exactly once and keep bounded history",
 "At any time the current statistics show, per endpoint, exactly the number of successfully answered calls since the last gathering (the call that reads the statistics may already be counted in its own answer), p95/p99 over exactly those calls' durations (-1 when there were none), user counters with every increment/decrement/set applied, and the true sizes of all buffered queues. Each gathering period appends one snapshot, newest first, equal to the statistics at that moment and unaffected by anything later, the history keeps the newest history_length snapshots, and counting restarts from zero after each gathering.",
 ["histories","schedules","configurations"],"all histories of calls, counter updates, gatherings and queries, all history lengths",
 "tests read the statistics after one or two calls and one gathering period",
 ["ekosis/state_keepers/statistics_keeper.py","ekosis/standard_endpoints/statistics.py","ekosis/servers/server_base.py"],[("current statistics","running counters","ekosis/state_keepers/statistics_keeper.py"),("history","snapshots newest first","ekosis/state_keepers/statistics_keeper.py")],[("gather_statistics","ekosis/state_keepers/statistics_keeper.py")],"StatisticsKeeper public methods and eco.statistics.get")
p("C16","Error states keep exact case-insensitive counts",
 "For every history of increments and clears, each error id (compared without regard to case) has a count equal to its increments minus what was cleared, never below zero; clearing some or all of one id (through the list or eco.error_states.clear, where count 0 means all) affects no other id. Exactly the ids with a positive count are reported, with the description given when the id was first raised.",
 ["histories","inputs"],"all histories of increment / clear_some / clear_all over any ids",
 "tests increment and clear a couple of ids once",
 ["ekosis/state_keepers/error_state_list.py","ekosis/state_keepers/error_state_keeper.py","ekosis/standard_endpoints/errors.py"],[("error counts","per upper-cased id","ekosis/state_keepers/error_state_list.py")],[("clear_some clamping","ekosis/state_keepers/error_state_keeper.py")],"ErrorStateList methods and eco.error_states.* responses")
p("C17","The LRU cache returns latest values and evicts exactly the least recently used",
 "For every history of inserts, reads, deletes and iteration the cache holds at most max_size entries, a key that is present yields the value last stored for it, and iterating or listing shows each present entry exactly once. An entry disappears only when it is deleted or when inserting a new key into a full cache, which evicts exactly the entry whose last use (store or successful read) is the oldest.",
 ["histories","configurations"],"all operation histories, all max_size >= 1",
 "tests use one fixed sequence; linked-list corruption shows only after particular get/insert/delete orders",
 ["ekosis/cacheing/lru_cache.py","ekosis/cacheing/cached_item.py"],[("ring of nodes","recency order","ekosis/cacheing/lru_cache.py")],[("insert / move to head / evict","ekosis/cacheing/lru_cache.py")],"public methods of LRUCache")
p("C18","Configuration resolves by the documented precedence for every setting",
 "For every combination of places a setting is given, the effective value is the one from the most specific environment level - instance over application over machine over built-in default (an empty variable counts as unset; TCP, UDP and UDS exist at instance level only) - and, when a configuration file gives the setting, the file's value, while whatever the file does not mention keeps its environment value; EXTRA variables follow the same levels. An unset setting never takes the value of another application or instance, and an invalid value is refused instead of being silently replaced.",
 ["configurations","inputs"],"all combinations of levels per setting, all application names and instance ids, with and without file",
 "tests run three fixed configurations",
 ["ekosis/configuration/config_models.py","ekosis/configuration/argument_parser.py"],[("AppConfiguration","effective settings","ekosis/configuration/config_models.py")],[("environment lookup by level","ekosis/configuration/config_models.py")],"AppConfiguration() attributes in a fresh process")
p("C19","At most one live process per application instance",
 "While a process of application A instance I is running, every further start of A with instance I (same lock directory) is refused with InstanceAlreadyRunningException before it touches sockets or queues, also when starts race; other instances and applications are not affected. A lock left behind by a process that is gone - however it ended, and whatever state it left the file in - never prevents a start.",
 ["schedules","crash_points","histories"],"all interleavings of starts, exits and kills of several processes",
 "tests never start two processes of one instance",
 [AB],[("lock file","pid of the running instance",AB)],[("__lock_file_check",AB)],"exit status / exception of application starts")
p("C20","The log keeps every enabled record once, in order, and nothing else",
 "Every record at or above the configured (or later set) level is written to the log file set exactly once and in emission order - after a flush at the latest, with any buffer size including changes of it at run time and across rotations as long as backups remain - and records below the level are not written. At most buffer-size records are held back, at most max_files rotated files are kept, and each line is one JSON record with the message, severity, timestamp and ids of its record.",
 ["histories","configurations","inputs"],"all histories of records, level changes, buffer-size changes and flushes, all rotation sizes",
 "tests only check that the management endpoints answer",
 ["ekosis/logs/logger.py","ekosis/logs/buffered_rotating_file_handler.py","ekosis/logs/otlp_formatter.py","ekosis/standard_endpoints/log_manager.py"],[("buffer","records emitted but not yet written","ekosis/logs/buffered_rotating_file_handler.py")],[("flush / capacity","ekosis/logs/buffered_rotating_file_handler.py")],"contents of the log files")
p("C21","The log shipper delivers every line in order across rotation, outage and restart",
 "From the moment the shipper watches a log file, every complete line written to it is posted to the endpoint at least once, in file order and with its time, severity, text, ids and attributes unchanged, exactly once while nothing fails: across any number of rotations between two looks (as long as the rotated file still exists), endpoint outages and failures of any kind, and the shipper being killed at any point and restarted; a line being written is never shipped in part, and a line that is no log record is shipped as text and neither stops the shipper nor the lines after it.",
 ["histories","fault_sequences","crash_points"],"all histories of appends, rotations, endpoint failures and shipper restarts",
 "the one test rotates a file once with the endpoint always up",
 ["ekosis_log_shipper/src/tracked_file.cpp","ekosis_log_shipper/src/main.cpp"],[("file position and inode","what has been read","ekosis_log_shipper/src"),("state database","position delivered","ekosis_log_shipper/src")],[("poll / post / save loop","ekosis_log_shipper/src/main.cpp")],"requests received by a fake HTTP endpoint")
p("C22","A termination signal or fatal error always ends in an orderly shutdown",
 "Whenever a running application receives SIGTERM, SIGINT or SIGHUP - idle, awaiting, or in the middle of a handler that computes without awaiting - or a background task or the body of the application context raises, the process ends by itself promptly, its servers stop, and both queues of every buffered endpoint and sender are written out so that a restart continues with exactly what was queued.",
 ["schedules","crash_points","fault_sequences"],"signal arrival at any moment of any workload, any of the three signals, any failing task",
 "tests stop the applications only after the last assertion and never look at what is left",
 [AB],[("running tasks","servers, workers, user tasks",AB)],[("__handle_exit_signal",AB),("__exit__ / __do_shutdown",AB)],"exit of a real application process and what a restarted one reports")
p("C23","Every command line of the operator tools does exactly what it says",
 "For every command line of the four operator tools (buffered endpoint manager, buffered sender manager, statistics, log): it is either refused with a non-zero exit status and sends nothing, or sends exactly the requests its flags name, in order, to the address given, and prints each answer. It ends with 0 exactly when the application answered every request positively. Queue management done by command line has the same effect on a running application as the corresponding eco.* requests.",
 ["inputs","histories"],"all combinations of tool, transport, address, flags and values; all management histories",
 "no test runs a command line tool",
 ["ekosis/cli/bem.py","ekosis/cli/bsm.py","ekosis/cli/stat.py","ekosis/cli/log.py","ekosis/cli/shared_argument_parser.py"],[("command line","tool, address, flags and values","ekosis/cli")],[("flag to request mapping","ekosis/cli/bem.py"),("flag to request mapping","ekosis/cli/bsm.py")],"exit status, output and what a server receives")
p("C24","Traces show each request and each processing attempt once, linked",
 "With the OpenTelemetry middleware, every answered request yields exactly one receive span in the trace given by its span key and below that span id, and every attempt of a buffered endpoint yields exactly one process span with its retry count and outcome below the receive span of the request that was accepted. This holds also when requests share a span key, overlap, are processed after a restart, or finish just before the application is terminated in an orderly way; no other spans appear, and all carry the service's name.",
 ["schedules","histories"],"all interleavings of requests with equal and different span keys, all attempt histories, restarts",
 "the tests never initialise tracing",
 ["ekosis_otlp_traces/ekosis_otlp_traces","ekosis/middleware"],[("open spans","per request","ekosis_otlp_traces/ekosis_otlp_traces")],[("before_routing / after_routing / before_push / after_process","ekosis_otlp_traces/ekosis_otlp_traces")],"spans posted to an OTLP collector")
p("C25","The Prometheus bridge publishes what each local service reports, every cycle",
 "For every environment the scraper polls exactly the services whose ECOENV_TCP/UDP/UDS variables name this machine, once per gather period, and pushes for each one that answered exactly the documented metrics of its gathered statistics - every endpoint and queue outside eco.*, whatever its route key, and every numeric custom statistic - under the identity it reported with health 1, and for each other only health 0. Whatever one service reports or fails to do, and whatever the gateway does, changes nothing for the other services, for later cycles or for the scraper's own endpoints.",
 ["configurations","inputs","histories","fault_sequences"],"all sets of variables, all statistics, all histories of services and gateway failing and recovering",
 "no test runs the scraper",
 ["ekosis_prometheus/ekosis_prometheus/service_discovery.py","ekosis_prometheus/ekosis_prometheus/stats_translator.py","ekosis_prometheus/ekosis_prometheus/scraper.py"],[("targets","services found","ekosis_prometheus/ekosis_prometheus/scraper.py")],[("discover_local_services","ekosis_prometheus/ekosis_prometheus/service_discovery.py"),("translate_gathered_stats","ekosis_prometheus/ekosis_prometheus/stats_translator.py")],"requests received by services, pushes received by a Pushgateway")
p("C26","What one application hands a sender arrives at the other or is kept as failed",
 "A request enqueued on a buffered sender of one application for a buffered endpoint of another is, whatever the connection between them loses, delays, cuts off or refuses, however either side fails, pauses or is overloaded, and however often either application is terminated and started again, in the end handled by the other's handler with unchanged data and span key, or listed in an error queue for a reason, from where reprocessing gets it through. It is sent and handled again only where the sender could not know whether it had arrived.",
 ["schedules","fault_sequences","histories"],"all faults of the connection, failures, pauses and terminations of both applications, in any order",
 "no test connects a buffered sender to an application, nor disturbs a connection or restarts a side",
 ["ekosis/sending/buffered_sender_base.py","ekosis/requests/buffered_handler_base.py","ekosis/clients","ekosis/servers","ekosis/queues"],[("pending and error queues","of the sender and of the endpoint","ekosis/queues/pending_queue.py")],[("__do_queue_processing","ekosis/sending/buffered_sender_base.py"),("_send_message_retry_loop","ekosis/clients")],"answers, traffic on the wire, handler calls and queue listings of two running applications")
p("C27","A declared endpoint or sender does what its declaration says",
 "A request for a route key runs the function that was first declared for it exactly once, whatever its signature, with those of dto and span_key it declares and its own defaults for the rest: dto is of the declared type with the request's data, span_key is the request's. A second declaration of a route key is refused and changes nothing, and the declared function can still be called directly. A sender passes its arguments to its function unchanged and sends what the function returns, once, to its route key, with the span_key given by keyword or else one that no other request has, and gives the caller a response of the declared type (a buffered sender returns as soon as the message is queued).",
 ["inputs","configurations","histories"],"all signatures of endpoint and sender functions, orders of declarations, argument and span key combinations, over every kind of client",
 "tests declare a handful of functions of one shape",
 ["ekosis/requests/endpoint.py","ekosis/requests/buffered_endpoint.py","ekosis/requests/standard_handler.py","ekosis/requests/buffered_handler.py","ekosis/requests/request_router.py","ekosis/sending/sender.py","ekosis/sending/sender_base.py","ekosis/sending/buffered_sender.py","ekosis/clients/client_base.py"],[("routing table","route key to handler","ekosis/requests/request_router.py")],[("endpoint","ekosis/requests/endpoint.py"),("buffered_endpoint","ekosis/requests/buffered_endpoint.py"),("sender","ekosis/sending/sender.py")],"calls of the declared functions, arrivals seen by a middleware, values returned to callers")
p("C28","A span key is one identity in every form it takes",
 "A span key stands for the same pair of a trace id and a span id in every form it travels in (bytes, text, JSON, request, response, queue entry, integers, hexadecimal, copies), through any chain of conversions, and each form is exactly the documented one (big endian, zero padded, 16 + 8 bytes). Two span keys are equal, and the same key of a mapping, exactly when both halves are equal; generated ones are different. What is no span id (wrong length, out of range, not hexadecimal digits) is refused and never becomes another span key.",
 ["inputs","histories"],"all chains of conversions and comparisons over span keys with shared halves, extreme values and leading zeros; all malformed inputs by class",
 "tests convert a few random keys once",
 ["ekosis/data_transfer_objects/span_id.py","ekosis/data_transfer_objects/json_protocol.py"],[("SpanKey","identity of a request","ekosis/data_transfer_objects/json_protocol.py")],[("SpanId","ekosis/data_transfer_objects/span_id.py"),("from_bytes, from_hex, bytes, __eq__, __hash__","ekosis/data_transfer_objects/json_protocol.py")],"values returned by the public constructors and conversions")
p("C29","Work handed over to run later is done once, to its end, and nothing is left",
 "A function called through run_soon, or a coroutine given to fire_and_forget_task, starts after the caller went on, with the arguments (positional and keyword) and the context it was called with, and runs to its end exactly once although nobody keeps the task: not garbage collection, the end or cancellation of the caller, nor other such work failing or finishing stops it. When it is over nothing of it is kept.",
 ["schedules","histories"],"all interleavings of handing over, waiting, finishing, failing and garbage collection for several such jobs, on both event loops",
 "whether an unreferenced task survives depends on when garbage is collected",
 ["ekosis/util/fire_and_forget_tasks.py"],[("FIRE_AND_FORGET_TASKS","tasks kept until they are done","ekosis/util/fire_and_forget_tasks.py")],[("run_soon, fire_and_forget_task","ekosis/util/fire_and_forget_tasks.py")],"starts, ends, arguments and remains of the jobs")
p("C30","Background tasks of an application live exactly as long as it does",
 "Every task that an application adds in setup_tasks has started before its first request is served and runs next to its endpoints until it ends by itself (which changes nothing else), fails (which ends the application) or the application ends, in which case it is cancelled, exactly then and exactly once. However the application ends, every task's clean-up runs before the queues are written out, and a message that it gives to a buffered sender is in that sender's queue in the next life.",
 ["schedules","fault_sequences","histories"],"all sets of tasks with all interleavings of progress, normal ends, failures, requests and termination signals, over several lives",
 "tests start one application without tasks of its own and kill it",
 ["ekosis/application_base.py","ekosis/sending/buffered_sender_base.py","ekosis/requests/buffered_handler_base.py"],[("tasks","what the application's gather runs","ekosis/application_base.py")],[("setup_tasks","ekosis/application_base.py"),("__start","ekosis/application_base.py")],"starts, progress, cancellations of the tasks; exit status; queue sizes after a restart")
open(__import__("os").path.join(__import__("os").path.dirname(__import__("os").path.abspath(__file__)),"..","properties.jsonl"),"w").write("".join(json.dumps(x)+"\n" for x in P))
import sys
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
    n=x["statement"].count(". ")+1
    print(x["id"],len(x["title"]),n)
