"""Source of properties.jsonl (run once after editing)."""
import json
Q = "ekosis/queues/paginated_queue.py"
PQ = "ekosis/queues/pending_queue.py"
HB = "ekosis/requests/buffered_handler_base.py"
SB = "ekosis/sending/buffered_sender_base.py"
P = []


def p(id, title, statement, over, text, why, files, mech):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}})


p("C01", "A persistent queue conserves its messages",
  "Whatever sequence of pushes, pops, lookups by key, clears, clean shutdowns and restarts a persistent queue goes through, every message pushed and not yet taken out is in it exactly once, with the payload and key it was pushed with, and the reported size is the number of messages in it. A lookup by key changes nothing, and taking out by key removes exactly the message with that key.",
  ["histories", "inputs"], "every history of operations, every queue length relative to the page size, every payload",
  "Messages move between two in-memory pages and a database table at thresholds that depend on the page size and the history; tests visit a few lengths.",
  [Q], [("push/pop/pop by key/size/clear/shut_down of the paginated queue", Q), ("page operations", Q)])
p("C02", "A persistent queue is first in, first out, also across pages and restarts",
  "Messages leave a persistent queue in the order in which they were pushed, however they were spread over the front page, the stored pages and the back page, and also when the queue was shut down cleanly and loaded again in between. Taking a message out by key does not change the order of the others.",
  ["histories", "inputs"], "every history of pushes, pops, shutdowns and restarts, every queue length",
  "Order can only break at page boundaries, with several stored pages, or after a restart with leftover pages; each needs a history no unit test enumerates.",
  [Q], [("record ids assigned when a page is written, order in which pages are loaded", Q)])
p("C03", "A key is queued at most once",
  "Pushing a message whose key is already in the queue, wherever in the queue that message currently is, leaves the queue unchanged and reports the key. A key that is no longer in the queue can be pushed again.",
  ["histories", "inputs"], "every history and every location (front page, stored, back page) of the earlier message",
  "The duplicate can be in any of three places, and each has its own membership test.",
  [Q], [("membership tests in push", Q)])
p("C04", "A buffered request taken for processing is never lost",
  "Once a buffered endpoint takes a request out of its pending queue, then either its handler reports success, or the request is in the pending queue or the error queue of that endpoint again, with its own key and data, in exactly one of them. This holds whether the handler reports failure, raises, receives data that no longer validates, or is cancelled, and whatever middleware does.",
  ["schedules", "fault_sequences", "inputs"], "every outcome of every step between taking a request out and being done with it, including cancellation at every suspension point",
  "The message is in no queue while it is processed; each exit path, including cancellation at each await, has to put it back.",
  [HB, PQ], [("worker loop", HB), ("push_pending/push_error", PQ)])
p("C05", "A buffered message taken for sending is never lost",
  "Once a buffered sender takes a message out of its pending queue, then either it was sent and answered, or it is in the pending queue or the error queue of that sender again, with its own key and data, in exactly one of them. This holds for every error a client can raise, for data that no longer validates, and for cancellation at any point.",
  ["schedules", "fault_sequences", "inputs"], "every outcome of every step between taking a message out and being done with it",
  "As for buffered endpoints: every exit path has to settle the message.",
  [SB, PQ], [("worker loop", SB), ("push_pending/push_error", PQ)])
p("C06", "The retry budget is exact and retries keep a message's identity",
  "A message that fails in a retryable way goes back to pending with its attempt count raised by one until the configured maximum is reached, and then to the error queue; a message that fails in any other way goes to the error queue with the reason. Every move between the two queues keeps the message's key, data and metadata, and a cancelled attempt is not counted.",
  ["histories", "configurations", "fault_sequences"], "every maximum, every attempt count, every kind of failure",
  "The count is persisted in the queued entry and compared with a configured maximum; off-by-one and lost metadata need specific counts and failures.",
  [HB, SB, PQ], [("failure branches of the worker loops", HB), ("moves between error and pending", PQ)])
p("C07", "A buffered request is acknowledged only after it is stored",
  "A buffered endpoint answers a request with success only after the request, with its key and its middleware metadata, is in the pending queue; a request it refuses or fails to accept is not in the queue. Handing a message to a buffered sender likewise returns only after the message is queued, under the given key or a newly generated one.",
  ["schedules", "fault_sequences"], "every interleaving with pauses and shutdown, every failure of middleware",
  "A request acknowledged before being stored is lost only if the process stops in a window a test does not hit.",
  [HB, SB, "ekosis/sending/buffered_sender_class.py"], [("run of a buffered endpoint", HB), ("enqueue of a buffered sender", SB)])
p("C08", "A pending message never waits for an unrelated event",
  "Whenever a message is put into a pending queue from outside its worker, processing is resumed, errors are reprocessed, or an application starts with messages already pending, a worker is running or is started, so that pending messages of an unpaused queue are always being worked on.",
  ["schedules", "histories"], "every interleaving of the worker finishing with messages arriving",
  "A lost wake-up needs a message to arrive exactly while the worker is finishing.",
  [HB, SB], [("wake-up after push, unpause, reprocess and setup", HB), ("same for senders", SB)])
p("C09", "At most one worker per buffered queue",
  "For each buffered endpoint and each buffered sender at most one worker runs at a time, so one message is processed before the next is taken.",
  ["schedules"], "every interleaving of wake-ups",
  "A second worker appears only when two wake-ups overlap in a particular way.",
  [HB, SB], [("task creation guarded by the task's state", HB)])
p("C10", "Pausing stops intake and processing until resumed",
  "While receiving is paused on a buffered endpoint no request is stored and each is refused as busy; while processing (or sending) is paused no message is taken out of the queue; a message already taken is still settled. Only resuming it, or a restart, ends a pause: reprocessing errors, other management operations and incoming requests do not.",
  ["schedules", "histories"], "every interleaving of pausing with requests and with the worker at every suspension point",
  "The flag can change at every suspension point of a request or worker.",
  [HB, SB, "ekosis/state_keepers/buffered_handler_keeper.py", "ekosis/state_keepers/buffered_sender_keeper.py"],
  [("pause flags and where they are read", HB), ("sender pause flag", SB)])
p("C11", "Each queue management operation does exactly what it says",
  "Each standard management operation on a buffered endpoint or sender affects only the named one and has exactly its documented effect: inspecting, listing and querying change nothing, popping removes exactly the given error entry, reprocessing moves exactly the given error entry or all of them back to pending, clearing empties only the error queue, pausing and resuming change only their flag. For an unknown name nothing changes and the reply says so; otherwise the reply reports the state after the operation and the message concerned.",
  ["inputs", "histories"], "every operation, every name and key, known or unknown, every queue content",
  "Two dozen operations times present/absent names, keys and falsy payloads.",
  ["ekosis/standard_endpoints/buffered_handler_manager.py", "ekosis/standard_endpoints/buffered_sender_manager.py",
   "ekosis/state_keepers/buffered_handler_keeper.py", "ekosis/state_keepers/buffered_sender_keeper.py", HB, SB, PQ],
  [("management endpoints", "ekosis/standard_endpoints/buffered_handler_manager.py"), ("keepers", "ekosis/state_keepers/buffered_handler_keeper.py")])
p("C12", "A clean shutdown stops intake, writes every buffer and flushes the logs",
  "However an application ends (return, exception or termination signal), its servers are stopped first, then every buffered endpoint and every buffered sender is shut down so that both its queues are written to disk, and the logs are flushed last. One buffer failing to shut down does not keep the others from being written, and a worker that is busy settles its message, and takes no further one, before its queue is written, which happens exactly once and ends the wait of whoever waits for the shutdown.",
  ["fault_sequences", "schedules", "crash_points"], "every way of leaving the application context, every buffer failing, worker idle or busy",
  "Needs failures in one component during shutdown and workers busy at that moment.",
  ["ekosis/application_base.py", HB, SB, PQ], [("leaving the application context", "ekosis/application_base.py"), ("shut_down of handlers and senders", HB)])
p("C13", "At most one process per application instance",
  "An application instance refuses to start, before it opens any server and leaving the existing lock untouched, if the process named in its lock file is alive, whoever owns that process; otherwise it records its own process id in a lock file that is specific to application name and instance.",
  ["configurations", "histories"], "every state of the lock file and of the process it names",
  "Needs processes of other users, stale locks and several instances.",
  ["ekosis/application_base.py"], [("lock file check", "ekosis/application_base.py")])
p("C14", "A stream server answers each request once, in order, or closes the connection",
  "On every TCP or UDS connection each complete request line receives exactly one response line, in the order of the requests, before the next request is read; a heartbeat receives exactly one acknowledgement, which the clients take for one. If a request can not be answered the connection is closed; it is always closed in the end; and nothing a client sends stops the server from serving others.",
  ["inputs", "fault_sequences"], "every byte sequence a client sends, every failure of reading, handling and writing",
  "Malformed encodings, oversized lines, resets and handler failures in arbitrary order.",
  ["ekosis/servers/stream_server_base.py", "ekosis/servers/server_base.py"], [("connection loop", "ekosis/servers/stream_server_base.py")])
p("C15", "A UDP server answers each datagram once, to its sender",
  "Each complete datagram request is answered with exactly one datagram, sent to the address it came from, also when several are being handled at the same time and whatever the request contains. A heartbeat is acknowledged to its sender.",
  ["schedules", "inputs"], "every interleaving of datagrams, every content",
  "Mixing up peers needs overlapping requests.",
  ["ekosis/servers/json/udp.py", "ekosis/util/fire_and_forget_tasks.py"], [("datagram handling", "ekosis/servers/json/udp.py")])
p("C16", "The server reports each failure with its own status",
  "A response carries the success status exactly when the endpoint completed, with the endpoint's result as data. Otherwise it carries the status of what went wrong: unparsable text, failed validation, unknown route, busy, reported processing failure, or the catch-all status for anything else; no failure of an endpoint escapes without a response.",
  ["inputs", "fault_sequences"], "every exception any step can raise, every request text",
  "The mapping depends on exception class hierarchies and handler order.",
  ["ekosis/servers/server_base.py", "ekosis/requests/request_router.py", "ekosis/requests/status.py"], [("exception to status mapping", "ekosis/servers/server_base.py")])
p("C17", "The client turns each status into its own exception",
  "A client returns a result exactly when the response carries the success status, and the result is the response data validated as the requested type; every other status raises the exception documented for that status, and an unknown status raises the unknown-status exception.",
  ["inputs"], "every status value and response content",
  "Tests provoke a few statuses.",
  ["ekosis/clients/client_base.py", "ekosis/exceptions/response.py"], [("status to exception mapping", "ekosis/clients/client_base.py")])
p("C18", "Request identity: key echoed, context set and restored",
  "Every response carries the key of the request it answers, or none if the request could not be read. While a request or a buffered message is handled the current-request context holds its key, and afterwards, however handling ends, the context is what it was before; concurrent requests never see each other's key.",
  ["schedules", "fault_sequences"], "every outcome of handling, every interleaving",
  "A context leaking past a failure only shows in what is logged or traced next.",
  ["ekosis/servers/server_base.py", "ekosis/requests/request_context.py", HB], [("context set/reset", "ekosis/servers/server_base.py")])
p("C19", "A client never hands one request's response to another",
  "On every client, a response is given to the request it answers: requests sharing a connection are sent and answered one at a time, heartbeats included, and after a timeout, a cancellation or any error nothing that arrives later on that connection is used for a following request.",
  ["schedules", "fault_sequences"], "every interleaving of callers, timeouts and cancellations at every suspension point",
  "Needs a late response after a timeout or overlapping callers.",
  ["ekosis/clients/persistent_stream_client_base.py", "ekosis/clients/datagram_client_base.py", "ekosis/clients/stream_client_base.py"],
  [("exchange under a lock, connection dropped on failure", "ekosis/clients/persistent_stream_client_base.py")])
p("C20", "Client retries are bounded and only for retryable failures",
  "A client sends a request at most the configured maximum number of times; it tries again only after a timeout or a broken or empty connection, then reports that the maximum was reached, and reports every other failure at once as non-retryable. A call never completes without either a response or an exception.",
  ["fault_sequences", "configurations", "schedules"], "every sequence of failures, every maximum including zero, concurrent calls on one client",
  "Needs specific sequences of failures and shared client state.",
  ["ekosis/clients/client_base.py", "ekosis/clients/persistent_stream_client_base.py", "ekosis/clients/stream_client_base.py", "ekosis/clients/datagram_client_base.py", "ekosis/exceptions/communication.py"],
  [("retry loops", "ekosis/clients/stream_client_base.py")])
p("C21", "Every client connection is released",
  "A transient client closes the connection it opened for a request however the request ends; a persistent or UDP client closes a connection before it replaces it. A truncated response is never taken for a response.",
  ["fault_sequences", "schedules"], "every failure and cancellation point after the connection was opened",
  "Leaks show only under failures and over time.",
  ["ekosis/clients/stream_client_base.py", "ekosis/clients/persistent_stream_client_base.py", "ekosis/clients/datagram_client_base.py"],
  [("close on every exit", "ekosis/clients/stream_client_base.py")])
p("C22", "Middleware runs as a chain, in order, around every request",
  "Every routed request passes through all registered middleware in registration order before its endpoint and again after it; each receives what the previous one returned, the endpoint receives what the last one returned and the client receives what the last one after it returned. Buffered middleware is called in registration order before storing, before and after processing, with the key and the data of the message concerned, and the metadata it returns when storing is what it is given when processing.",
  ["programs", "inputs"], "every number and behaviour of middleware",
  "Chains of length greater than one with replacing middleware are not tested for all hooks.",
  ["ekosis/middleware/manager.py", "ekosis/middleware/buffered_middleware_manager.py", "ekosis/requests/request_router.py"],
  [("middleware loops", "ekosis/middleware/manager.py")])
p("C23", "A request reaches exactly the endpoint registered for its route, validated",
  "A request is handled by the one endpoint registered under exactly its route, with its data validated as that endpoint's declared type before any endpoint code runs, and with exactly the parameters the endpoint declares. A route can not be registered twice, and the first registration stays in place.",
  ["inputs", "programs"], "every route table, request and endpoint signature",
  "Depends on registration history and signatures.",
  ["ekosis/requests/request_router.py", "ekosis/requests/handler_base.py", "ekosis/requests/standard_handler.py", "ekosis/requests/buffered_handler.py", "ekosis/requests/endpoint.py", "ekosis/requests/buffered_endpoint.py"],
  [("routing table", "ekosis/requests/request_router.py"), ("parameter selection", "ekosis/requests/standard_handler.py")])
p("C24", "Statistics lose no counts and gathered periods never change",
  "Every successful call of an endpoint is counted and timed in exactly one gathering period: between recording a period and resetting for the next, nothing can be counted and lost. A recorded period never changes afterwards, the newest period comes first, the newest periods are kept up to the configured number, the last gathered period reported is the newest, each value is kept under its own full name, and the sizes reported are the current ones, of both queues of every buffered endpoint and sender.",
  ["schedules", "histories"], "every interleaving of calls with gathering, every history length",
  "A call counted between snapshot and reset, or a shared snapshot, needs a particular interleaving.",
  ["ekosis/state_keepers/statistics_keeper.py"], [("gathering loop", "ekosis/state_keepers/statistics_keeper.py")])
p("C25", "Configuration precedence: instance over application over machine over default",
  "For every setting that can be given through the environment, the value for the application instance wins over the value for the application, which wins over the value for the machine, which wins over the default; settings of one instance are never taken for another. A setting that only makes sense per instance (the server addresses) is taken only from the instance. The value an application sees is exactly what was written: the number, the directory, the host and port, or the directory and name of the socket file.",
  ["configurations"], "every combination of variables set and unset, every application and instance name",
  "Sixteen combinations per setting, read once per process.",
  ["ekosis/configuration/config_models.py"], [("environment lookup", "ekosis/configuration/config_models.py")])
p("C26", "No log record is dropped and each is one line",
  "Every record logged at or above the configured level reaches the log file in order: buffering only delays it until the buffer is full or flushed, and changing the buffer size or flushing loses nothing, also of records logged by other threads meanwhile. Each record is written as one line of JSON carrying the trace and span of the request that logged it.",
  ["histories", "schedules"], "every sequence of records, buffer sizes and flushes",
  "Losing a record needs a size change or flush at a certain fill level.",
  ["ekosis/logs/buffered_rotating_file_handler.py", "ekosis/logs/otlp_formatter.py", "ekosis/logs/logger.py"],
  [("buffering handler", "ekosis/logs/buffered_rotating_file_handler.py")])
p("C27", "The log shipper delivers at least once",
  "The log shipper advances the stored position in a log file only past lines that the collector accepted (an answer other than 2xx is no acceptance), so every complete line written to a followed log file is sent until the collector accepted it, unchanged and as a whole line. A batch that could not be delivered is sent again, also after a restart; after a restart the shipper resumes at the stored position in the file it belongs to, and at the start of any other file. Lines still unread in a followed file when it is rotated are read before the new file is followed.",
  ["crash_points", "fault_sequences", "histories"], "every failure of delivery, every crash point, rotation at any time",
  "Needs delivery failures, crashes and rotations at particular moments.",
  ["ekosis_log_shipper"], [("offset store and delivery loop", "ekosis_log_shipper")])
p("C28", "The log shipper survives bad input and understands the logger's records",
  "A line that is not a log record, or a log file that can not be opened, never stops the shipper nor holds up other lines and files. Every record the application's logger writes is accepted, and its time, severity, text, attributes, trace and span reach the collector under the name and with the meaning they were written with.",
  ["inputs", "fault_sequences"], "every file content and file system error",
  "Needs corrupted lines and disappearing files; the two sides are written in different languages.",
  ["ekosis_log_shipper", "ekosis/logs/otlp_formatter.py"], [("record parsing", "ekosis_log_shipper")])
p("C29", "Metrics collection isolates failures of single services",
  "One service that is unreachable, misconfigured or answers with an error affects neither the metrics of other services nor the exporter itself: it is reported as down and the others are reported as usual. Every service that is configured on this machine is monitored under its name and instance at its address, and a malformed entry leaves out only itself. Values that mean 'no data' are not reported as measurements.",
  ["fault_sequences", "configurations"], "every combination of services failing",
  "Needs several services with some failing.",
  ["ekosis_prometheus"], [("scraper", "ekosis_prometheus/ekosis_prometheus/scraper.py")])
p("C30", "Error states count exactly and never go negative",
  "Each report of an error raises its count by one, under its id regardless of letter case; clearing some lowers it by the given number but never below zero nor upwards, clearing all sets it to zero, and neither affects other errors. An error is listed exactly while its count is above zero.",
  ["histories", "inputs"], "every history of reports and clears, every number given",
  "Arithmetic edge cases over histories.",
  ["ekosis/state_keepers/error_state_keeper.py", "ekosis/state_keepers/error_state_list.py", "ekosis/standard_endpoints/errors.py"],
  [("error counters", "ekosis/state_keepers/error_state_keeper.py")])
p("C31", "The cache returns what was stored and evicts the least recently used",
  "The cache never holds more than its maximum number of entries, returns for a key the value last stored under it until it is removed or evicted, and evicts the entry that was not used for the longest time. Removing and clearing make entries unreachable without disturbing the others.",
  ["histories", "inputs"], "every history of operations",
  "Linked-structure corruption needs particular sequences of inserts, removals and evictions.",
  ["ekosis/cacheing/lru_cache.py"], [("ring of entries", "ekosis/cacheing/lru_cache.py")])
p("C32", "The command line tools and the server agree on every operation",
  "Every command line option performs the one management operation it names: the tool reads only options that exist, each option leads to a route that a server serves, with the request and response types that route uses and the arguments the user gave.",
  ["inputs", "configurations"], "every option of every tool",
  "The tools run as separate processes and are not tested; routes and options are strings.",
  ["ekosis/cli", "ekosis/standard_endpoints"], [("option dispatch", "ekosis/cli/bem.py"), ("senders", "ekosis/cli/senders")])
p("C33", "Background work is never dropped",
  "Every task the framework starts in the background is kept referenced until it is done, so that it can not disappear before it finished, and is released afterwards; positional and keyword arguments reach the work to be done.",
  ["schedules"], "every moment a collection can happen",
  "Whether an unreferenced task is collected depends on timing.",
  ["ekosis/util/fire_and_forget_tasks.py", "ekosis/servers/json/udp.py", "ekosis/application_base.py"],
  [("task registry", "ekosis/util/fire_and_forget_tasks.py")])
p("C34", "Traces keep parent and child together",
  "Each request yields one span in the trace of its key, whose parent is the span named in that key; the span of a request that was handled is marked ok, ended exactly once and no longer kept. Storing a buffered request puts the id of its receiving span into the stored metadata; processing it yields one span in the trace of the same key whose parent is that receiving span (or the span named in the key when there is none), carrying the number of retries, and ended with whether processing succeeded.",
  ["schedules", "inputs"], "every request, nesting and interleaving",
  "Parentage across queueing and concurrency is not visible to unit tests.",
  ["ekosis_otlp_traces"], [("tracing middleware", "ekosis_otlp_traces/ekosis_otlp_traces/middleware.py")])
p("C35", "Keys survive every representation unchanged",
  "Converting a request key to bytes, to text or to JSON and back gives an equal key; keys are equal exactly when both their parts are, equal keys have equal hashes, and newly generated keys are random in both parts. Malformed keys are rejected.",
  ["inputs"], "every key value, including leading zeros",
  "2^192 values; formatting widths matter only for values with leading zeros.",
  ["ekosis/data_transfer_objects/json_protocol.py", "ekosis/data_transfer_objects/span_id.py"],
  [("key conversions", "ekosis/data_transfer_objects/json_protocol.py")])
p("C36", "Percentiles reported for an endpoint are those of its calls in the period",
  "The 95th percentile reported for an endpoint is the 95 % cut point of the durations of its calls in the period and the 99th the 99 % one, each reported under its own name and computed from all durations recorded for that endpoint before they are reset.",
  ["inputs", "histories"], "every multiset of durations, every endpoint",
  "An index or name off by one gives plausible numbers on small samples.",
  ["ekosis/state_keepers/statistics_keeper.py"], [("percentiles", "ekosis/state_keepers/statistics_keeper.py")])
p("C37", "Waits, timeouts and periods are the configured ones",
  "Every wait of a client for a response is limited by the configured timeout, every attempt after a failed one is made after the configured retry delay, a persistent client asks for a sign of life after each configured heartbeat period in which it sent nothing, also after one that failed, a buffered sender waits its configured period between two messages, and statistics are gathered once per configured gathering period.",
  ["configurations", "schedules"], "every value of every setting, every path on which a client or worker waits",
  "A wait that is missing on one path, or takes another setting's value, shows only with unusual settings and failures.",
  ["ekosis/clients/stream_client_base.py", "ekosis/clients/persistent_stream_client_base.py", "ekosis/clients/datagram_client_base.py", SB,
   "ekosis/state_keepers/statistics_keeper.py"],
  [("heartbeat loop", "ekosis/clients/persistent_stream_client_base.py"), ("timeouts and delays", "ekosis/clients/stream_client_base.py"),
   ("gathering loop", "ekosis/state_keepers/statistics_keeper.py")])
p("C38", "A crash loses no more than what was in memory",
  "Wherever the process stops, the stored pages of a queue are those before or after the running operation: every change of the stored pages is committed before the operation ends and before any other task runs, a message that is stored before and after an operation is stored at every commit in between, and what was taken out of the stored pages is not in them any more when it is given out. The stored pages are kept in the file of the queue.",
  ["crash_points", "histories"], "every point between two storage operations, of every queue operation and length",
  "Needs a crash between any two storage operations.",
  [Q], [("page load and write", Q)])
p("C39", "Every buffered queue has its own storage, the same one after a restart",
  "The pending queue and the error queue of each buffered endpoint and each buffered sender are kept in the application's configured buffer directory in a file of their own: two queues that differ in application name, instance, route, kind (endpoint or sender) or role (pending or error) alone never share a file, and the same queue finds the same file after a restart. Both use the page size given for the endpoint or sender.",
  ["configurations", "programs"], "every application name, instance, route, and pair of queues",
  "Two queues sharing a file corrupt each other only with the right pair of routes or instances; a file that is not found again shows only after a restart.",
  [HB, SB, PQ, "ekosis/application_base.py"], [("names of the queue files", PQ), ("set-up of the queues", HB)])
p("C40", "A started application serves every configured address, its queues loaded first",
  "Starting an application sets up every buffered endpoint and every buffered sender before any server can accept a request, and starts a server of the right kind on each address that is configured, on exactly that address (a socket left to its default name is named after application and instance); a server that cannot listen on its address makes the start fail instead of being left out. Stopping a server closes what it listens on.",
  ["configurations", "schedules"], "every combination of configured addresses, every interleaving of start-up",
  "Needs an application with each combination of addresses, and a request arriving during start-up.",
  ["ekosis/application_base.py", "ekosis/servers/json/tcp.py", "ekosis/servers/json/udp.py", "ekosis/servers/json/uds.py"],
  [("start", "ekosis/application_base.py"), ("servers", "ekosis/servers/json/tcp.py")])
p("C41", "Every statistic a polled service reports is exported under its own name",
  "Every statistic that a polled service reports about itself and about the endpoints and queues of groups that are not excluded (uptime, gather period, call count, p95 and p99 when there is data, pending and error sizes, and every number in its custom values) is exported by the prometheus exporter under a metric named after it, labelled with the name and instance the service gives, and with the group and endpoint it was reported for. An excluded or malformed group or endpoint leaves out only itself.",
  ["inputs", "histories"], "every statistics response, whatever groups, endpoints and custom values it holds",
  "A test samples a few responses; a statistic that is lost or put under another label shows only for the right combination of groups, endpoints and absent values.",
  ["ekosis_prometheus/ekosis_prometheus/stats_translator.py"], [("translation of statistics", "ekosis_prometheus/ekosis_prometheus/stats_translator.py")])
p("C91", "Elapsed time of waits is bounded",
  "A client gives up, a heartbeat is sent and a period ends within a bounded time of when they are due.",
  ["schedules"], "every load", "Real time.",
  ["ekosis/clients/persistent_stream_client_base.py", SB], [("heartbeat loop", "ekosis/clients/persistent_stream_client_base.py")])
p("C92", "Stored pages survive power loss",
  "After a power failure at any point a queue file still holds every page that was committed.",
  ["crash_points"], "every crash point of the operating system", "Needs fault injection below the file system.",
  [Q], [("page load and write", Q)])
for x in P:
    assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
with open("/verif/properties.jsonl", "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
