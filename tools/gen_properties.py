#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so the texts stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
        why_tests_cant=why, anchors=dict(files=files,
        state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
        mechanism=[dict(name=a, where=b) for a, b in mechanism],
        observe_at=list(observe), hook_needed=hook)))

p("C01", "A handler sees exactly the request its own client sent",
  "For every complete request within the size limits, the handler is given exactly the method, path, query string, headers, session, client address and body that this client sent. This does not depend on how the bytes were split into packets, how long the client paused, which interruptible reads were interrupted, what other requests are in flight on other worker threads, or what earlier connections sent.",
  ["schedules", "inputs", "histories", "fault_sequences"],
  "every interleaving of worker threads, every fragmentation and pacing of the request bytes, every earlier and concurrent traffic, with recv() interrupted at any point",
  "The tests call the parsing helpers one at a time from one thread; nothing runs two requests at once, no test reads a request from a socket at all, so shared parsing state (strtok, static buffers) and stale buffers are never exercised.",
  ["ws.c", "http_utils.c", "string_utils.c", "router.c"],
  [("request line, header and body parsing", "ws.c:accept_request, ws.c:handle_api_request, ws.c:get_line"), ("path/query split", "http_utils.c:get_path_and_query_string, string_utils.c:split"), ("header lookup", "http_utils.c:http_get_header")],
  [("api_request", "the per-connection request record", "http_utils.h"), ("strtok state", "libc tokenizer state shared by all threads", "string_utils.c:split")],
  ["fields of api_request inside a registered handler", "static file chosen for a path"])

p("C02", "Every accepted connection is dispatched exactly once and finished",
  "Every accepted connection from an admitted address is taken by exactly one worker exactly once, in arrival order, and is eventually answered or closed; none is lost, duplicated or left waiting while a worker is idle. A connection that cannot be queued because the queue is full is closed at once, not left hanging. Once stalled clients and faults are gone, every remaining connection finishes in bounded time and new ones are served.",
  ["schedules", "histories", "fault_sequences"],
  "every interleaving of the accept thread and the workers, spurious wake-ups, any number of workers that could be started, any burst size up to and beyond the queue capacity, slow and stalled clients",
  "No test starts the server; the queue, the workers and the accept loop have no test, and a lost wake-up or an index error at wrap-around needs a specific interleaving or more than 1024 connections.",
  ["ws.c"],
  [("bounded FIFO with mutex and condition variable", "ws.c:ws_queue_get, ws.c:ws_launch"), ("worker loop", "ws.c:ws_connection_handler")],
  [("ws_threads_queue", "ring buffer of accepted sockets", "ws.c")],
  ["which worker serves which connection", "server-side close of each connection"])

p("C03", "Connection limits are enforced exactly under concurrency",
  "For every configured limit rule (the lines of WAYUU_ROOT/etc/limits, at most 64 rules), the number of requests being served whose URL starts with the rule's path never exceeds the rule's maximum, and never exceeds its per-address maximum for any one client address; the excess request is answered 429 and no handler runs for it. A request is refused with 429 only if some matching rule really is at its maximum, and a finished, refused, failed or aborted connection gives its place back.",
  ["schedules", "histories", "configurations", "fault_sequences"],
  "every interleaving of admission and release on the worker threads, every rule set, every order of arrival, completion, refusal and client abort",
  "No test covers limits at all; check-then-act races and slot leaks only show with several workers between validation, registration and release.",
  ["ws.c"],
  [("admission check and registration", "ws.c:connection_validate, ws.c:connection_add"), ("release", "ws.c:connection_del, ws.c:connection_close"), ("rule loading", "ws.c:load_limits")],
  [("live_connections", "table of connections being served", "ws.c"), ("limits", "rules read at start", "ws.c")],
  ["handler entry to connection close per rule and address", "429 responses"])

p("C04", "The IP allow and deny lists are enforced exactly and fail closed",
  "A client whose address is listed in the deny file, or that is missing from an existing allow file, gets no response byte and its connection is closed; every other client is served. Addresses match as whole addresses, whatever the size of the lists and while an administrator replaces them. If a list exists but cannot be read, clients are refused rather than admitted.",
  ["inputs", "configurations", "fault_sequences", "histories"],
  "every content and size of the two files, every client address, replacement of the files between any two connections, failure of any file operation on them",
  "One test looks up two addresses in a one-line file; prefixes and suffixes of listed addresses, long lists, list updates and I/O errors are not covered.",
  ["ws.c", "file_utils.c"],
  [("address check before queueing", "ws.c:allowed_address, ws.c:ws_launch"), ("list lookup", "file_utils.c:find_in_file, file_utils.c:read_file")],
  [("etc/allow, etc/deny", "address lists on disk", "ws.c:allowed_address")],
  ["bytes received by and closing of each client connection"])

p("C05", "Each client receives its response complete and well-formed",
  "The bytes a client receives are exactly one well-formed HTTP response: one status line with the status the handler chose, well-formed headers, and the whole body the handler or static file supplied, with a correct Content-Length where one is sent. This holds however the socket accepts the data - partial sends, interrupted sends, slow readers - and for every request header the client may add; if the connection breaks, the client has received a prefix of that response and never anything else.",
  ["schedules", "inputs", "fault_sequences"],
  "every response size and kind, every sequence of short or interrupted sends, every pace of the reading client, concurrent responses on other connections, with and without TLS",
  "The tests replace send() by a mock that always accepts everything and only look at a handful of fixed responses.",
  ["http_utils.c", "ws.c"],
  [("single output path", "http_utils.c:http_print"), ("response builders", "http_utils.c:return_json_with_status, send_http_status, return_headers, send_stream, return_file")],
  (), ["byte stream received by each client"])

p("C06", "A request that did not arrive completely is never executed",
  "If a client's connection ends or fails before the request line, the header section or the announced body has arrived completely, no filter and no handler runs for it and no uploaded file or form value derived from missing bytes is used. The worker gives the connection up and is available for other requests.",
  ["fault_sequences", "inputs", "schedules"],
  "every truncation point of every request, by half-close, reset or read error",
  "No test feeds a request through a socket; truncation has to be tried at every byte offset.",
  ["ws.c", "http_utils.c"],
  [("line and body reading", "ws.c:get_line, ws.c:handle_api_request"), ("one-byte read", "http_utils.c:http_read_char")],
  (), ["handler and filter invocations per connection"])

p("C07", "No client behaviour or transient fault stops or corrupts the server",
  "Whatever bytes clients send - overlong lines, malformed or huge headers, broken multipart bodies, absurd lengths - and whenever they disconnect, the server neither terminates nor accesses memory out of bounds, and keeps serving other clients. The same holds for transient failures of accept() such as aborted connections, interruption, or running out of descriptors.",
  ["inputs", "fault_sequences", "schedules", "histories"],
  "every byte sequence and every disconnection instant on any number of connections, every transient accept/send/recv failure, in any order",
  "The tests use a few short well-formed strings; hostile input, resets and accept failures are never produced.",
  ["ws.c", "http_utils.c", "router.c", "string_utils.c"],
  [("bounded parsing", "ws.c:accept_request, ws.c:multipart_parse, ws.c:part_parse"), ("accept loop", "ws.c:ws_launch"), ("SIGPIPE handling", "main.c:main, ws.c:ws_launch")],
  (), ["process liveness, memory accesses, service to a probe client afterwards"])

p("C08", "Every descriptor is closed exactly once and never after reuse",
  "Every accepted connection is closed exactly once, after its response was sent, on every path: served, refused, filtered, dropped, incomplete or failed. No file or socket descriptor stays open after the work that needed it, none is closed twice, and no thread reads, writes or closes a descriptor number that has meanwhile been given to another connection.",
  ["schedules", "histories", "fault_sequences"],
  "every exit path of a connection, every interleaving of closing with new accepts, every file operation failure",
  "No test opens a connection; leaks and reuse races need many connections and particular interleavings.",
  ["ws.c", "http_utils.c", "file_utils.c", "wayuu_log.c"],
  [("connection close", "ws.c:connection_close"), ("stream closing", "http_utils.c:return_file, wayuu_log.c:log_access, file_utils.c")],
  (), ["descriptor table at idle, every close()"])

p("C09", "Memory in use does not grow with the number of requests served",
  "Whatever mix of requests has been served, refused or aborted, the memory the server holds while idle is bounded by a constant that does not depend on how many connections it has handled.",
  ["histories", "inputs", "fault_sequences"],
  "every sequence of connections of every kind, repeated any number of times",
  "Unit tests free what they allocate themselves; none runs a request through the server and looks at what stays allocated.",
  ["ws.c", "http_utils.c", "router.c"],
  [("request teardown", "ws.c:accept_request"), ("accept loop", "ws.c:ws_launch")],
  (), ["live heap blocks of server code at idle points"])

p("C10", "An upload handed to a handler is exactly what the client sent",
  "When a handler runs for a multipart request, each form field has the value the client sent, and each temporary file named to the handler exists and holds exactly the uploaded bytes until the handler returns, whatever other uploads are running at the same time and also after the folder of the temporary files was removed. If the upload could not be stored completely (disk full, I/O error, no descriptors), no handler is told of a temporary file.",
  ["schedules", "inputs", "fault_sequences"],
  "every number, order and size of parts and every binary content, every interleaving of concurrent uploads, every failing file operation",
  "The one test for part parsing handles a single text part, is not reliable, and never checks the stored file, concurrency or a write failure.",
  ["ws.c", "file_utils.c", "string_utils.c"],
  [("multipart parsing", "ws.c:multipart_parse, ws.c:part_parse"), ("storing", "ws.c:save_tmp_file, file_utils.c:write_file, string_utils.c:md5sum")],
  [("/tmp/wayuu", "uploaded temporary files", "ws.h")],
  ["form seen by the handler, temporary file content during the handler"])

p("C11", "The access log has one intact, truthful line per response",
  "For every response sent by the framework's response functions exactly one line is appended to the access log, never torn or mixed with another line, also after the log was rotated, giving that request's client address, request line, status, the number of bytes sent, referrer and user agent. Its UTC time stamp lies between the start and the end of the request and its duration is the elapsed time, never negative or absurd when the wall clock is stepped.",
  ["schedules", "histories", "fault_sequences", "inputs"],
  "every interleaving of logging threads, every clock step, every response kind, every second/day boundary",
  "Access logging has no test; races on the shared time buffer and clock steps cannot be produced by a unit test.",
  ["wayuu_log.c", "log.c", "http_utils.c"],
  [("one append per response", "wayuu_log.c:log_access"), ("time stamp", "log.c:format_ts_common_log"), ("duration", "wayuu_log.c:response_time, epoch_millis"), ("byte count", "http_utils.c: response_length updates")],
  [("wayuu-access.log", "append-only access log", "log.h")],
  ["lines of the access log"])

p("C12", "Diagnostic log records are whole lines under concurrency",
  "Every record written to the diagnostic log by any thread appears there as one contiguous line with its own time stamp, level and message, never interleaved with another record, and records below the configured level do not appear.",
  ["schedules", "configurations"],
  "every interleaving of threads that log at the same time, every log level",
  "The logger has no test, and interleaving needs two threads inside the logger.",
  ["log.c"],
  [("record output", "log.c:__logger, log.c:format_timestamp"), ("level", "log.c:log_set_level")],
  [("wayuu.log", "diagnostic log", "ws.h")],
  ["lines of the diagnostic log"])

p("C13", "A connection is dropped after its rule's maximum seconds",
  "A connection whose URL matches a limit rule with a maximum execution time is dropped once it has been alive for longer than that time (within a few seconds), which frees its worker and its place. It is never dropped before that time has passed, other connections are not affected, and steps of the wall clock change nothing.",
  ["schedules", "histories", "fault_sequences", "configurations"],
  "every stall point of a client (reading or writing), every rule set, every clock step, every interleaving of expiry with normal completion and descriptor reuse",
  "There is no test for limits, and tests cannot wait or control time.",
  ["ws.c", "http_utils.h"],
  [("rule loading", "ws.c:load_limits"), ("connection registration", "ws.c:connection_add")],
  [("live_connections[].unix_time", "start of service", "http_utils.h"), ("max_seconds", "rule's time limit", "http_utils.h")],
  ["server-side end of stalled connections in simulated time"])

p("C14", "Static requests never reach files outside the web root",
  "Whatever URL a client requests, static content is read only from regular files below WAYUU_ROOT/www of the configured root; no byte of a file outside that directory is ever sent to a client.",
  ["inputs", "configurations", "fault_sequences", "histories"],
  "every URL path including dot segments and empty segments, every configured root, files appearing, disappearing and failing while requests are served",
  "No test serves a static file.",
  ["ws.c", "http_utils.c", "main.c"],
  [("path construction", "ws.c:handle_static_routes"), ("file sending", "http_utils.c:direct_file, http_utils.c:return_file")],
  (), ["bytes received by clients versus files outside the root"])

p("C15", "A 200 static response carries exactly the requested file",
  "A GET for an existing file below the web root is answered 200 with that file's exact content, its content type and the session the client sent (in X-Session and Set-Cookie), a directory URL with that directory's index page, and a missing file with the default index page, or 404 if there is none; any other method is answered 400. If the file cannot be opened or read completely the client is told with an error response; in that case, or if the file is replaced meanwhile, it never receives a complete-looking 200 response whose body is not the content some version of that file really had.",
  ["inputs", "fault_sequences", "schedules", "configurations"],
  "every file size and binary content, every failing or short file operation, replacement or removal of files between any two steps, concurrent requests",
  "No test serves a static file, and tests cannot make the disk fail between two steps.",
  ["http_utils.c", "ws.c", "file_utils.c"],
  [("lookup and fallback", "ws.c:handle_static_routes"), ("sending", "http_utils.c:direct_file, return_headers, return_file, get_content_type")],
  (), ["status, headers and body of static responses"])

p("C16", "Each API request runs exactly the right filter and handler once",
  "An API request runs the handler of the first registered route that matches its method and path (a parametric route matches by its prefix and passes the rest as the named parameter), exactly once; if there is none it is answered 400. If the route has a filter, the filter runs first, and if it rejects the request the handler does not run; nothing of this is influenced by other requests being routed at the same time.",
  ["schedules", "inputs", "configurations"],
  "every routing table, every method and path, every interleaving of concurrent requests",
  "The tests route four fixed requests from one thread through one-entry tables.",
  ["router.c", "ws.c"],
  [("matching and dispatch", "router.c:router_handle_request"), ("registration", "router.c:router_add_route, router_resolve_route"), ("parameter", "router.c:router_extract_param")],
  [("routing_table", "registered routes", "router.c")],
  ["filter and handler invocations per request"])

p("C17", "In TLS mode nothing is served outside an established session",
  "In HTTPS mode no request is executed and no response or file byte is sent on a connection whose TLS handshake did not complete, whether the client speaks plain HTTP, garbage, or disconnects at any point; such a connection is closed and its worker and TLS resources are released. On established sessions all bytes on the wire are TLS records and both directions arrive intact.",
  ["inputs", "fault_sequences", "schedules"],
  "every byte sequence and truncation point instead of or during a handshake, every fragmentation, concurrent sessions, failing or short socket operations",
  "The tests replace SSL_write by a mock; no test performs a handshake.",
  ["ws.c", "http_utils.c"],
  [("session setup", "ws.c:accept_request, ws.c:configure_context"), ("session I/O", "http_utils.c:http_read_char, http_print"), ("teardown", "ws.c:connection_close")],
  (), ["raw bytes on the wire, handler invocations, TLS objects at idle"])

p("C18", "Configuration reads and writes report every I/O failure",
  "When writing a configuration reports success, the file holds every item and reading it back delivers exactly those items; when reading reports success, every line of the file was delivered, in order. Any failing, short or interrupted file operation is reported as failure, and readers and writers of different files on different threads do not disturb each other. Whatever happened, neither memory nor an open file is left behind.",
  ["fault_sequences", "schedules", "histories"],
  "every failing or short file operation at every point of a write or read, full disk, concurrent readers and writers of different files",
  "The tests parse single strings; file reading and writing, errors and threads are not covered.",
  ["conf_parser.c"],
  [("writing", "conf_parser.c:write_conf"), ("reading", "conf_parser.c:parse, conf_parse_first_pass, conf_parse_multi")],
  (), ["return values versus file content and delivered items"])

p("C19", "Start-up either succeeds completely or fails with an error exit",
  "If the socket cannot be created, bound or listened on, the log or temporary folder cannot be set up, an existing limits file cannot be read, the given address or port is not valid, the certificate or key cannot be loaded, or no worker thread can be started, the process exits with a failure status without accepting a connection. Otherwise it listens on exactly the address and port it was given and accepts and serves requests, even if only some of the worker threads could be started.",
  ["fault_sequences", "configurations"],
  "failure of each start-up system call or file, alone and combined, in HTTP and HTTPS mode",
  "No test starts the server.",
  ["ws.c", "main.c", "log.c"],
  [("start sequence", "ws.c:ws_launch, main.c:main"), ("fatal exit", "log.c:__logger, ws.c:wayuu_failed")],
  (), ["exit status, first accepted connection, service to a probe client"])

p("C20", "After a crash at any instant a restart serves and keeps the log",
  "If the server process is killed at any instant and started again on the same directories, it starts and serves every kind of request normally, including uploads identical to ones interrupted by the crash. Every response whose connection had been closed before the kill has its complete access log line, and no earlier log line is lost or altered.",
  ["crash_points", "schedules", "histories"],
  "a kill at every step of any number of concurrent requests, any number of restarts",
  "No test starts or kills the server.",
  ["ws.c", "wayuu_log.c", "log.c", "file_utils.c"],
  [("append and close per log line", "wayuu_log.c:log_access"), ("temporary file replacement", "file_utils.c:write_file"), ("start sequence", "ws.c:ws_launch")],
  [("/tmp/wayuu, logs", "state that survives", "ws.h, log.h")],
  ["log files and service after restart"])

p("C21", "JSON helpers always produce valid JSON for their values",
  "For every string, number or list given to the JSON helper functions, the text they return is the JSON representation of that value.",
  ["inputs"], "every string, including quotes, control characters and long lists",
  "The tests use a few short plain strings.",
  ["json_utils.c", "http_utils.c"],
  [("serialisers", "json_utils.c")], (), ["returned text"])

p("C22", "String and digest helpers match their definition",
  "The trimming, splitting, joining, searching and MD5 helpers return what their documentation says for every input within their documented size limits.",
  ["inputs"], "every input string within the limits",
  "The tests use a few short strings.",
  ["string_utils.c"],
  [("helpers", "string_utils.c")], (), ["returned values"])

p("C23", "A configuration item survives formatting and parsing",
  "Formatting a single- or multi-valued configuration item as a line and parsing that line gives the same key and values.",
  ["inputs"], "every key and value without delimiter characters, up to the documented number of values",
  "The tests use three fixed lines.",
  ["conf_parser.c"],
  [("conf_item_to_string / conf_parse_line", "conf_parser.c")], (), ["returned items"])

p("C24", "Library helpers work on many threads at once and report file faults",
  "Calls of the library's helpers on any number of threads at once, each with its own data, do not disturb each other: splitting, trimming, joining, MD5, JSON formatting and path/query splitting give every caller the result for its own arguments and leave the source text alone. read_file delivers the file's bytes up to the given size and nothing else; write_file reports success only if the file then holds exactly the given bytes, and reports every open, write or close failure, leaving no partial file. No helper reads or writes outside the data it was given.",
  ["schedules", "fault_sequences", "histories"],
  "every interleaving of helper calls with each other and with requests being parsed and answered, every failing or short file operation, full disk, no free descriptors",
  "The tests call each helper alone, on one thread, with small text arguments and a disk that never fails.",
  ["string_utils.c", "json_utils.c", "file_utils.c", "http_utils.c"],
  [("tokenising and trimming", "string_utils.c:split, split_once, trim, rtrim, join"), ("digest", "string_utils.c:md5sum"), ("file helpers", "file_utils.c:read_file, write_file"), ("JSON text", "json_utils.c")],
  [("libc tokenizer state", "shared by all threads unless the reentrant form is used", "string_utils.c:split")],
  ["returned values compared with an independent computation, file content after write_file"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
