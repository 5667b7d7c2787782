#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one JSON object per line)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=observe or [], hook_needed=hook)))

S, I, H, F, C = "schedules", "inputs", "histories", "fault_sequences", "configurations"

p("P01", "Posted work runs exactly once, whatever handlers throw",
  "Every function handed to a running scheduler is executed exactly once, by one of its worker threads, no matter how posting threads, workers and other handlers interleave. A handler that throws, whatever it throws, costs nothing but itself: no other work is lost or repeated and no worker thread is lost.",
  [S, H, F], "all interleavings of posters and workers, all subsets of throwing handlers, both scheduler kinds and all thread counts",
  "the scheduler has no test of its own; server tests use one schedule and no throwing handler",
  ["src/scheduler.cpp", "include/pion/scheduler.hpp"],
  [("scheduler::process_service_work re-enters run() after an exception", "src/scheduler.cpp"), ("keep_running timer keeps the service from completing", "src/scheduler.cpp")],
  ["execution count per posted function", "thread identity that ran it"])
p("P02", "Scheduler shutdown waits for active users, then stops everything",
  "A scheduler's shutdown does not stop anything while a registered active user remains, and completes once the last one leaves; when it returns every worker has exited, nothing posted runs any more and everybody blocked joining the scheduler has been released. Start, shutdown and join can be called from any threads other than the pool's own in any order and repeatedly without deadlock, and after a restart work runs again.",
  [S, H], "all interleavings of startup, shutdown, join, add/remove active user and post from several threads, over several start/stop cycles",
  "tests call startup/shutdown once from one thread",
  ["src/scheduler.cpp", "include/pion/scheduler.hpp"],
  [("m_active_users + m_no_more_active_users condition", "src/scheduler.cpp shutdown()"), ("stop_services/stop_threads/finish_services order", "src/scheduler.cpp")],
  ["order of shutdown return, remove_active_user and handler executions"])
p("P03", "Server stop always completes and leaves nothing behind",
  "Stopping a TCP or HTTP server from any thread (other than one that is itself handling a connection of that server) at any moment completes in bounded time once its connections can finish: afterwards no connection is still tracked, every accepted socket is closed unless someone outside the server still holds it, no connection handler is entered any more and join() callers are released. Stopping without waiting closes open connections; stopping with waiting lets requests in progress finish; the same server can then be started and used again, also after a start that failed because its port was taken.",
  [S, H, F], "all interleavings of start, stop, join, accept, request handling and client resets, over repeated start/stop cycles",
  "tests stop an idle server, or one with a single fixed client",
  ["src/tcp_server.cpp", "include/pion/tcp/server.hpp", "src/scheduler.cpp"],
  [("m_is_listening + connection pool + m_no_more_connections", "src/tcp_server.cpp stop()/finish_connection()"), ("active-user registration defers scheduler shutdown", "src/tcp_server.cpp start()/stop()")],
  ["return of stop()/join()", "socket states", "handler entry after stop()"])
p("P04", "The server handles each accepted connection once and keeps accepting",
  "Each connection a client establishes with a listening server is handed to the connection handler exactly once (with SSL: only after its handshake succeeded, and never if it failed). Accept errors, failed handshakes, client resets and exceptions thrown while handling a connection affect only that connection: the server goes on accepting and serving new clients.",
  [S, F, C], "all sequences of accept errors, handshake failures, resets and throwing handlers, interleaved with good clients; plain and SSL servers",
  "no test injects accept or handshake errors",
  ["src/tcp_server.cpp", "include/pion/tcp/connection.hpp"],
  [("listen() is re-armed before the connection is handled", "src/tcp_server.cpp handle_accept()"), ("handle_ssl_handshake gate", "src/tcp_server.cpp")],
  ["handler invocations per client", "service of a later client"])
p("P05", "The server's connection count is exact and nothing leaks",
  "At every moment the number of connections a server reports lies between the number it is certainly serving and the number it could still be holding, never negative or wrapped; when all clients are gone it returns to zero. Every connection object is released once its exchange has ended, including connections whose handler dropped them without finishing them.",
  [S, H, F], "all interleavings of connects, disconnects, keep-alive reuse, handler drops, start/stop and concurrent queries",
  "tests sample the count at one quiet point",
  ["src/tcp_server.cpp", "include/pion/tcp/connection.hpp"],
  [("m_conn_pool insert/erase, prune_connections()", "src/tcp_server.cpp"), ("get_connections() subtracts the pending accept", "src/tcp_server.cpp")],
  ["get_connections()", "live connection objects and sockets"])
p("P06", "A TCP stream carries exactly the bytes written, in order",
  "Bytes written to a TCP stream and flushed arrive at the other end complete, once and in order, however writes are sized and however the network splits, delays or partially accepts them, with or without SSL. A stream operation that fails or hits end of stream reports it and never invents, repeats or reorders bytes, and closing the stream from another thread unblocks a reader.",
  [S, I, F], "all sequences of write/put/flush/read/get/putback sizes around the internal buffer size, all fragmentations and partial writes, EOF, reset and close at any point",
  "tests send one short line and one fixed file over loopback",
  ["include/pion/tcp/stream.hpp", "include/pion/tcp/connection.hpp"],
  [("flush_output/underflow/overflow/xsputn/xsgetn", "include/pion/tcp/stream.hpp"), ("operation_finished condition hand-shake", "include/pion/tcp/stream.hpp")],
  ["bytes received at the peer", "stream state bits"])
p("P07", "Idle reads time out on schedule, and only idle reads do",
  "A connection on which an HTTP message is awaited and nothing arrives is given up no earlier and not much later than the configured read timeout after the last data, and the socket is then released. A peer that always sends within the timeout (the server process itself not being suspended that long) is never cut off, however slow it is in total, and a timer belonging to a completed read never disturbs a later operation on the same connection; a timeout of zero disables it.",
  [S, H, F, C], "all arrival patterns relative to the timeout, all interleavings of timer expiry with read completion, timer cancellation and connection reuse",
  "no test waits for a timeout, and the race between expiry and completion cannot be provoked from outside",
  ["src/tcp_timer.cpp", "include/pion/tcp/timer.hpp", "src/http_reader.cpp"],
  [("timer::cancel/timer_callback under one mutex", "src/tcp_timer.cpp"), ("read_bytes_with_timeout / consume_bytes cancels the timer", "src/http_reader.cpp")],
  ["simulated time of close", "delivery of in-time messages"])
p("P08", "HTTP parsing does not depend on how the bytes are segmented",
  "Feeding an HTTP request or response (content length, chunked with or without trailers, or until close; keep-alive sequences included) to the incremental parser in any segmentation gives the same verdict, headers, cookies, query data, content and consumed byte count as feeding it in one piece, and these equal what was encoded. The parser never consumes bytes beyond the end of the message, so what follows is parsed as the next message.",
  [I, F], "all valid messages and message sequences x all ways to cut the byte stream, with and without a payload callback, headers-only mode and saved raw headers",
  "parser tests feed a few captured messages in one or two fixed pieces",
  ["src/http_parser.cpp", "include/pion/http/parser.hpp", "include/pion/http/message.hpp"],
  [("explicit per-byte state machines", "src/http_parser.cpp parse_headers/parse_chunks/consume_content")],
  ["parsed message", "gcount/bytes_available", "payload callback bytes"])
p("P09", "Damaged HTTP input is contained by the parser",
  "For any byte stream - truncated, corrupted or hostile - cut anywhere, the parser never reads or writes outside its buffers, throws, or fails to make progress; it reports success, a parse error, or that it needs more. No more than the configured maximum content, and of a method, resource, query, status message, header name or value no more than its fixed limit, is ever stored; an oversized message still ends where it ends, and a message cut short by end of input is never reported valid unless its framing allows that.",
  [I, F], "all byte streams obtained from valid ones by truncation, bit flips, insertion, deletion and splicing, all segmentations, all content limits",
  "tests contain a few malformed samples",
  ["src/http_parser.cpp", "include/pion/http/parser.hpp", "include/pion/http/message.hpp"],
  [("length limits and error codes per state", "src/http_parser.cpp"), ("m_max_content_length", "src/http_parser.cpp"), ("finish()/check_premature_eof()", "src/http_parser.cpp")],
  ["parser result", "content length", "memory accesses (ASan)"])
p("P10", "Lost packets leave marked gaps of exact size, never shifted data",
  "When the caller reports a gap of n lost bytes in the stream, either the parser refuses with an error (never for a gap that lies wholly inside the content), or it accounts for exactly n bytes so that everything received after the gap lands at its true offset and message ends are found where they are. Messages with gaps are flagged, and as partial or truncated according to whether data followed; messages without gaps never are.",
  [I, F], "all messages x all positions, sizes and numbers of lost segments x all segmentations of what was received",
  "one test per framing with a single fixed gap",
  ["src/http_parser.cpp"],
  [("parse_missing_data fills dummy content", "src/http_parser.cpp"), ("compute_msg_status", "src/http_parser.cpp")],
  ["content bytes", "message status", "parser verdict"])
p("P11", "Each HTTP request gets exactly one response, in order, and its own",
  "On every connection the server answers the requests it has received completely with exactly one response each, in request order, built from that request's own data, whether requests arrive pipelined, fragmented or one by one and however many connections are served at once. The connection stays open exactly when keep-alive was negotiated and is otherwise closed after the response; no response bytes are lost, duplicated or interleaved with another's.",
  [S, I, F], "all interleavings of worker threads, all pipelining depths and fragmentations across concurrent connections, slow readers and partial writes",
  "tests use one client and one request at a time",
  ["src/http_server.cpp", "src/http_reader.cpp", "src/http_writer.cpp", "src/tcp_server.cpp", "include/pion/http/response_writer.hpp", "services/EchoService.cpp", "services/HelloService.cpp", "services/CookieService.cpp"],
  [("lifecycle CLOSE/KEEPALIVE/PIPELINED and saved read position", "src/http_reader.cpp consume_bytes()"), ("finish_connection re-enters handle_connection", "src/tcp_server.cpp")],
  ["response byte stream per connection"])
p("P12", "Bad requests and failing handlers are contained to an error reply",
  "A malformed request is answered with 400 or the connection is closed, an unknown resource with 404, a handler that throws with 500, and endless redirection with 500; the connection is then closed or reusable as negotiated. None of this, nor a client that vanishes at any point, stops the server from answering every other client correctly, including at once.",
  [S, I, F], "all mixes of good, malformed, unknown, throwing and vanishing clients, with the failure at any byte or step",
  "tests exercise each error page once, alone",
  ["src/http_server.cpp", "src/http_reader.cpp", "src/http_writer.cpp"],
  [("handle_request error dispatch and try/catch", "src/http_server.cpp"), ("send_more_data on a lost connection finishes it", "include/pion/http/writer.hpp")],
  ["status lines", "service of concurrent well-behaved clients"])
p("P13", "An HTTP message read from the wire equals the message sent",
  "A request or response sent with the library's writers or blocking send - by content length or in chunks, with any content bytes - and read with the library's readers or blocking receive arrives with the same start line, headers and content, on fresh and reused connections; so does a message that was received - in chunks or not, with quoted cookies - and then sent on. The completion callback of every send and receive runs exactly once, and a message whose transfer was cut short, reset or timed out is reported as an error, never as a complete valid message.",
  [S, I, F], "all messages and chunk sequences, all fragmentations and partial writes, cuts and resets at any byte, both directions, with and without SSL",
  "message tests write to and read from memory or send one small message",
  ["include/pion/http/writer.hpp", "src/http_writer.cpp", "include/pion/http/request_writer.hpp", "include/pion/http/response_writer.hpp", "src/http_message.cpp", "src/http_reader.cpp", "include/pion/http/request_reader.hpp", "include/pion/http/response_reader.hpp"],
  [("prepare_write_buffers chunk framing", "src/http_writer.cpp"), ("message::send/receive", "src/http_message.cpp"), ("reader::handle_read_error", "src/http_reader.cpp")],
  ["received message", "error codes", "callback counts"])
p("P14", "Requests go to the handler their path selects, under reconfiguration",
  "A request is served by the handler registered for the longest path prefix (on whole path segments) of the requested resource, after applying registered redirects and ignoring a trailing slash, or gets 404 if there is none. While resources and redirects are added and removed concurrently each request is served by a registration that was in force at some moment while it was processed, and the registry is never corrupted.",
  [S, I, H], "all resource trees, redirects and request paths, all interleavings of registration changes with request handling",
  "tests register resources before starting and never change them under load",
  ["src/http_server.cpp", "include/pion/http/server.hpp"],
  [("upper_bound walk under m_resource_mutex", "src/http_server.cpp find_request_handler()")],
  ["which handler answered", "data races on the registry"])
p("P15", "Protected resources are never served without valid credentials",
  "With basic or cookie authentication active, the handler of a protected resource runs only for a request carrying credentials (or a session) that were valid at some moment while it was processed (for basic authentication: or were accepted shortly before and are still cached as P16 allows), and it sees that user's identity; otherwise the client gets 401 or the login redirect and the handler does not run. Resources that are not protected or are whitelisted stay reachable, and permissions and users can be changed concurrently.",
  [S, I, H], "all mixes of credentials, malformed headers, protected paths and concurrent user/permission changes, with any interleaving",
  "tests log in once with right and wrong passwords",
  ["src/http_auth.cpp", "src/http_basic_auth.cpp", "src/http_cookie_auth.cpp", "src/http_server.cpp", "include/pion/user.hpp"],
  [("need_authentication / find_resource", "src/http_auth.cpp"), ("m_auth_ptr->handle_request gate", "src/http_server.cpp")],
  ["handler invocations", "user seen by the handler"])
p("P16", "Revoked basic-auth credentials stop working in bounded time",
  "After a user is removed or given another password, basic-auth requests with the old credentials are refused at the latest once the credential cache lifetime of 300 s (twice, allowing for its cleanup interval) has passed by the wall clock, no matter how often they are used in between. Valid credentials are never refused, cached or not, and a cached login is never attributed to another user.",
  [S, H, F], "all histories of requests, user changes and clock advances (including clock jumps) from concurrent clients",
  "no test advances time or changes a password",
  ["src/http_basic_auth.cpp", "include/pion/http/basic_auth.hpp", "include/pion/user.hpp"],
  [("m_user_cache with CACHE_EXPIRATION", "src/http_basic_auth.cpp")],
  ["401 vs 200 over simulated time"])
p("P17", "Login sessions are unique, belong to their user, and end",
  "Every successful cookie login creates a session of its own that identifies exactly the user who logged in, even when many users log in at the same instant; requests with that session cookie act as that user. A session stops working for good when it is logged out and when it has been idle for the session lifetime of 3600 s (twice, allowing for cleanup), keeps working while it is used for protected resources within that lifetime, and no unissued cookie is ever accepted.",
  [S, H, F], "all histories of concurrent logins, logouts, requests and clock advances",
  "tests hold one session and never wait for expiry",
  ["src/http_cookie_auth.cpp", "include/pion/http/cookie_auth.hpp"],
  [("m_user_cache keyed by random cookie under m_cache_mutex", "src/http_cookie_auth.cpp")],
  ["session cookies", "user identity per request over simulated time"])
p("P18", "The user directory behaves atomically under concurrent use",
  "Adding, updating, removing, looking up and password-checking users from any number of threads has the effect of these operations taking place one at a time in some order consistent with real time. Reads through the directory never see a half-applied change, and a user object handed out stays usable after the user was removed.",
  [S, H], "all interleavings of user-management calls on few names from several threads",
  "the user manager has no concurrent test",
  ["include/pion/user.hpp"],
  [("user_manager::m_mutex around the map", "include/pion/user.hpp")],
  ["results of calls as a linearizable history", "data races"])
p("P19", "Plug-in libraries are loaded once and unloaded with the last user",
  "A plug-in library opened any number of times from any threads is loaded once, stays loaded while any handle or copy refers to it, and is unloaded exactly once when the last one goes away; afterwards it can be loaded again. A failed load or missing symbol is reported, leaks nothing and leaves all other plug-ins usable; no sequence of open, close, copy and assignment deadlocks.",
  [S, H, F], "all interleavings of open/close/copy/assign/reopen from several threads, all load and symbol failures",
  "tests open each plug-in once, from one thread, and no load fails half-way",
  ["src/plugin.cpp", "include/pion/plugin.hpp"],
  [("m_references under m_plugin_mutex", "src/plugin.cpp open/open_file/release_data/grab_data")],
  ["dlopen/dlclose calls", "is_open", "create/destroy"])
p("P20", "Managed plug-in objects are created and destroyed exactly once",
  "A plug-in manager shared by several threads hands out, runs and removes plug-in objects by name so that each object created is destroyed exactly once by the library that made it, before that library is unloaded, and is never used after that. A name refers to at most one object: of concurrent loads or adds of one name exactly one wins and the others fail cleanly. Looking up a resource path finds the object whose name is the longest matching prefix on whole path segments.",
  [S, H, F], "all interleavings of load, add, get, remove, run, clear and find from several threads, with creation failures",
  "tests use the manager from one thread",
  ["include/pion/plugin_manager.hpp", "include/pion/plugin.hpp", "src/plugin.cpp"],
  [("m_plugin_mutex around the map", "include/pion/plugin_manager.hpp")],
  ["create/destroy counts", "use after destroy"])
p("P21", "Files are served whole and from one version, or an error is reported",
  "A successful file response carries exactly the bytes of one version of the requested file that existed while the request was processed or that the configured cache policy allows, with matching length and type, whatever the chunk and cache settings and however requests and file changes interleave. If the file vanishes, shrinks or cannot be read the client gets an error or sees the connection end short of the announced length - never wrong bytes under a success - and the connection is always concluded, so that it neither hangs nor leaks. A file that is there all the time is served. (Files change by being replaced, created, removed or cut short; a file that someone rewrites in place while it is read is not one version. Without caching nothing older than the request is served; cache=1 recognises a change by size and whole second of modification; cache=2 ignores changes.)",
  [S, H, F, C], "all interleavings of requests with file creation, change and deletion, all cache/chunk settings, read/open/stat errors and short reads at any point",
  "file tests fetch unchanging files one at a time",
  ["services/FileService.cpp", "services/FileService.hpp"],
  [("DiskFile::checkUpdated and the cache map under m_cache_mutex", "services/FileService.cpp"), ("DiskFileSender chunk loop", "services/FileService.cpp")],
  ["response bytes vs file history", "connection end"])
p("P22", "The file service never touches anything outside its directory",
  "Whatever path, encoding, method or link-free directory layout is requested, the file service reads, lists, creates, changes or deletes only files inside the directory (or the single file) it was configured to serve. Requests that point elsewhere are refused.",
  [I, F, C], "all request paths and methods with dot segments, encodings, sibling names sharing a prefix, absolute paths, and concurrent requests and I/O errors",
  "tests try two fixed escapes",
  ["services/FileService.cpp"],
  [("normalised path must start with the configured directory", "services/FileService.cpp operator()")],
  ["paths given to open/stat/unlink/rename/mkdir (recorded stand-ins)"])
p("P23", "Acknowledged uploads and deletions have really happened",
  "When PUT, POST or DELETE on the file service reports success, the file has exactly the content sent (appended for POST), or is gone, as the method says, and stays so until a later request changes it; later reads observe it. Concurrent changes of a file have the effect of one after the other. If writing fails for any reason - disk full, I/O error, short write - the client is told so, and refused or read-only requests change nothing.",
  [S, H, F], "all sequences and interleavings of PUT/POST/DELETE/GET on a few files with disk-full, I/O errors and short writes at any write or close",
  "tests never fail a write",
  ["services/FileService.cpp"],
  [("boost::filesystem::ofstream write then status", "services/FileService.cpp")],
  ["status code vs file content"])
p("P24", "SPDY frames decode to what was sent across a whole session",
  "For a SPDY session with any number of interleaved streams in both directions, feeding its frames to the parser in order decodes each header block to exactly the headers encoded with the session's compression state, and each frame's kind, stream, data extent and final flag, however many frames share a packet. A frame that is refused does not change the meaning of frames already decoded.",
  [I, H, F], "all sequences of SYN_STREAM/SYN_REPLY/HEADERS/DATA/control frames on several streams, all packings of frames into packets",
  "tests decode one captured request and response",
  ["src/spdy_parser.cpp", "src/spdy_decompressor.cpp"],
  [("separate request/response zlib streams", "src/spdy_decompressor.cpp"), ("m_current_data_chunk_ptr walk", "src/spdy_parser.cpp")],
  ["http_protocol_info per frame"])
p("P25", "Damaged SPDY packets are refused without harm",
  "For any packet - truncated, corrupted, with lying lengths or hostile compressed data - the SPDY parser reads nothing outside the packet it was given and its own buffers, terminates, and either decodes or reports an error. After a damaged packet the parser remains usable for a new session.",
  [I, F], "all packets obtained from valid sessions by truncation, bit flips, length tampering and splicing",
  "tests contain a handful of malformed frames inside larger arrays, so overreads go unseen",
  ["src/spdy_parser.cpp", "src/spdy_decompressor.cpp"],
  [("populate_frame / header block bounds", "src/spdy_parser.cpp")],
  ["memory accesses (ASan)", "result and error code"])
p("P26", "The process shutdown signal is never lost",
  "Whoever waits for process shutdown is released once shutdown has been requested, whether the request came before, during or after the wait began and from whichever and however many threads, and nobody is released before. Waiting again after shutdown returns at once.",
  [S], "all interleavings of any number of waiters and requesters, with spurious wake-ups",
  "the test has one waiter and one fixed order",
  ["src/process.cpp", "include/pion/process.hpp"],
  [("shutdown_now flag + condition under shutdown_mutex", "src/process.cpp")],
  ["return of wait_for_shutdown()"])
p("P27", "Web services live exactly as long as the server offers them",
  "A web service loaded into the plug-in server knows its resource before its first request. Services present when the server starts are started once, and stopped once when it stops or when starting fails; a service that joins a running server serves at once. A service receives only requests under its resource, with the matching relative path, and only while it is offered. It is destroyed exactly once, by its own library, before that library is unloaded and never while an unanswered request is inside. Each service option either arrives or the failure is reported. Loading a configuration file either takes complete effect - including an unterminated last line - or reports the error, and an unreadable or malformed file is an error.",
  [S, H, F], "all interleavings of load, option setting, start, failed start, requests, stop and clear; configuration files with errors and read faults at any point",
  "tests load services before starting, single-threaded, from well-formed files",
  ["src/http_plugin_server.cpp", "include/pion/http/plugin_server.hpp", "include/pion/http/plugin_service.hpp", "include/pion/plugin_manager.hpp", "src/tcp_server.cpp"],
  [("before_starting/after_stopping run start/stop on all services", "include/pion/http/plugin_server.hpp"), ("load_service_config", "src/http_plugin_server.cpp")],
  ["service call log", "library ledger (simulated dlopen)", "reference model of the configuration file"])
p("P28", "Administrator rights are held by one thread at a time and given back",
  "Rights are raised only between acquiring and releasing them, by at most one thread at a time, and the previous identity is back in force when the last holder lets go, including by exception. If raising or restoring fails this is reported and never blocks the next one to ask.",
  [S, F], "all interleavings of acquire/release from several threads with failures of the identity system calls at any call",
  "rights are only ever acquired once, by root, in tests",
  ["src/admin_rights.cpp", "include/pion/admin_rights.hpp"],
  [("static mutex locked for the holder's lifetime; seteuid", "src/admin_rights.cpp")],
  ["sequence of identity changes (recorded stand-ins)"])
p("P29", "Text supplied by a client cannot forge parts of a response",
  "Whatever a client puts into its requests, every request gets exactly one response, of which no status line, header or body boundary originates in the request's text: header values carry no line breaks. HTML pages of the library and of the shipped services show request text only in escaped form. The echo service repeats exactly the request it was sent.",
  [I, S, F], "all request targets, headers, queries, cookies and contents (including encoded control characters and markup), any pipelining, segmentation and connection loss",
  "tests send harmless text only, and look for expected substrings",
  ["include/pion/http/message.hpp", "src/http_server.cpp", "src/http_cookie_auth.cpp", "src/http_basic_auth.cpp", "services/CookieService.cpp", "services/EchoService.cpp", "services/FileService.cpp"],
  [("append_headers", "include/pion/http/message.hpp"), ("handle_redirection", "src/http_cookie_auth.cpp"), ("algorithm::xml_encode of request text", "services")],
  ["response bytes on the wire"])
p("P30", "Threads using their own parsers and messages do not influence each other",
  "However many threads parse HTTP messages or SPDY sessions, build messages, or encode, decode and format text at the same time, each with objects of its own, every one of them gets what it would have got alone: nothing is shared behind their backs, and what is shared (first-use initialisation, C library state) is synchronised.",
  [S, I], "all interleavings of any number of threads working on unrelated objects, including the first use of everything, and all inputs",
  "tests use one thread",
  ["src/http_types.cpp", "src/http_parser.cpp", "src/http_message.cpp", "src/algorithm.cpp", "src/spdy_parser.cpp", "src/spdy_decompressor.cpp"],
  [("get_date_string's mutex around gmtime", "src/http_types.cpp"), ("call_once for the error category", "include/pion/http/parser.hpp"), ("call_once for the error category", "include/pion/spdy/parser.hpp")],
  ["results of each thread", "memory accesses"])
p("P31", "Messages kept in streams survive, and failures are reported",
  "A message written to a stream - one made through the interface or one that was received, whatever its framing was - and read back is the same message, and reading takes exactly the bytes of one message, so that messages kept one after another come back one by one. When the stream is full, ends early, has ended already or fails on the way, write() and read() report an error; what could not be read completely is never taken for a complete message.",
  [I, F, H], "all messages and sequences of messages, devices that fill up, tear off or fail at any byte, reused message objects",
  "the message test writes one small message to a file that never fails",
  ["src/http_message.cpp", "include/pion/http/message.hpp", "include/pion/http/request.hpp"],
  [("message::write", "src/http_message.cpp"), ("message::read", "src/http_message.cpp"), ("prepare_buffers_for_send", "include/pion/http/message.hpp")],
  ["bytes in the stream", "error codes", "the message read back"])
p("P32", "A process takes on the identity it was told to, or keeps its own",
  "Told to run as a user or group, the process takes on exactly the identity that the system's user or group file gives to that name (or the number itself) and returns it, whatever the other lines and fields of the file hold and while the file is replaced; every valid id works. If there is no such name, the file cannot be read or the system refuses, the identity stays what it was, and a refusal is reported. It never takes on an identity that belongs to another name.",
  [F, I, S], "all user and group files (empty fields, comments, damaged and long lines, duplicates), replaced at any time, read errors, refusals, any number of threads using administrator rights",
  "not tested at all",
  ["src/admin_rights.cpp", "include/pion/admin_rights.hpp"],
  [("run_as_user, run_as_group, find_system_id", "src/admin_rights.cpp")],
  ["effective user and group ids (recorded stand-ins)", "return values"])
# pure functions
p("P33", "Connecting succeeds if an address answers, and otherwise says why",
  "Connecting to a host by name tries the addresses it resolves to in order until one is connected, whatever happened to the ones before it (refused, unreachable, timed out, of another address family): it succeeds exactly if one of them accepts, and the connection then leads to that address and can be used at once. If the name cannot be resolved or no address can be connected, an error that really occurred is reported and the connection is left closed and can be used for another attempt. Connecting to a given address, directly, through a stream (SSL handshake included) or asynchronously with exactly one call of the handler, reports the outcome of that attempt. No socket is leaked on any of these paths.",
  [I, F, H], "all combinations of names and addresses (IPv4 and IPv6) that accept, refuse, are unreachable or never answer, hosts that come and go during the call, resolver failures, and all sequences of calls that reuse a connection after success or failure",
  "tests connect to a local port that always answers",
  ["include/pion/tcp/connection.hpp", "include/pion/tcp/stream.hpp"],
  [("connect(name, port): resolve, try each endpoint, close in between", "include/pion/tcp/connection.hpp"), ("stream::connect", "include/pion/tcp/stream.hpp")],
  ["returned error code and is_open()", "sequence of connection attempts on the network", "data exchanged afterwards"])
p("P90", "Text encodings round-trip",
  "Decoding what was base64-, URL- or XML-encoded gives back the original for every byte string.",
  [I], "all byte strings", "tests sample a few strings",
  ["src/algorithm.cpp"], [("encode/decode functions", "src/algorithm.cpp")])
p("P91", "Multi-byte integers are converted in network order",
  "Reading back an integer stored with the byte-order helpers gives the same integer for every value and width.",
  [I], "all integers", "tests sample a few values",
  ["include/pion/algorithm.hpp"], [("to_uintNN/from_uintNN", "include/pion/algorithm.hpp")])
p("P92", "HTTP dates and cookie headers are well formed",
  "Every date and cookie header the library formats follows the HTTP syntax for every input value.",
  [I], "all times and cookie values", "tests sample one value",
  ["src/http_types.cpp"], [("get_date_string/make_set_cookie_header", "src/http_types.cpp")])
out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
