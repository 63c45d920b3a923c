# Per-property build and run configuration of ./check. One entry per claimed property.
PROPS = {
 "C24": dict(title="codecs", builds=[dict(name="codec", src=["c24_codec.cpp"])],
   rule="A case is one generated input (bytes, encoded text, number) pushed through a codec and compared with OpenSSL or a first-principles reference; non-trivial = a distinct input."),
 "C22": dict(title="JSON round trip", builds=[dict(name="json", src=["c22_json.cpp"], libs=[])],
   rule="A case is one randomly generated value of a user-defined type: written, parsed by an independent strict parser, read back, and read from two randomly reformatted equivalent texts. Non-trivial = distinct value."),
 "C23": dict(title="hostile JSON", builds=[dict(name="hostile", src=["c23_json_hostile.cpp"], libs=[])],
   rule="A case is one text (truncation, mutation, type substitution or random bytes of a document of some type) read from an exact-size heap block, or one byte string serialised. Non-trivial = distinct text."),
 "C01": dict(title="tasks", builds=[dict(name="task", src=["c01_task.cpp"], libs=[], leaks=True)],
   rule="A case is one random tree of tasks (return/throw/sleep/yield/await/catch/generator/move/never-started, 8 result types) run in one of five ways; its event history, outcome and live-object count are compared with a plain recursive evaluation. Evaluations = compared events; non-trivial = distinct history."),
 "C02": dict(title="when all / when any", builds=[dict(name="when", src=["c02_when.cpp"], libs=[], leaks=True)],
   rule="A case is one whenAll/whenAny (call or operator form, 1-8 operations of five result types, random suspensions and failures, nested forms, kernel operations against timeouts); results are judged against the event log the operations wrote. Evaluations = logged events; non-trivial = distinct event sequence."),
 "C03": dict(title="timers and loop", builds=[dict(name="loop", src=["c03_loop.cpp"], libs=[], leaks=True), dict(name="race", src=["c03_loop.cpp"], libs=[], san="tsan", shards=4, scale=0.25)],
   rule="A case is one random history of sleeps, yields, spawns, destructions, I/O and thread work on a loop; an online monitor holds the set of pending sleepers and yielders and judges every resumption (not early, deadline order, FIFO among equals, once). Evaluations = judged resumptions; non-trivial = distinct resumption order."),
 "C04": dict(title="thread pool", builds=[dict(name="pool", src=["c04_pool.cpp"], libs=[], leaks=True), dict(name="race", src=["c04_pool.cpp"], libs=[], san="tsan", scale=0.3)],
   rule="A case is one pool configuration (fixed or monitored with a default/greedy/flapping/random strategy) under several submitting threads and a random mix of task kinds, continuation chains, waits and destruction moments; per-task run counters, done-flags, gauges and outcomes are judged. Evaluations = judged tasks; non-trivial = distinct (workload, observed concurrency)."),
 "C05": dict(title="serial executor", builds=[dict(name="serial", src=["c05_serial.cpp"], libs=[], leaks=True)],
   rule="A case is one random history of coroutines submitting suspending/throwing tasks to an executor, with clears, tear-downs and re-use; an online FIFO monitor judges every start, end and resumption. Evaluations = judged events; non-trivial = distinct event sequence.",
   assumptions=["a task that is running keeps its submitter and executor alive (documented lifetime rule); tear-down of both together is exercised"]),
 "C06": dict(title="value containers", builds=[dict(name="values", src=["c06_values.cpp"], libs=[], leaks=True)],
   rule="A case is one random operation sequence on a few containers of one kind (variant of 7 or 4 alternatives, Try, Uninitialized, shared pointer, type-erased function) compared after every step with a plain reference model; payloads register their lifetime and may throw while constructing. Evaluations = operations; non-trivial = distinct operation/state trace.",
   assumptions=["an object is never emplaced from a reference into itself"]),
 "C07": dict(title="lookup tables", builds=[dict(name="tables", src=["c07_tables.cpp"], libs=[])],
   rule="A case is one random set of distinct keys (14 table sizes, 4 integer/enum key types, strings, 15 key families) built into a perfect-hash map and queried with all its keys, their neighbours/mutations and random keys against std::map; or one operation sequence on the prefix tree / fixed buffers. Evaluations = judged queries; non-trivial = distinct key set."),
 "C08": dict(title="file I/O", builds=[dict(name="file", src=["c08_file.cpp"], libs=[], leaks=True)],
   rule="A case is one life of 1-6 files on one loop (random modes, contents, chunkings, offsets), a set of whole-file helper calls, a battery of operations that must fail with the right error and no descriptor left, or a pipe transfer; contents are compared with an in-memory model and with the disk. Evaluations = judged file rounds and errors; non-trivial = distinct (mode, size, content)."),
 "C26": dict(title="names, numbers and strings", builds=[dict(name="text", src=["c26_text.cpp"], libs=[])],
   rule="A case is one text (boundary integers of every width +-2, random floating-point values in several notations, mutated with junk and control bytes, enum names and near misses, random strings and delimiters) in an exact-size heap block, converted by the library and by an independent reference; plus every enum value in range, and type/function/member names. Evaluations = judged conversions; non-trivial = distinct text."),
 "C27": dict(title="formatting and logging", builds=[dict(name="format", src=["c27_format.cpp"], libs=[]), dict(name="format-tsan", src=["c27_format.cpp"], san="tsan", libs=[], only="log", shards=2)],
   rule="A case is one random value of a supported shape (scalars, text, 12 container kinds, maps, tuples, optionals, variants, pointers, nested reflected aggregates) rendered compactly and indented, built and streamed, against an independent formatter; or 2-7 threads logging up to 440 messages each (payloads to 9 KB, with NUL bytes), the captured output split back into messages. Evaluations = judged renderings and log lines; non-trivial = distinct value / log run."),
 "C09": dict(title="request heads", builds=[dict(name="head", src=["c09_head.cpp"])],
   rule="A case is a connection carrying 1-4 random well-formed requests (methods, targets, unique query parameters, recased header names, optional white space, repeated and obs-text values, heads to 120 KB, lines up to the 16 KB buffer) sent pipelined or one by one, each byte-exact segment consumed before the next; what the handler saw is compared with what was sent. Evaluations = compared fields; non-trivial = distinct byte stream."),
 "C10": dict(title="request bodies", builds=[dict(name="body", src=["c10_body.cpp"], leaks=True)],
   rule="A case is a connection with 1-4 requests whose bodies (0-300 KB around the buffer sizes, length or chunked with extensions, trailers, hex variants) are read whole, saved, read twice or left unread, in random byte-exact segments, next request following at once; or one of 13 families of malformed / truncated / stalled bodies followed by a disguised request. The bytes the handlers saw and the dispatches are compared with what was sent. Evaluations = compared facts; non-trivial = distinct byte stream."),
 "C11": dict(title="hostile clients", builds=[dict(name="hostile", src=["c11_hostile.cpp"], leaks=True)],
   rule="A case is one byte stream (random, mutated or concatenated requests; or one of 16 families of heads that are malformed beyond doubt) in random segments with the client closing, shutting down, or stalling; or a real server under 6 hostile (resets, stalls, half requests, unread megabytes, throwing handlers) and 3 healthy clients; or descriptor exhaustion. Sanitizers, dispatch log, answer parser, descriptor and thread counts, time bounds decide. Evaluations = judged connections; non-trivial = distinct byte stream."),
 "C12": dict(title="one answer per request", builds=[dict(name="conn", src=["c12_conn.cpp"]), dict(name="race", src=["c12_conn.cpp"], san="tsan", shards=2, scale=0.3, only="clients")],
   rule="A case is a connection with 2-10 requests to endpoints of nine shapes (parameters, wildcard, bodies read or not, custom status and headers, files, ranges, not found), pipelined or not; each answer is compared with the expected echo and with the answer the same request gets alone on a fresh connection; keep/close is judged; or 8-40 clients with unique tokens on a real server (also under the race detector). Evaluations = judged answers; non-trivial = distinct byte stream / client run."),
 "C13": dict(title="routing", builds=[dict(name="router", src=["c13_router.cpp"])],
   rule="A case is a random set of 1-25 overlapping patterns (literals, parameters, trailing wildcards, re-registrations, 1-3 methods) and 10-60 requests derived from them or at random, with repeated slashes and query strings, pipelined through a connection; the handler that ran, all parameters, their conversions to five types and the wildcard remainder are compared with a reference matcher. Evaluations = judged dispatches; non-trivial = distinct pattern set."),
 "C14": dict(title="interceptors", builds=[dict(name="intercept", src=["c14_intercept.cpp"]), dict(name="race", src=["c14_intercept.cpp"], san="tsan", shards=2, scale=0.4, only="clients")],
   rule="A case is a pipelined connection with 1-12 requests to endpoints with ten interceptor lists (0-5 interceptors, synchronous and coroutine hooks, five verdict types, missing hooks, four path kinds, the not-found endpoint), hooks suspending, refusing or throwing on request; or 12 concurrent clients on a real server (also under the race detector). The per-request event log is compared with the specified order. Evaluations = judged events; non-trivial = distinct event sequence per list."),
 "C15": dict(title="responses", builds=[dict(name="response", src=["c15_response.cpp"], leaks=True)],
   rule="A case is a connection with 1-6 requests whose handlers set random status, reason, 0-40 headers, bodies of 0-1.1 MB (sent at once, chunked file, whole file, HEAD), pipelined or not, into normal or tiny buffers; or a real server with slow readers; or a file that vanishes, shrinks, grows, or a client that leaves in the middle. A strict parser of the wire bytes compares every field with what the handler set. Evaluations = compared facts; non-trivial = distinct response."),
 "C16": dict(title="ranges", builds=[dict(name="range", src=["c16_range.cpp"], leaks=True)],
   rule="A case is a file (0 bytes to 9 GB sparse, with delimiter look-alikes inside) and 1-8 requests with no range, one, several, unsatisfiable, malformed or foreign-unit ranges, or HEAD, on one connection; or clients that learn the size and download it in pieces over broken connections. A reference evaluates the range set and the bytes, ranges, delimiters and lengths on the wire are compared. Evaluations = compared facts; non-trivial = distinct range set and size."),
 "C28": dict(title="server life cycle", builds=[dict(name="life", src=["c28_life.cpp"], leaks=True), dict(name="race", src=["c28_life.cpp"], san="tsan", shards=3, scale=0.5, only="cycle")],
   rule="A case starts a server with 1-6 threads, brings 0-8 clients into seven states (silent, half a head, half a body, idle, waiting, megabytes unread, gone) plus busy ones, and stops it at a random moment in five ways (also under the race detector); or watches 14 idle and active clients against an 800 ms timeout; or starts on taken and reused ports. Stop time, answers, threads, descriptors, port and memory are monitored. Evaluations = monitored facts; non-trivial = distinct scenario."),
 "C17": dict(title="HTTP client", builds=[dict(name="client", src=["c17_client.cpp"], leaks=True), dict(name="race", src=["c17_client.cpp"], san="tsan", shards=2, scale=0.4, only="life,shared")],
   rule="A case is 1-7 requests (seven methods, random targets, headers and bodies to 150 KB, path-only URLs, two servers) answered by a scripted raw server with random well-formed responses (interim responses, repeated and obs-text fields, length / chunked / close-delimited / bodyless framing, announced and silent closes) in exact segments; or one broken answer of nine families (cut anywhere then close/reset/stall, bad status lines, lengths, chunks, mutations) and the request after it; or an upload; or clients sharing a loop; or a life-cycle scenario. Both ends are compared with the plan. Evaluations = compared facts; non-trivial = distinct script."),
 "C18": dict(title="client pool", builds=[dict(name="pool", src=["c18_pool.cpp"], leaks=True), dict(name="race", src=["c18_pool.cpp"], san="tsan", shards=3, scale=0.5)],
   rule="A case is a pool of 1-9 clients under 1-6 submitting threads (uniquely named requests of four kinds, one by one or in bursts), an echo server with random delays, framings and closes, and concurrent resizes and closes; or a pool torn down with requests queued; or broken, stalling and dead servers mixed with a good one. Receipts at the server and completions at the client are counted per request (also under the race detector). Evaluations = judged completions; non-trivial = distinct workload."),
 "C29": dict(title="URLs", builds=[dict(name="url", src=["c29_url.cpp"], leaks=True)],
   rule="A case is one URL assembled from random components (scheme, credentials, name/IPv4/IPv6 host, port, path, query, fragment) or a mutated/random text, in an exact-size heap block, taken apart by every function of the library and compared with the components / an independent RFC 3986 reference; or a series of URLs requested by a client against three listeners on different addresses; or a client asked for names with 0-4 addresses (through a stand-in resolver) of which at most one accepts. Evaluations = compared components; non-trivial = distinct URL."),
 "C19": dict(title="server-sent events", builds=[dict(name="sse", src=["c19_sse.cpp"], leaks=True)],
   rule="A case is a stream of 0-14 random events (multi-line, empty and large data, names, ids, retry, comments, unknown fields, three line ends, unfinished tail) from a raw server to the library's client in exact segments with three framings; or 0-20 events pushed by the library's server to an independent consumer; or both ends of the library over TCP, several clients at once, some stopping early; or one of six broken streams. The event lists at both ends are compared. Evaluations = compared events; non-trivial = distinct byte stream.",
   assumptions=["event data, names and ids hold no carriage return (the format cannot carry one); a standard consumer does not dispatch a block without data, so such events are judged only library to library"]),
 "C20": dict(title="websocket messages", builds=[dict(name="ws", src=["c20_ws.cpp"], leaks=True)],
  rule="A case is a connection in the server or the client role: 1-12 random messages each way (lengths around every encoding boundary, any bytes), fragmented and masked at random by an independent RFC 6455 peer and fed in random segments (also glued to the handshake), received and sent through every call of the library, then closed from either side; or one good or bad opening handshake. Evaluations = compared messages and handshakes; non-trivial = distinct script."),
 "C21": dict(title="websocket control and violations", builds=[dict(name="ctl", src=["c21_wsctl.cpp"], leaks=True, maxalloc=256)],
  rule="A case is a connection in the server or the client role that receives messages, fragments, pings, pongs and closes in random order and segmentation; or a correct stream damaged in one of 14 ways (every framing violation, absurd lengths, truncation, resets, flipped, shifted and random bytes), judged by an independent reference decoder; or a peer that is silent inside or between frames. Evaluations = judged facts; non-trivial = distinct script."),
 "C25": dict(title="tokens", builds=[dict(name="token", src=["c25_token.cpp"], leaks=True)],
  rule="A case is a random payload issued under one of four keys (two differ in one bit), opened by the library and by OpenSSL directly, and refused under another key; or one token altered in every single bit, cut at every place, extended, recombined with another, resealed with short or zero tags and other keys; or hostile text; or the cipher alone with random keys against OpenSSL; nonces are collected over the whole run and all threads. Evaluations = verdicts; non-trivial = distinct token."),
 "C30": dict(title="proxies", builds=[dict(name="proxy", src=["c30_proxy.cpp"], leaks=True)],
  rule="A case is a client behind an independent HTTP or SOCKS5 proxy endpoint with a random target (names, IPv4, IPv6, every kind of port), credentials of 1-255 bytes or none, the proxy's replies in random legal forms and segments, and 1-4 requests through the tunnel that also reconnect; or a proxy that refuses, cuts its reply at every place, answers another protocol, leaves, stalls or fails only on reconnection, every byte the client sends it being recorded. Evaluations = judged facts; non-trivial = distinct negotiation."),
 "C35": dict(title="AI client", builds=[dict(name="ai", src=["c35_ai.cpp"], leaks=True)],
  rule="A case is a conversation of 1-5 turns by one client (own or shared event loop): random messages with text, images and tool calls, random options, answered whole or as a stream of 0-14 random chunks (null or absent members, any JSON spelling over several data lines, comments, chunked or close-delimited, exact segments), some of them refused, malformed, cut anywhere, without [DONE], or with a consumer that throws. Evaluations = compared chunks and outcomes; non-trivial = distinct conversation.",
  assumptions=["members without a value may be sent as null; a server ends the stream after [DONE]","a chunk holds only members of the documented type: the JSON reader refuses unknown ones by design"]),
 "C36": dict(title="asynchronous operations", builds=[dict(name="aio", src=["c36_aio.cpp"], leaks=True)],
  rule="A case is 1-12 actors on one of 1-3 event loops in as many threads, each making random operations on its own files and sockets (opens with random names, flags and modes; positioned and sequential reads and writes; stream and packet sockets with peeking, waiting and non-blocking receives; connects and accepts over TCP and Unix sockets, refused ones included; polls; closes; linked timeouts that expire) compared one by one with plain system calls and a byte model; or 20-500 byte streams through socket pairs with up to 900 receives abandoned in mid-flight. Evaluations = compared results; non-trivial = distinct history of operations."),
 "C33": dict(title="TLS", builds=[dict(name="tls", src=["c33_tls.cpp"], leaks=True), dict(name="mtls", src=["c33_tls.cpp"], flags=["-DVF_MTLS"], leaks=True, scale=0.3), dict(name="tls-tsan", src=["c33_tls.cpp"], san="tsan", only="both,server", scale=0.3, shards=2)],
  rule="A case is: an independent OpenSSL client (TLS 1.2 or 1.3, every wire segment size from single bytes up, key updates, small records) and its pipelined requests - echoes, bodies around every buffer limit, files, ranges - to the TLS server; a hostile peer next to a healthy connection (garbage, plain HTTP, cuts, resets, stalls and bit flips at random places of the handshake or the data, absurd records, missing or foreign client certificates); resumed sessions; the connection object itself in either role, with every way to send and receive, in turns and both ways at once, to every kind of end; the TLS client against an independent OpenSSL server, trustworthy or not (self-signed, another host's, expired, garbage, plain, cut or altered), also through tunnels of proxies; or both ends of the library with bodies, uploads, event streams and websockets on several threads. Every byte on the wire is recorded and must not show the plain text. Evaluations = judged facts; non-trivial = distinct exchanges."),
 "C31": dict(title="database rows", builds=[dict(name="rows", src=["c31_rows.cpp"], flags=["-DHXLIBS_ENABLE_DB_SQLITE3"], libs=["-lsqlite3"], leaks=True)],
  rule="A case is a random sequence of 10-60 statements (inserts of five kinds, updates by eight conditions, deletes, selects, constraint violations, multi-row violations that fail in the middle, transactions, lock conflicts with another connection, reopening, moving) on one or two databases whose rows hold every supported type with boundary and hostile values; or tables with composite and inner keys, defaults, references and indexes; or opening and reopening; or results of 1-4000 rows; or a database object moved while its statements are in use. After every statement results, counts and identifiers are compared with a model, the file with it byte for byte through the plain sqlite3 API, and no lock may remain. Evaluations = compared facts; non-trivial = distinct sequence.",
  assumptions=["mapped types are the signed integers, floating point, strings, byte blobs, custom types (enums through them) and optionals of these", "NaN is stored as NULL and the sign of zero is not kept, as sqlite does; NULL in a column that is not optional reads as zero or empty"]),
 "C32": dict(title="database queries", builds=[dict(name="query", src=["c32_query.cpp"], flags=["-DHXLIBS_ENABLE_DB_SQLITE3"], libs=["-lsqlite3"], opt="-O0", leaks=True)],
  rule="A case is random tables (hostile text, NULLs, extreme numbers) and queries over them: 150 expression shapes (comparison, logic, arithmetic, lists, patterns, null tests, literals on both sides, parameters by position, temporary and name), each template used again with other data and parameters, in SELECT, UPDATE and DELETE; orders and limits; groups, filters and aggregates; inner, left, right and double joins. The rows are compared with the same C++ expression evaluated under SQL's three-valued logic, and the tables must stay untouched. Evaluations = judged rows; non-trivial = distinct data and queries.",
  assumptions=["a named parameter occurs once in an expression; parameters stand on the right of an operator or in a list"]),
}
