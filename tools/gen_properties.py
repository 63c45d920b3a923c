#!/usr/bin/env python3
"""Single source for /verif/properties.jsonl (run: python3 tools/gen_properties.py)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": ["include/HXLibs/" + f for f in files],
         "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

# ---------------------------------------------------------------- coroutine
prop("C01", "Coroutine tasks run once, deliver one outcome, and are destroyed once",
 "Awaiting a task (or running it to completion on an event loop, synchronously or as a captured outcome) runs its body exactly once, starting only when it is awaited or started, and hands the awaiter exactly the value the body returned or exactly the exception it threw, at any nesting depth and whether or not the body suspended on timers, yields or I/O in between. "
 "Values yielded by a generator-style task arrive in order. Every local, parameter and result is destroyed exactly once, also when the task throws or is never started.",
 ["programs", "schedules"], "every nesting/sequence of tasks that return, throw, yield or suspend, under every interleaving of the suspensions",
 "tests await a handful of fixed tasks; lifetimes are never counted and no exception crosses more than one level",
 ["coroutine/task/Task.hpp", "coroutine/promise/Promise.hpp", "coroutine/awaiter/ExitAwaiter.hpp", "coroutine/awaiter/PreviousAwaiter.hpp", "coroutine/task/RootTask.hpp", "coroutine/loop/EventLoop.hpp", "container/Uninitialized.hpp"],
 [("symmetric transfer back to the awaiter at final suspend", "coroutine/awaiter/PreviousAwaiter.hpp"), ("result()/unhandled_exception()", "coroutine/promise/Promise.hpp"), ("sync/trySync/tryAsync", "coroutine/loop/EventLoop.hpp")],
 ["value/exception seen by the awaiter", "construction/destruction counts", "AddressSanitizer"])
prop("C02", "Waiting for all or any of several operations reports exactly what they did",
 "Waiting for all of several operations resumes the waiter once, only after every one of them has finished, and reports for each position the value or exception of the operation at that position; one failing operation does not hide or disturb the others. "
 "Waiting for any of them resumes the waiter once with the position and value (or the exception) of the first to finish, and the losers never run any further nor touch freed memory. Both forms, written as function calls or chained with && and ||, give the same answers.",
 ["programs", "schedules"], "every number and mix of operations (immediate, suspended, throwing, void, move-only) and every completion order",
 "tests use two or three timers with fixed durations and print the outcome",
 ["coroutine/awaiter/WhenAll.hpp", "coroutine/awaiter/WhenAny.hpp"],
 [("remaining-count control block", "coroutine/awaiter/WhenAll.hpp"), ("first-finisher control block", "coroutine/awaiter/WhenAny.hpp")],
 ["result tuple/variant", "event log of children", "AddressSanitizer"])
prop("C03", "Timers fire once, never early, in deadline order, and the loop never exits early",
 "A coroutine sleeping on the event loop is resumed exactly once, never before its deadline, and sleepers with different deadlines are resumed in deadline order, sleepers with equal deadlines in the order they went to sleep; coroutines that merely yield are resumed in turn. "
 "A sleeper that is destroyed before its deadline is never resumed. The loop returns only when nothing is left to run, and work of every kind (timers, yields, I/O, thread work) keeps making progress while the others are pending.",
 ["schedules", "histories"], "every set and history of sleeps, yields, cancellations and I/O on one loop",
 "tests sleep a few fixed times and check nothing about order, earliness or cancellation",
 ["coroutine/loop/TimerLoop.hpp", "coroutine/loop/EventLoop.hpp"],
 [("timer tree and yield queue", "coroutine/loop/TimerLoop.hpp"), ("run()", "coroutine/loop/EventLoop.hpp")],
 ["monotone log of (deadline, resume time)"])
prop("C04", "A thread pool runs every task exactly once and its futures tell the truth",
 "Every task accepted by a running pool is executed exactly once, whatever the number of submitting threads and whatever the pool is doing to its size, which stays within the configured bounds. "
 "A future becomes ready only after its task finished and then yields exactly that task's value or exception; continuations run exactly once with that outcome and pass their own result or exception on. Creating, using, resizing and destroying a pool never deadlocks or races; destroying it lets the tasks already started finish and drops (without running or leaking) those not yet started.",
 ["schedules", "histories"], "every interleaving of submitters, workers, waiters and the resizing monitor; every mix of returning, void and throwing tasks and continuations",
 "tests submit a few tasks from one thread; lost wake-ups and early readiness need particular interleavings",
 ["container/ThreadPool.hpp", "container/FutureResult.hpp", "container/SafeQueue.hpp", "container/MoveOnlyFunction.hpp", "coroutine/loop/ThreadLoop.hpp"],
 [("worker loop and condition variable", "container/ThreadPool.hpp"), ("shared future state", "container/FutureResult.hpp")],
 ["per-task execution counters", "ThreadSanitizer", "future outcomes"])
prop("C05", "A serial executor runs coroutines one at a time, in submission order, each once",
 "Coroutines submitted to one serial executor never overlap: each starts only after the previous one finished, in submission order, and each runs exactly once; the submitter resumes after its own coroutine has finished. "
 "This holds when they suspend in the middle, when more are submitted while one runs, and after the executor has been idle or cleared; clearing or destroying the executor drops those still waiting without running or leaking them.",
 ["schedules", "histories"], "every history of submissions, suspensions inside the submitted coroutines, clears and re-use",
 "the test runs one fixed scenario and logs it",
 ["coroutine/executor/SerialExecutor.hpp"],
 [("run queue and running flag", "coroutine/executor/SerialExecutor.hpp")],
 ["start/finish log per coroutine", "live-object counts"])
# ---------------------------------------------------------------- container
prop("C06", "Value containers hold one live object and destroy everything exactly once",
 "The tagged union, the result-or-exception holder, the delayed-initialisation slot, the move-only function and the shared pointer always report the alternative last stored and its exact value through any sequence of constructions, copies, moves, assignments, swaps, resets, comparisons and visits. "
 "Every object placed in them is destroyed exactly once and never used after destruction, also when constructors throw; asking for an alternative that is not held raises the documented error.",
 ["histories"], "every sequence of operations over trivial, move-only, heap-owning and throwing payloads",
 "tests exercise short straight-line sequences with strings and ints, without counting lifetimes",
 ["container/UninitializedNonVoidVariant.hpp", "container/Uninitialized.hpp", "container/Try.hpp", "container/MoveOnlyFunction.hpp", "container/CoSharedPtr.hpp"],
 [("emplace/del/visit", "container/UninitializedNonVoidVariant.hpp"), ("reference counting", "container/CoSharedPtr.hpp")],
 ["instance registry with live/dead state", "std::variant reference model", "AddressSanitizer/UBSan"])
prop("C07", "Lookup tables agree with a reference map for every key",
 "A compile-time or run-time built perfect-hash map finds every key it was built from with its own value, reports every other key as absent (end iterator or an out-of-range error), never touches memory outside the table, and iterates over exactly its entries. "
 "Enumeration over the prefix tree and ring-like buffers used by the library likewise returns exactly what was stored.",
 ["inputs", "configurations"], "every set of distinct keys (sizes 1..64, integers, enums and strings) and every queried key",
 "tests look up a few fixed keys of one table",
 ["container/CHashMap.hpp", "container/CPmhTable.hpp", "container/CPmhBucket.hpp", "container/CVector.hpp", "container/RadixTree.hpp", "container/ArrayBuf.hpp", "meta/Hash.hpp"],
 [("two-level perfect hash", "container/CPmhTable.hpp")],
 ["answers vs std::map", "AddressSanitizer/UBSan"])
prop("C08", "Asynchronous file I/O stores and returns exactly the bytes given",
 "Writing data through an asynchronous file and reading it back, in any chunk sizes and with any open mode, yields exactly the bytes written, in order, with the exact byte counts reported (0 only at end of file); the convenience helpers read and write whole files byte for byte. "
 "Opening something that cannot be opened is reported as an error, and every descriptor is released exactly once.",
 ["inputs", "histories"], "every content, size, chunking, open mode and interleaving of several files on one loop",
 "tests read one small text file",
 ["utils/FileUtils.hpp", "coroutine/task/AioTask.hpp", "platform/LocalFdApi.hpp"],
 [("read/write with running offset", "utils/FileUtils.hpp")],
 ["bytes vs reference copy", "count of open descriptors"])
# ---------------------------------------------------------------- http server
prop("C09", "A well-formed HTTP request is understood the same however its bytes arrive",
 "For every well-formed request the handler sees exactly the method, path, query parameters, protocol version and header fields that were sent (header names case-insensitively), no matter how the bytes are split across receives and how large the request head is within the documented limits.",
 ["inputs", "schedules"], "every well-formed request head and every segmentation of its bytes",
 "tests send each request in one piece through the library's own client",
 ["net/protocol/http/Request.hpp", "utils/StringUtils.hpp", "net/router/RequestParsing.hpp"],
 [("resumable head parser", "net/protocol/http/Request.hpp")],
 ["fields reported by a real handler vs the generator's model"])
prop("C10", "HTTP request bodies arrive intact and end exactly where they should",
 "A request body sent with a length or in chunks reaches the handler byte for byte, whole or saved to a file, for every size, chunking and segmentation; the bytes after it are treated as the next request on the connection. "
 "Malformed or truncated bodies are never delivered as complete ones.",
 ["inputs", "schedules"], "every body size (0, around the 128 KiB buffer boundaries, larger), chunk layout and byte segmentation; sequences of requests on one connection",
 "tests upload one small file in one piece",
 ["net/protocol/http/Request.hpp"],
 [("parseBody / parserBody / saveToFile", "net/protocol/http/Request.hpp")],
 ["body seen by the handler vs sent bytes; next request on the same connection"])
prop("C11", "No byte stream from a client can corrupt, crash or wedge the server",
 "Whatever bytes a client sends, in whatever pieces, and whenever it stalls or disconnects, the server commits no memory error or undefined behaviour, keeps serving other clients, releases the connection's resources, and answers or closes that connection; malformed requests are never dispatched as if they were valid.",
 ["inputs", "fault_sequences"], "every byte stream, segmentation, half-close, reset and stall",
 "tests send only well-formed requests",
 ["net/protocol/http/Request.hpp", "net/server/ConnectionHandler.hpp", "net/router/Router.hpp", "net/server/HttpServer.hpp"],
 [("head/body parser bounds", "net/protocol/http/Request.hpp"), ("connection loop error handling", "net/server/ConnectionHandler.hpp")],
 ["AddressSanitizer/UBSan", "liveness probe after every hostile case", "descriptor count"])
prop("C12", "Requests on one connection are answered one each, in order, with no leakage",
 "On a persistent connection every request gets exactly one response, in order, computed from that request alone: nothing of an earlier request or response (headers, body, parameters, status) shows up in a later one. "
 "The connection is kept or closed as the request or the response asks, also under many concurrent connections, where no response reaches the wrong client.",
 ["histories", "schedules"], "every sequence of requests on a connection and every interleaving of many connections over several server threads",
 "tests issue a few requests sequentially and do not compare successive ones",
 ["net/server/ConnectionHandler.hpp", "net/protocol/http/Request.hpp", "net/protocol/http/Response.hpp", "net/server/HttpServer.hpp"],
 [("clear() between requests", "net/server/ConnectionHandler.hpp")],
 ["tagged requests and echoing handlers"])
prop("C13", "The router dispatches every path to the right handler with the right parameters",
 "A request is dispatched to the handler registered for its method whose pattern matches its path - literal segments before parameter segments before a trailing wildcard - with each path parameter and wildcard remainder holding exactly the matching text (query string excluded); if no pattern matches, the not-found handler answers. "
 "Asking for a parameter that the pattern does not have, or converting one to a type it does not represent, is reported as an error rather than garbage.",
 ["inputs", "configurations"], "every set of registered patterns and every request path",
 "tests use a handful of patterns and paths",
 ["net/router/Router.hpp", "net/router/RouterTree.hpp", "net/router/RequestParsing.hpp", "container/RadixTree.hpp"],
 [("segment tree search", "net/router/RouterTree.hpp"), ("parameter extraction", "net/router/RequestParsing.hpp")],
 ["handler id and parameters vs an independent reference matcher"])
prop("C14", "Interceptors wrap a handler in order and can stop it",
 "For an endpoint with interceptors, every before-hook runs in registration order before the handler, and every after-hook runs after it, each exactly once per request; a before-hook that refuses stops everything behind it including the handler. "
 "Interceptor instances and handlers serve concurrent requests without mixing them up.",
 ["configurations", "histories"], "every number and mix of interceptors, every position of a refusal, any number of requests",
 "the tests register one fixed interceptor",
 ["net/router/Router.hpp"],
 [("interceptor fold around the endpoint", "net/router/Router.hpp")],
 ["per-request event log"])
prop("C15", "Every server response is a correctly framed, faithful HTTP message",
 "Whatever a handler sets - status, valid header fields, content of any bytes and size, whether sent at once, in chunks, or as a file - the client receives one well-formed response with that status, those fields and exactly those bytes, whose declared length or chunk framing matches what is on the wire.",
 ["inputs"], "every status, header set and body (0 bytes to several MiB), for each way of sending",
 "tests check one or two short texts with the library's own client, which shares its bugs",
 ["net/protocol/http/Response.hpp", "net/socket/IO.hpp", "net/protocol/http/Status.hpp", "net/protocol/http/MimeType.hpp"],
 [("response head construction and chunk writer", "net/protocol/http/Response.hpp"), ("full send loop", "net/socket/IO.hpp")],
 ["independent strict HTTP client"])
prop("C16", "Range downloads return exactly the requested bytes",
 "A resumable file download answers without a range with the whole file, with one range with exactly those bytes and a matching content range, with several ranges with one correctly delimited part per range, and with an unsatisfiable or malformed range with a range error (a malformed one may also be ignored); lengths always match the wire. "
 "A client that asks for the size first learns the true size.",
 ["inputs"], "every file size (0, 1, around buffer boundaries, larger) and every range specification (bounded, open-ended, suffix, multiple, unsatisfiable, malformed)",
 "no test requests a range",
 ["net/protocol/http/Response.hpp"],
 [("useRangeTransferFile", "net/protocol/http/Response.hpp")],
 ["independent client vs RFC 9110 range arithmetic"])
# ---------------------------------------------------------------- client
prop("C17", "The HTTP client reports exactly the response the server sent",
 "For every well-formed response - with a length, in chunks, empty, any header set, any segmentation - the client returns exactly its status, header fields and body, over any number of requests on the same or a re-established connection; a malformed, truncated or late response ends in an error, never in fabricated data, a hang beyond the timeout, or a memory error. "
 "What it sends is a well-formed request carrying exactly the given method, path, headers and body.",
 ["inputs", "schedules", "fault_sequences"], "every response byte stream and segmentation, and server disconnects or stalls at every point",
 "tests talk to the library's own server with short fixed responses",
 ["net/client/HttpClient.hpp", "net/protocol/http/Response.hpp", "net/protocol/http/Request.hpp", "net/socket/IO.hpp"],
 [("response parser", "net/protocol/http/Response.hpp"), ("reconnect logic", "net/client/HttpClient.hpp")],
 ["scripted raw server; outcome vs model; AddressSanitizer"])
prop("C18", "A client pool completes every request exactly once with its own answer",
 "Every request handed to a client pool, from any number of threads, completes exactly once with the response to that very request or an error, and is sent exactly once over one of its connections as long as that connection is healthy; at any size, and across growing and shrinking, no request is lost, duplicated or answered with another's response, and successive requests take turns over all of the pool's connections and no others.",
 ["schedules", "histories"], "every interleaving of submitting threads, pool sizes and resizes",
 "one test issues a few sequential requests",
 ["net/client/HttpClientPool.hpp", "net/client/HttpClient.hpp"],
 [("round-robin client selection", "net/client/HttpClientPool.hpp")],
 ["per-request id echoed by the server; counts at both ends"])
prop("C19", "Server-sent events are delivered completely, in order and unaltered",
 "Every event a server stream emits - name, id and multi-line data - reaches a consuming client exactly once, in order and unchanged, however the bytes are segmented, including events that arrive together with the response head and those with empty data.",
 ["inputs", "schedules"], "every event sequence and byte segmentation",
 "tests exercise at most one happy stream",
 ["net/client/HttpClient.hpp", "net/protocol/http/Response.hpp"],
 [("event parser", "net/client/HttpClient.hpp")],
 ["event list vs sent list"])
# ---------------------------------------------------------------- websocket
prop("C20", "WebSocket messages arrive intact, once and in order in both directions",
 "Every text or binary message sent over a WebSocket - any length across the 7/16/64-bit length encodings, any bytes, any fragmentation by the peer, any segmentation of the byte stream - is received exactly once, in order and unchanged; the frames put on the wire are well-formed, masked by clients and unmasked by servers, and the opening handshake proves the key.",
 ["inputs", "schedules"], "every message content and length, frame fragmentation and byte segmentation, in both roles",
 "tests send a few short messages in one frame",
 ["net/protocol/websocket/WebSocket.hpp", "net/socket/IO.hpp", "net/protocol/codec/SHA1.hpp", "net/protocol/codec/Base64.hpp"],
 [("frame encode/decode, masking", "net/protocol/websocket/WebSocket.hpp")],
 ["independent RFC 6455 peer"])
prop("C21", "WebSocket control frames and protocol violations are handled safely",
 "Pings are answered with a pong carrying the same payload, closes are answered, and neither disturbs the data message being received around them; a peer that violates the framing rules, announces absurd lengths, stalls or vanishes makes the connection end with an error, never a memory error, an unbounded allocation or a message that was not sent.",
 ["inputs", "fault_sequences"], "every sequence of control and data frames and every malformed or truncated frame",
 "no test sends a control frame mid-message or a malformed frame",
 ["net/protocol/websocket/WebSocket.hpp"],
 [("packet loop", "net/protocol/websocket/WebSocket.hpp")],
 ["independent RFC 6455 peer", "AddressSanitizer/UBSan"])
# ---------------------------------------------------------------- reflection / codec
prop("C22", "JSON serialisation round-trips every reflectable value and emits valid JSON",
 "Serialising any supported value - nested aggregates, containers, maps, optionals, smart pointers, variants, enums, every string including quotes, control characters and any Unicode - gives text that an independent JSON parser accepts with the same content, and reading it back gives an equal value. "
 "Reading also accepts any equivalent text - other member order, whitespace, other escapes in strings and map keys - leaves members that are absent (and the rest of a tuple whose array is shorter) at their defaults, and reports members the type does not have.",
 ["inputs"], "every value of the supported types and every equivalent text",
 "tests round-trip a few literals through the same code that wrote them",
 ["reflection/json/JsonWrite.hpp", "reflection/json/JsonRead.hpp", "reflection/MemberName.hpp", "reflection/MemberPtr.hpp", "reflection/MemberCount.hpp"],
 [("writer escapes", "reflection/json/JsonWrite.hpp"), ("recursive reader", "reflection/json/JsonRead.hpp")],
 ["independent JSON parser/writer", "structural equality"])
prop("C23", "Reading arbitrary bytes as JSON is memory-safe and rejects what is not the type",
 "Reading any byte string as any supported type, however deeply nested, terminates, never reads outside the text, exhausts the stack or corrupts memory, and either yields a value or reports an error; truncated documents, type mismatches and escapes that name no character are reported, not silently accepted. "
 "Serialising strings with invalid or truncated encodings is memory-safe too.",
 ["inputs"], "every byte string up to the tested size, notably mutations and truncations of valid documents",
 "tests read only well-formed documents",
 ["reflection/json/JsonRead.hpp", "reflection/json/JsonWrite.hpp"],
 [("cursor checks", "reflection/json/JsonRead.hpp")],
 ["AddressSanitizer with exact-size heap buffers", "UBSan", "acceptance vs independent parser"])
prop("C24", "Codecs and hashes are exact and reject what is not encoded",
 "Base64, URL-safe Base64, SHA-1, hexadecimal and number-base conversions and byte-order conversions give the standard result for every input and length, decoding inverts encoding, and text that is not a valid encoding is rejected instead of decoded to something.",
 ["inputs"], "every byte string and length class, and every corrupted encoding",
 "tests check at most one vector",
 ["net/protocol/codec/Base64.hpp", "net/protocol/codec/Base64Url.hpp", "net/protocol/codec/SHA1.hpp", "utils/ByteUtils.hpp", "utils/NumericBaseConverter.hpp"],
 [("table driven codecs", "net/protocol/codec")],
 ["OpenSSL and RFC vectors as oracle"])
prop("C25", "Tokens only open with the right key and exactly as issued",
 "A token issued for a payload decodes, with the same key, to exactly that payload; any change to the bytes it encodes, a truncation or extension, or a different key makes decoding fail and leaves the output as it was. "
 "Two tokens for the same payload never reuse a nonce, and hostile token text causes no memory error.",
 ["inputs", "histories"], "every payload and key, every single-bit and structural corruption, any number of issues",
 "the test encodes and decodes one payload",
 ["net/token/Token.hpp", "net/token/tools/Aes256Gcm.hpp", "net/protocol/codec/Base64Url.hpp"],
 [("AES-256-GCM seal/open", "net/token/tools/Aes256Gcm.hpp")],
 ["accept/reject verdicts", "independent OpenSSL decryption", "nonce set"])
prop("C26", "Names, numbers and strings convert exactly or fail",
 "Enum-to-name and name-to-enum, member and type names, text-to-number conversion and the string utilities (split, join, trim, case-insensitive mapping, replacement) agree with their mathematical definition for every input: correct values are converted exactly, everything else is reported as an error, and no input reads outside the text.",
 ["inputs"], "every enumerator in range, every numeric text, every string and separator",
 "tests look at a few enumerators and print",
 ["reflection/EnumName.hpp", "reflection/TypeName.hpp", "reflection/MemberName.hpp", "reflection/deserialization/Numer.hpp", "utils/StringUtils.hpp", "net/router/RequestParsing.hpp"],
 [("compile-time name tables", "reflection/EnumName.hpp"), ("number parser", "reflection/deserialization/Numer.hpp")],
 ["independent reference implementations"])
prop("C27", "Formatted text shows every element of the value, and log lines never mix",
 "Formatting a value of any supported shape (scalars, strings, containers, maps, tuples, optionals, variants, reflected aggregates, nested) contains every element in order exactly once with its exact text, whether built as a string or streamed. "
 "Messages logged concurrently from several threads each appear once, whole and unmixed.",
 ["inputs", "schedules"], "every value of the supported shapes and every interleaving of logging threads",
 "tests print and are read by eye",
 ["log/Log.hpp", "log/serialize/ToString.hpp", "log/serialize/FormatString.hpp"],
 [("recursive formatter", "log/serialize/ToString.hpp"), ("log output lock", "log/Log.hpp")],
 ["independent formatter", "captured output stream"])
# ---------------------------------------------------------------- lifecycle etc.
prop("C28", "A server starts, serves, times idle clients out and stops without leaks or hangs",
 "A server with any number of threads accepts connections as soon as the call that starts it has returned, drops connections that stay idle beyond the configured timeout but not active ones, and stops in bounded time with or without clients connected, idle or mid-request; afterwards its port, threads, descriptors and memory are released, and it does all this without data races.",
 ["schedules", "histories"], "every number of threads and clients, every moment of stopping, repeated start/stop cycles",
 "tests start servers once per process and never count resources",
 ["net/server/HttpServer.hpp", "net/server/Acceptor.hpp", "net/server/ConnectionHandler.hpp", "net/socket/IO.hpp"],
 [("stop flag and wake-up", "net/server/HttpServer.hpp"), ("idle timeout on the first read", "net/server/ConnectionHandler.hpp")],
 ["descriptor/thread counts", "wall-clock bounds", "ThreadSanitizer/LeakSanitizer"])
prop("C29", "URLs are taken apart into exactly their components",
 "Parsing a URL yields exactly its scheme, user information, host, port (or the scheme's default) and path with query, for every well-formed URL, and reports an error for one without the required parts; the address that is then connected to is the one the URL names, or where the name has several, the first of them that accepts.",
 ["inputs"], "every combination of scheme, credentials, host form, port, path and query",
 "tests parse a few fixed URLs",
 ["net/protocol/url/UrlParse.hpp", "net/socket/AddressResolver.hpp"],
 [("component extraction", "net/protocol/url/UrlParse.hpp")],
 ["components vs generator", "address seen by accepting socket"])
prop("C30", "Proxied connections speak the proxy protocol and tunnel bytes unchanged",
 "Through an HTTP or SOCKS5 proxy, with or without credentials, the client performs the standard negotiation naming exactly the target host and port, then exchanges the request and response through the tunnel unchanged; a proxy that refuses, misbehaves, sends its replies in pieces or disconnects leads to an error and never to sending the request.",
 ["inputs", "fault_sequences"], "every target, credential and proxy reply, in every segmentation",
 "no test uses a proxy",
 ["net/protocol/proxy/Socks5Proxy.hpp", "net/protocol/proxy/HttpProxy.hpp", "net/protocol/proxy/Proxy.hpp"],
 [("SOCKS5 negotiation", "net/protocol/proxy/Socks5Proxy.hpp"), ("CONNECT request", "net/protocol/proxy/HttpProxy.hpp")],
 ["independent proxy endpoints"])
prop("C31", "Database rows come back exactly as stored; mutations change what they say",
 "Rows inserted through the mapping layer are read back equal in every column type (integers of every width, floating point, text, blobs, custom types and optionals of these), and insert, update and delete affect exactly the rows their conditions select and report the right counts, identifiers or returned rows, for any number of repetitions of the same statement. "
 "Failing statements report an error and change nothing.",
 ["inputs", "histories"], "every value of the mapped types and every sequence of statements",
 "tests run each statement once on a few rows",
 ["db/sqlite3/SqliteDB.hpp", "db/sqlite3/SqliteStmt.hpp", "db/sql/DataBase.hpp", "db/sql/Stmt.hpp", "db/sql/Dml.hpp", "db/sql/ColumnResult.hpp", "db/sqlite3/MakeCreateDbSql.hpp"],
 [("statement cache, bind and column readers", "db/sqlite3/SqliteStmt.hpp")],
 ["same database read through the plain sqlite3 API", "reference table in memory"])
prop("C32", "Query expressions mean what they say and values never become SQL",
 "A query built from typed expressions selects exactly the rows for which the equivalent expression holds - with its operators, grouping, joins, ordering, limits and aggregates as written - and values supplied as parameters, whatever bytes they contain, are only ever compared or stored, never interpreted as SQL.",
 ["programs", "inputs"], "every expression shape over columns, literals and parameters and every parameter value",
 "tests compare generated SQL text for a few expressions",
 ["db/sql/Expression.hpp", "db/sql/Dml.hpp", "db/sql/Column.hpp", "db/sql/Aggregate.hpp", "db/sql/Param.hpp", "db/sql/Operator.hpp"],
 [("expression to SQL rendering", "db/sql/Expression.hpp"), ("parameter binding", "db/sql/Dml.hpp")],
 ["result sets vs evaluation of the expression in C++"])
prop("C33", "TLS connections carry the same bytes, verified and encrypted",
 "Over TLS the HTTP server and client, and WebSockets on top, deliver exactly the same requests, responses and messages as without it, for every size and segmentation of the encrypted stream, to any conforming TLS peer; a failed handshake, an abrupt close or garbage instead of TLS ends that connection with an error without disturbing others or corrupting memory.",
 ["inputs", "schedules", "fault_sequences"], "every payload size, record layout and disconnect point",
 "the existing tests never open a TLS connection",
 ["net/protocol/https/Https.hpp", "net/protocol/https/Context.hpp", "net/socket/IO.hpp"],
 [("memory-BIO pump", "net/protocol/https/Https.hpp")],
 ["independent OpenSSL peer"])
prop("C34", "A remote call returns exactly what the remote function returned",
 "A remote procedure call runs the named remote function exactly once with exactly the given arguments and returns exactly its result or its error to that caller.",
 ["programs", "inputs"], "every registered function signature, argument value and concurrent caller",
 "its only test program cannot be compiled by the compilers present",
 ["rpc/RpcServer.hpp", "rpc/RpcClinet.hpp"],
 [("argument tuple serialisation", "rpc/RpcServer.hpp")])
prop("C35", "The AI client sends the conversation as given and delivers every chunk once",
 "The OpenAI client's request is a valid JSON document holding exactly the conversation and options given, sent once to the chat endpoint with the caller's key; the answer reaches the caller unaltered, and of a streamed answer every chunk exactly once, in order, unaltered, however the bytes are cut and the JSON is spelled; a stream that was refused, is malformed or ends early is reported as an error, a complete one is not.",
 ["inputs", "schedules", "fault_sequences"], "every conversation, chunk sequence, segmentation and point of failure",
 "no existing test runs the client",
 ["ai/openai.hpp", "net/client/HttpClient.hpp", "reflection/json/JsonRead.hpp", "reflection/json/JsonWrite.hpp"],
 [("streaming chat loop", "ai/openai.hpp")],
 ["requests at an independent server, chunks at the consumer"])
prop("C36", "Asynchronous operations do what their system call does and complete once",
 "Every asynchronous operation of the event loop - open, socket, accept, connect, read, write, receive, send, poll, close - has exactly the effect and the result of the system call of that name with the same arguments (the connection object on top of them sends all of a buffer and receives exactly what was asked for, or fails), completes exactly once and resumes exactly the coroutine that awaits it, however many are in flight; with a linked timeout it reports either its result or the expiry, never before the time; one that was abandoned is never resumed, writes nowhere and takes no data that arrives later.",
 ["inputs", "schedules"], "every argument, number of operations in flight and order of completion and abandonment",
 "the existing tests perform a handful of operations one after another",
 ["coroutine/task/AioTask.hpp", "coroutine/loop/EventLoop.hpp"],
 [("submission and completion handling", "coroutine/loop/EventLoop.hpp"), ("operation preparation", "coroutine/task/AioTask.hpp")],
 ["results vs plain system calls, bytes at both ends, buffers of abandoned operations"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
