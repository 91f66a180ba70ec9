#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json.  Run: python3 tools/gen.py"""
import json, os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, observe=None, state=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, technique=technique, note=note, observe=observe or [], state=state or []))


H1 = "internal/protocol/http1/"

prop("C01", "Segmentation independence of a connection's input",
     "What a server does with the bytes of a connection (the requests handlers see, including bodies, and every byte written back) "
     "depends only on the byte stream itself, never on how the network cut it into reads or on the read buffer size, as long as the "
     "configured limits are not reached. This holds for valid, pipelined, chunked and malformed streams alike.",
     ["inputs", "schedules"], "every byte stream within limits, every segmentation of it, every read buffer size",
     "Unit tests split two fixed requests into equal parts; they never cut at every byte, never cut bodies, chunk headers or malformed streams, and never compare whole-connection behaviour.",
     [H1 + "parser.go", H1 + "body.go", H1 + "suit.go", "internal/tcp/client.go"],
     [("resumable parser states", H1 + "parser.go"), ("unread of the bytes past headers/body", H1 + "suit.go, body.go")],
     "differential trace monitor: whole delivery vs every cut (scripted connection, recorded history)",
     "Exploration: held on the generated streams and cuts; the chunked decoder is an offline stand-in for a missing module.",
     ["handler-visible request snapshots", "bytes written to the connection"])

prop("C02", "Handlers see exactly the request that was sent",
     "For every well-formed HTTP/1.x request within limits, the handler observes exactly what was sent: method, percent-decoded path, raw query, "
     "protocol, all header fields (Content-Length as the content length only) in order with case-insensitive lookup and surrounding whitespace removed, content length/type and transfer encodings, and the body "
     "byte for byte through every body-reading interface. Bodies are identical whichever of the body interfaces (whole bytes, string, callback, piecewise, stream reader, JSON) is used, and a body cut short is an error for each of them, the connection's own error if it failed.",
     ["inputs"], "every well-formed request: methods, targets, header sets, CRLF/LF, plain and chunked bodies of any size",
     "Tests compare a handful of literal requests, one body API at a time.",
     [H1 + "parser.go", H1 + "body.go", "http/request.go", "internal/stash/reader.go", "internal/uridecode/decoder.go", "http/method/method.go", "http/proto/proto.go"],
     [("request line and header parsing", H1 + "parser.go"), ("body readers", H1 + "body.go")],
     "reference-model monitor over generated requests (observed request vs generator's ground truth)",
     "Exploration: ground truth comes from the generator, so the oracle is independent of the code.",
     ["http.Request fields and Body methods inside a handler"])

prop("C03", "A request on a reused connection is processed as on a fresh one",
     "Each request on a keep-alive connection is processed exactly as if it were the first on its own connection: nothing of earlier requests "
     "(headers, query, params, body bytes, context, environment, cookies, method, upgrade or encoding state) nor of earlier responses (headers, cookies, status, suppressed default headers) is visible in it or in its response. "
     "This also holds when the earlier handler left the body unread or failed, and for the error response to a later malformed request.",
     ["histories"], "every sequence of requests and handler behaviours on one connection",
     "Tests reuse one request object for a few identical requests; state leaks only show for particular pairs of different requests.",
     [H1 + "suit.go", H1 + "serializer.go", H1 + "body.go", "http/request.go", "http/response.go", "internal/response/fields.go", "internal/keyvalue/storage.go", "http/query/query.go"],
     [("request clearing between requests", "http/request.go"), ("response clearing", "internal/response/fields.go"), ("serializer clear", H1 + "serializer.go")],
     "differential history monitor: shared connection vs fresh connections",
     "Exploration over random request/behaviour histories.")

prop("C04", "Responses reach a conforming client exactly as built",
     "Every response a handler builds is received by a conforming HTTP/1.x client as exactly one response with the protocol of the request, that status code and reason, every header and cookie set, default headers "
     "unless overridden, and exactly the body given (bytes, string, JSON, file or stream of known or unknown size, whatever sizes the stream's reads return); for HEAD, and for statuses that must not carry one, there is no body. "
     "A stream that does not deliver its announced size never corrupts the framing of the following responses: the connection is closed instead.",
     ["inputs", "configurations", "fault_sequences"], "every response description, stream read pattern (short reads, data with EOF, errors), buffer size, protocol version",
     "Tests render about ten fixed responses with readers that never return data together with EOF and never short-read.",
     [H1 + "serializer.go", "http/response.go", "http/status/codes.go", "internal/types/attachment.go", "http/mime/exts.go"],
     [("response rendering", H1 + "serializer.go"), ("chunked writer", H1 + "serializer.go")],
     "round-trip monitor: wire bytes decoded by a strict parser and by net/http",
     "Exploration; the client oracle is an own strict parser plus net/http.")

prop("C05", "Pipelined requests: answered exactly once each, in order",
     "When any number of requests arrive on one connection, pipelined in any way, each is handed to the router exactly once and answered by exactly one final response, in request order, until the connection ends. "
     "Bodies that a handler reads only partly or not at all are skipped, never interpreted as requests, and no byte of the following request is lost.",
     ["histories", "schedules"], "every pipeline of requests, handler reading behaviour and delivery of bytes",
     "Tests serve one request at a time.",
     [H1 + "suit.go", H1 + "body.go", "http/request.go", "internal/tcp/client.go"],
     [("serve loop", H1 + "suit.go"), ("discard of the rest of the body", "http/request.go")],
     "event-log monitor with unique ids per request (exactly-once, order, conservation)",
     "Exploration; unique ids make the history unambiguous.")

prop("C06", "Connection persistence follows protocol version and Connection header",
     "After a response, an HTTP/1.1 connection stays usable unless the request said Connection: close, and an HTTP/1.0 connection is ended unless the request said Connection: keep-alive (compared case-insensitively, surrounding spaces ignored); this does not depend on the response kind (plain, file, stream, error status, HEAD), except that a body of unknown size over HTTP/1.0 is always ended by closing. "
     "After a write failure or a fatal error response the server reads and writes nothing more on that connection; the router's error handler is told exactly once that a connection is over, except for hijacked ones.",
     ["inputs", "fault_sequences"], "protocol versions, Connection values, response kinds, write failures at any write",
     "One test checks one HTTP/1.0 response without keep-alive.",
     [H1 + "serializer.go", H1 + "suit.go"],
     [("keep-alive decision", H1 + "serializer.go"), ("serve loop exit", H1 + "suit.go")],
     "event-log monitor on the connection (reads/writes after the deciding response), injected write faults",
     "Exploration over the full product of versions, Connection values and response kinds, exhaustive in that product.")

prop("C07", "Malformed input never crashes and gets one proper error response",
     "No byte sequence received from a client makes the server crash, hang or write anything that is not a sequence of well-formed responses. "
     "A malformed request (unknown method, bad or empty protocol, missing or empty path, invalid escape, header line without a colon or with blanks or control bytes in its name, bare CR at the end of the headers, invalid content length) never reaches a request handler and is answered by exactly one response with the fitting code (400, 501 or 505), after which the connection ends.",
     ["inputs"], "every byte sequence, valid prefixes followed by garbage, mutations of valid requests",
     "Tests hold fifteen literal bad requests; crashes need particular byte sequences such as empty values before a bare LF.",
     [H1 + "parser.go", H1 + "suit.go", "internal/uridecode/decoder.go", "http/proto/proto.go", "http/method/method.go", "router/inbuilt/inbuilt.go"],
     [("parser error states", H1 + "parser.go"), ("error branch of the serve loop", H1 + "suit.go")],
     "crash/hang monitor over grammar-aware mutation, plus expected-code oracle for enumerated malformation classes",
     "Exploration; crash freedom on the inputs tried only.")

prop("C08", "Configured limits are enforced and nothing below them is refused",
     "A request exceeding the configured maximal number of headers, header name or value length, total header names or values space, or number of encodings is refused with 431, a request line over the URL limit with 414, and a body over the maximal size makes body reading fail with 413 (request entity too large), never delivering more than the limit to the handler; a chunk over the maximal chunk size makes it fail, too. "
     "Requests within all the limits are served, and refusing ends the connection.",
     ["configurations", "inputs"], "every limit value in small and default configurations and every request size around each boundary",
     "Tests exceed three default limits once and never check that the limit itself is still accepted.",
     [H1 + "parser.go", H1 + "body.go", "config/config.go", "internal/construct/constructors.go"],
     [("buffer limits and counters", H1 + "parser.go"), ("max body size", H1 + "body.go")],
     "boundary monitor: random limit configurations x sizes around each limit, verdict vs reference arithmetic",
     "Exploration around each boundary; a few bytes of slack are allowed where blanks and line ends count towards a limit.")

prop("C09", "Message framing is unambiguous: no request smuggling",
     "The end of a request's body is determined only by a valid Content-Length or by the chunked coding: requests with an invalid, overflowing, empty, list-valued or conflicting Content-Length, or whose transfer coding is not chunked at all, are refused with an error response and end the connection; chunked takes precedence over Content-Length. "
     "Bytes of a body are never parsed as another request, also after body errors.",
     ["inputs"], "all combinations and spellings of Content-Length and Transfer-Encoding fields, bodies containing complete requests",
     "Tests contain one invalid length and no conflicting or repeated framing fields.",
     [H1 + "parser.go", H1 + "body.go", "http/encoding.go"],
     [("content length parsing", H1 + "parser.go"), ("transfer encoding tokens", H1 + "parser.go"), ("body readers", H1 + "body.go")],
     "smuggling monitor: bodies carry marked requests; any marked request reaching a handler is a violation",
     "Exploration over an enumerated product of framing spellings plus random ones.")

prop("C10", "Percent-decoding is exact and rejects malformed escapes",
     "Decoding a URI replaces every %XX with exactly that byte for upper- and lower-case hex digits, leaves all other bytes unchanged, and fails with the URI decoding error exactly when a % is not followed by two hex digits. "
     "The result does not depend on the destination buffer given (none, too small, large, or the source's own memory) and a separate source is never modified.",
     ["inputs"], "every byte string and destination buffer",
     "Tests decode five strings.",
     ["internal/uridecode/decoder.go", "internal/hexconv/hexconv.go"],
     [("escape loop", "internal/uridecode/decoder.go"), ("hex digit table", "internal/hexconv/hexconv.go")],
     "reference-model monitor: exhaustive escapes and short strings, random long ones, buffer shapes",
     "All 65536 escapes and all short strings over a hostile alphabet are enumerated; longer strings are sampled.")

prop("C11", "Query parameters are parsed faithfully",
     "For every query string, the parameters are exactly its &-separated key=value pairs in order, each part decoded separately (%XX and +), so encoded & = + % are data and flags without = have the value 1; lookup returns the first value of a key, or the no-such-key error. "
     "An invalid query (bad escape, empty key before =) gives the same error on every access, and the raw query always stays as it was received.",
     ["inputs", "histories"], "every query string and sequence of accesses",
     "Tests parse ten strings once each.",
     ["http/query/query.go", "http/query/internal/parser.go", "internal/uridecode/decoder.go", "internal/keyvalue/storage.go"],
     [("lazy parse", "http/query/query.go"), ("pair splitter", "http/query/internal/parser.go")],
     "reference-model monitor over generated queries and access sequences",
     "Exploration; the reference parser is written from the statement.")

prop("C12", "Header storage behaves as an ordered case-insensitive multimap",
     "The key-value storage used for headers, query, params and cookies behaves as an ordered multimap with ASCII-case-insensitive keys under any sequence of operations: add, get first, get all, presence, unique keys in first-seen spelling, length, iteration, clear and clone. "
     "A clone is independent: it keeps its content whatever happens to the original or to the memory its strings came from.",
     ["histories"], "every sequence of operations",
     "Tests run a few fixed operations.",
     ["internal/keyvalue/storage.go", "http/headers/headers.go"],
     [("pairs slice", "internal/keyvalue/storage.go")],
     "model-based history checker (random operation sequences vs reference multimap)",
     "Exploration of operation sequences.")

prop("C13", "Cookies round trip",
     "Cookies sent by a client in one or several Cookie headers are returned as exactly the name=value pairs sent, in order, and a malformed Cookie header (a pair without = or with an empty name) yields the cookie error and no jar. "
     "Every cookie set on a response reaches the client as its own Set-Cookie header carrying exactly its name, value and the attributes that were set, on every kind of response.",
     ["inputs"], "every list of cookies and attribute combination",
     "Tests parse two strings and render three cookies.",
     ["http/cookie/jar.go", "http/cookie/cookie.go", "http/request.go", H1 + "serializer.go"],
     [("cookie parser", "http/cookie/jar.go"), ("Set-Cookie rendering", H1 + "serializer.go")],
     "round-trip monitor against a reference cookie codec",
     "Exploration; one attribute (Max-Age spelling) is a recorded finding pinned by an existing test.")

prop("C14", "Routing picks exactly the registered handler",
     "A request is handled by the handler registered for its path and method, where a template segment in braces matches any single non-empty segment and is exposed as a parameter, trailing slashes are insignificant, and HEAD falls back to GET; a literal segment takes precedence over a template one, group and resource prefixes are part of the path, and registering a route twice or a malformed template (no leading slash, braces that do not enclose exactly one whole segment) is refused. "
     "An unregistered path gives 404 and a registered path with another method gives 405 whose Allow lists exactly the registered methods (TRACE is answered by the built-in echo instead); none of this depends on whether other routes are static or dynamic.",
     ["configurations", "inputs"], "every set of routes (static and dynamic, groups, resources) and every request path and method",
     "Tests use a few fixed route sets; static and dynamic modes use different code that is never compared.",
     ["router/inbuilt/inbuilt.go", "router/inbuilt/registrar.go", "router/inbuilt/internal/radix/tree.go", "router/inbuilt/internal/radix/template.go", "router/inbuilt/internal/radix/arrmap.go", "router/inbuilt/types.go", "router/inbuilt/uri/normalize.go", "router/inbuilt/groups.go", "router/inbuilt/resource.go"],
     [("route maps", "router/inbuilt/registrar.go"), ("radix tree", "router/inbuilt/internal/radix/tree.go"), ("path normalization", "router/inbuilt/uri/normalize.go")],
     "reference-router monitor over random route sets and requests, through a served connection",
     "Exploration; route sets where first-match and backtracking semantics differ are not generated.")

prop("C15", "Middlewares, mutators, error handlers and catchers run as registered",
     "For every request each applicable middleware runs exactly once in the documented order (router-wide outermost and in registration order, then group, then route, then handler), and every mutator runs exactly once before routing, those of one router in registration order, also if the router is initialized several times; an alias is routed as its target, and AliasFrom is the original path, also through a chain of aliases. "
     "Errors go to the handler registered for their code, otherwise to the one for all errors, with the router-wide middlewares applied and the error available; unmatched paths go to the catcher with the longest matching prefix, and a second catcher for the same prefix is refused.",
     ["configurations", "inputs"], "every nesting of groups, middlewares, catchers and error handlers, and every request",
     "Tests check a few fixed stacks.",
     ["router/inbuilt/middlewares.go", "router/inbuilt/groups.go", "router/inbuilt/catchers.go", "router/inbuilt/route.go", "router/inbuilt/inbuilt.go", "router/inbuilt/mutator.go", "router/inbuilt/aliases.go"],
     [("composition", "router/inbuilt/middlewares.go"), ("merge of groups", "router/inbuilt/groups.go"), ("error dispatch", "router/inbuilt/inbuilt.go")],
     "trace monitor: recorded call events vs expected event sequence of a reference model",
     "Exploration over random router configurations.")

prop("C16", "Static files: right content, never outside the root",
     "A static route serves, for a path below its prefix (including the prefixes of groups), exactly the bytes of the corresponding regular file below the root, with the content type of its extension, and answers 404 if there is no such file, directories included. "
     "No request path, however encoded, yields a file outside the root, also under concurrent requests.",
     ["inputs", "schedules"], "every request path (encoded, dotted, doubled slashes), every root spelling, concurrent requests",
     "One test serves one existing file and one traversal.",
     ["router/inbuilt/static.go", "internal/pathlib/pathlib.go", "http/response.go", "router/inbuilt/catchers.go"],
     [("traversal check", "router/inbuilt/static.go"), ("prefix replacement", "internal/pathlib/pathlib.go")],
     "containment monitor: scratch tree with canaries outside the root; content oracle; race detector under concurrency",
     "Exploration in a scratch directory tree; file names containing two consecutive dots are not claimed.")

prop("C17", "Virtual hosts dispatch by Host header",
     "With virtual hosts, a request is dispatched to the router registered for its Host, compared case-insensitively with a www. prefix and default ports 80/443 ignored on both sides and other ports significant (one router may be registered for several hosts); otherwise to the default router, and without one it is refused with 421, or 400 if the Host is missing. "
     "A request with several Host headers is always refused with 400. An error met while a request is received after its Host is handed to the error handling of that same router, which sees the error.",
     ["configurations", "inputs"], "every set of registered hosts and every Host header",
     "Tests use four fixed hosts.",
     ["router/virtual/virtual.go", "router/virtual/internal/domain/normalize.go"],
     [("host lookup", "router/virtual/virtual.go"), ("domain normalization", "router/virtual/internal/domain/normalize.go")],
     "reference-model monitor over host tables and Host values, plus direct checks of the normalization",
     "Exploration.")

prop("C18", "TCP server: every accepted connection is handled once, closed, and waited for",
     "Each connection accepted by a TCP server is handled exactly once, concurrently with the others, and closed after its handler returns; waiting returns only when the handlers of all connections accepted before are done and those connections closed, and after pause or stop no handler starts once waiting has returned. "
     "A connection whose accepting was in progress when stop or pause interrupted it is still handled and waited for, while with a listener that pause cannot interrupt a connection accepted after pause has returned is closed without being handled; start returns, and the listener is closed by stop but not by pause; an accept error ends start with that error; stopping or pausing several servers shuts all of them down, whatever one of them does.",
     ["schedules", "histories", "fault_sequences"], "every interleaving of accepts, handlers, pause, stop, wait and accept errors, for listeners with and without deadlines",
     "The one test starts and stops a server without any connection.",
     ["internal/tcp/server.go"],
     [("wait group and shutdown flag", "internal/tcp/server.go")],
     "event-log monitor over stress schedules on instrumented listeners, plus Go race detector",
     "Exploration of schedules with injected delays in Accept and handlers.")

prop("C19", "Application lifecycle",
     "Serving binds every configured address, reports each exactly once, then signals start; connections of each listener go to that listener's own handler; a bind failure, or later a failing listener, makes serving return that error with no listener left open. "
     "Stop and graceful stop never block, serving then returns the corresponding shutdown error after every listener is closed, no goroutine of the accept loops is left, and the stop callback runs exactly once, when no handler is running and none starts any more; graceful stop lets clients that are already connected finish, and the application can be served again afterwards, also with the same router. Serving without a router is serving an empty one.",
     ["schedules", "histories", "fault_sequences"], "every combination of listeners, failures, stop kinds and timings",
     "Tests start one application and stop it once; failures of the n-th bind and repeated or early stops are never exercised.",
     ["indi.go", "internal/tcp/server.go"],
     [("bind and run", "indi.go"), ("stop/pause/wait of all servers", "internal/tcp/server.go")],
     "event-log monitor over application histories with instrumented listeners, goroutine-leak monitor, race detector",
     "Exploration.")

prop("C20", "Race freedom and isolation between connections",
     "Serving any number of connections concurrently through one application and router is free of data races, and every client gets exactly the responses to its own requests, with nothing of another connection's data in them. "
     "This includes all the built-in features used together: dynamic routes, error handlers, TRACE echo, static files, cookies, JSON, streams, middlewares and virtual hosts.",
     ["schedules"], "every interleaving of concurrent connections",
     "Existing tests run clients almost sequentially and without the race detector.",
     ["indi.go", "http/serve/http1.go", H1 + "suit.go", "router/inbuilt/inbuilt.go", "router/inbuilt/static.go", "router/virtual/virtual.go", "internal/construct/constructors.go"],
     [("per-connection construction", "http/serve/http1.go"), ("immutable runtime router", "router/inbuilt/inbuilt.go")],
     "Go race detector plus unique-token isolation monitor under concurrent load",
     "Exploration of the schedules the run produced.")

prop("C21", "Hijacked connections keep every byte",
     "A handler that hijacks the connection receives exactly the bytes the client sent after the request (its remaining body excluded), with none lost, duplicated or reordered, also if they arrived together with the request. "
     "The server then writes and reads nothing on that connection by itself and does not process it as HTTP any more. If the rest of the body cannot be read, the hijack fails, and the connection is not hijacked: the handler's response is sent.",
     ["inputs", "schedules"], "every following byte stream, segmentation, and body reading before the hijack",
     "One test hijacks with the data sent separately.",
     ["http/request.go", H1 + "suit.go", "internal/tcp/client.go"],
     [("discard before hijack", "http/request.go"), ("serve loop exit", H1 + "suit.go"), ("pending data", "internal/tcp/client.go")],
     "byte-conservation monitor on a scripted connection",
     "Exploration.")

prop("C22", "Body stream adapter conserves bytes and errors",
     "Reading a piecewise source through the stream adapter with any sequence of buffer sizes yields exactly the source's bytes in order, then the source's error; no byte delivered together with the error is lost, the error stays until reset, the source is not asked again after it, and never while data is pending. "
     "Reset makes the adapter usable for a new stream with nothing left of the old one.",
     ["inputs", "histories"], "every piece sequence (empty pieces and data with the error included) and every buffer-size sequence",
     "Tests read one stream with one or two buffer sizes.",
     ["internal/stash/reader.go"],
     [("pending slice", "internal/stash/reader.go")],
     "conservation monitor over scripted sources; exhaustive small scripts plus random ones",
     "All scripts up to a small size are enumerated, larger ones sampled.")

prop("C23", "Connection client: reads, unreads and deadlines",
     "Reading from a connection client returns data that was unread first, exactly once and unchanged, then the bytes of the connection in order with none lost, including bytes that arrive together with an error, and then the error. "
     "Before each read of the connection the read deadline is set to the configured timeout from now; writes pass the data unchanged and report failures, and remote address and close are those of the connection.",
     ["inputs", "histories", "fault_sequences"], "every sequence of reads, unreads and writes, connection read sizes and errors",
     "No test of the client exists besides a benchmark.",
     ["internal/tcp/client.go", "internal/tcp/dummy/client.go"],
     [("pending data", "internal/tcp/client.go"), ("deadline arming", "internal/tcp/client.go")],
     "model-based history checker on an instrumented connection",
     "Exploration.")

prop("C24", "Requests carry their listener's encryption, and HTTPS-only redirects plain ones",
     "Every request, the first as well as any later one of a connection, reports the encryption of the listener it came through. "
     "Behind the HTTPS-only middleware a plain request never reaches the handler and is redirected permanently to the https location with its host and path, safely encoded, or refused with 400 if it has no (or a malformed) Host; an encrypted request passes through.",
     ["histories", "configurations"], "every listener mix, request sequence, host, port option and path",
     "Tests check single requests with a preset value.",
     ["indi.go", "http/serve/http1.go", "http/request.go", "router/inbuilt/middleware/httpsonly.go", "http/encryption/encryption.go"],
     [("encryption token", "http/serve/http1.go"), ("redirect", "router/inbuilt/middleware/httpsonly.go")],
     "history monitor over keep-alive sequences on plain and TLS listeners",
     "Exploration; TLS over loopback with a self-signed certificate.")

prop("C25", "Configuration: zero values become defaults, others are kept and effective",
     "Filling a partial configuration keeps every non-zero setting and replaces exactly the zero ones by the documented defaults. Changing a configuration changes neither the defaults nor any other configuration. "
     "Every setting that has an effect on the wire is honoured with the value given: read buffer size, read timeout, response and file buffer sizes, default headers.",
     ["configurations"], "every subset of settings and values",
     "No test fills a configuration.",
     ["config/config.go", "internal/construct/constructors.go", H1 + "suit.go"],
     [("fill", "config/config.go"), ("construction", "internal/construct/constructors.go")],
     "reflection-based reference monitor over all settings plus observed reads, writes and deadlines",
     "Exploration; every setting is covered individually and in random combinations.")

prop("C26", "Protocol tables are total, consistent and exact",
     "Method, protocol, status and MIME tables agree with each other and with the standards over their whole domain: parsing a method or protocol token succeeds exactly for the supported tokens (exact case) and inverts rendering; every status code has the registered reason, its status line is the code and the same reason, and unknown codes are told apart. "
     "Every predefined HTTP error carries the status code its name says.",
     ["inputs"], "all methods, all protocol tokens, all 65536 status codes, all predefined errors, all known extensions",
     "Tests touch a few entries.",
     ["http/method/method.go", "http/method/method_string.go", "http/status/codes.go", "http/status/errors.go", "http/proto/proto.go", "http/proto/upgrade.go", "http/mime/exts.go"],
     [("tables", "http/status/codes.go")],
     "exhaustive table monitor against independent reference tables",
     "Exhaustive over the enumerated domains.")

prop("C27", "Client-controlled text cannot forge log lines or header lines",
     "Escaping a path for logs yields only printable ASCII whatever bytes it has: printable text is unchanged and any other byte becomes a backslash and one character (0 a b t n v f r for these, ? otherwise), so a line break cannot be produced; request loggers log through it, one line per request. "
     "No part of a request can add header lines to a response that the framework generates itself.",
     ["inputs"], "every path and header value a client can send",
     "Tests escape three strings.",
     ["http/path.go", "router/inbuilt/middleware/logging.go", "router/inbuilt/mutator/requestlogger.go", "router/inbuilt/middleware/httpsonly.go", "router/inbuilt/trace.go"],
     [("escape", "http/path.go")],
     "taint-style monitor: hostile paths and hosts, log lines and response headers parsed back",
     "Exploration; all single bytes and pairs are enumerated.")

prop("C28", "Content codings are looked up and applied exactly",
     "A coding manager encodes and decodes with exactly the coding registered under the token; gzip and compress are also reachable as x-gzip and x-compress; an unknown token is reported by the unknown-token error; identity and empty input pass through unchanged. "
     "Each coding is constructed once with its own buffer of the configured size, and its errors are passed on unchanged.",
     ["configurations", "inputs"], "every set of registered codings, token and input",
     "No test covers the package.",
     ["http/coding/codings.go"],
     [("coding map", "http/coding/codings.go")],
     "call-recording codings checked against a reference manager",
     "Exploration.")

prop("C29", "Built-in middlewares are transparent and safe",
     "The built-in middlewares change only what they announce: server header adds its header, logging logs one line with method, escaped path and code to every given logger (to the standard one only if none is given), redirect redirects exactly the given path, custom context replaces the context of the request only, recover logs a panic, turns it into 500 and keeps serving. "
     "They work for every handler outcome, including a handler that returns no response, and for any stacking of them.",
     ["configurations", "inputs"], "every stack of built-in middlewares and handler outcome",
     "No test covers them.",
     ["router/inbuilt/middleware/recover.go", "router/inbuilt/middleware/logging.go", "router/inbuilt/middleware/serverheader.go", "router/inbuilt/middleware/redirect.go", "router/inbuilt/middleware/customcontext.go"],
     [("middlewares", "router/inbuilt/middleware/")],
     "trace monitor over random middleware stacks and handler outcomes",
     "Exploration.")

prop("C30", "Response builder never touches user memory and maps errors to codes",
     "Building responses never modifies memory the user passed in or constant strings, whatever sequence of builder calls is made, and the last call for each field wins while headers and cookies accumulate (a header without values sets nothing); clearing resets everything to the defaults. "
     "An HTTP error sets exactly its code, any other error 500 or the given code with its text, and a nil error changes nothing; JSON written is the model's JSON and JSON read requires a JSON or absent content type, gives the one document the body consists of, and fails if the body is anything else (malformed, truncated, with anything but whitespace around the document, not of the model's type), with the body's error if it cannot be read.",
     ["histories"], "every sequence of builder calls",
     "Tests call each builder method once.",
     ["http/response.go", "internal/response/fields.go", "http/request.go"],
     [("builder fields", "http/response.go")],
     "model-based history checker with canary memory around user buffers",
     "Exploration.")

prop("C31", "Protocol upgrade between HTTP/1.x versions",
     "A request asking to upgrade to an HTTP/1.x version is answered by exactly one 101 response in the request's protocol naming the protocol switched to, followed by the final response in the new protocol; the first supported protocol of the list is chosen. "
     "Requests without a supported upgrade get no 101 at all, and repeated upgrades on one connection are all answered alike.",
     ["histories", "inputs"], "every upgrade list, protocol version and request sequence",
     "One test renders a 101 by hand.",
     [H1 + "suit.go", "http/proto/upgrade.go", H1 + "serializer.go"],
     [("upgrade branch", H1 + "suit.go"), ("token choice", "http/proto/upgrade.go")],
     "trace monitor over response sequences vs reference",
     "Exploration.")

prop("C32", "Streams and files handed to responses are always released",
     "The stream a response is sent with is closed exactly once if it can be closed, after its last read and before the next request of the connection is handled, on every path: success, HEAD, early end, read error and write failure at any point. "
     "Serving files, missing files and directories leaves no file descriptor open.",
     ["fault_sequences", "inputs"], "every stream outcome, request method, and write failure position",
     "Tests use readers that cannot be closed.",
     [H1 + "serializer.go", "internal/types/attachment.go", "http/response.go"],
     [("attachment close", H1 + "serializer.go"), ("closer detection", "internal/types/attachment.go")],
     "resource monitor: close/read event log of instrumented streams, descriptor census, injected faults",
     "Fault positions are enumerated for small responses, sampled otherwise.")

prop("C33", "Length-indexed map",
     "The length-indexed string map returns, for every key and any order of insertions, the first value inserted under exactly that key, and reports absent keys as not found with the zero value, whatever lengths the keys have. "
     "Insertions never affect other keys.",
     ["histories"], "every sequence of insertions and lookups, all key lengths including empty",
     "Tests insert a handful of keys.",
     ["internal/strlenmap/map.go"],
     [("length buckets", "internal/strlenmap/map.go")],
     "model-based history checker against a reference map",
     "Exploration of operation sequences; small universes are enumerated.")

prop("C34", "Address classification and normalization",
     "An address without host is completed with the wildcard host and any other address is left unchanged; localhost (any case) and IP addresses, v4 as well as v6 (bracketed, or bare if there is no port), are recognised with or without port, and nothing else is. "
     "Listening on a normalized address binds the port given.",
     ["inputs"], "every host and port spelling",
     "Tests classify a few addresses.",
     ["internal/address/address.go", "indi.go"],
     [("classification", "internal/address/address.go")],
     "reference-model monitor (net/netip) over generated addresses",
     "Exploration.")

prop("C35", "Header value parameters are found as written",
     "For a header value made of a value and parameters (value;key=val;key=val, blanks after semicolons allowed), the accessors give exactly the value before the first semicolon, exactly the value of each present parameter up to the next semicolon, and the given or documented default for absent ones: "
     "charset falls back to iso-8859-1; the quality is the digits after 0. and 9 if absent or not a number. No text makes them fail, and they never modify their argument.",
     ["inputs"], "every header value",
     "Tests look up three fixed parameters.",
     ["http/headers/valueaccessors.go"],
     [("parameter lookup", "http/headers/valueaccessors.go")],
     "round-trip monitor: values composed of known parameters, bounded-exhaustive texts",
     "Exploration; parameter names given twice are not generated.")

prop("C36", "HTTPS listeners present their own certificate",
     "Every HTTPS listener presents exactly the certificate configured for it and serves requests over TLS only, never agreeing in the handshake on a protocol other than HTTP/1; a certificate or key that is missing, damaged or does not belong to the other makes serving fail with an error and no listener left open. "
     "AutoHTTPS on localhost or an IP address presents a currently valid self-signed certificate (a new one lasts at least a month), kept in the user's cache directory and reused by later runs; if either of its two files is missing or damaged, they do not belong to each other or the certificate is expired, both are made anew; others cannot read the key. AutoHTTPS on a host name presents for each domain the certificate kept for it there and requests one only for the domains given.",
     ["configurations", "histories"], "every mix of HTTPS listeners, states of the certificate cache and certificate files",
     "No test starts a TLS listener.",
     ["https.go", "indi.go", "internal/address/address.go"],
     [("TLS listeners", "https.go"), ("choice of the listener", "indi.go")],
     "handshake monitor: certificates recorded by a TLS client vs the configured ones, over served applications",
     "Exploration; ACME (public domains) needs a network and is not covered.")

prop("C37", "TRACE is answered by an echo of the request",
     "A TRACE request to a registered path without a TRACE handler of its own is answered 200 with content type message/http and a body that is exactly that request: its method, target with query, protocol and every header in order, then the empty line, and nothing of other requests. "
     "A registered TRACE handler takes precedence, and an unknown path gives 404.",
     ["inputs", "histories"], "every TRACE request and route table, at any position of a connection",
     "Tests render one fixed request.",
     ["router/inbuilt/trace.go", "router/inbuilt/inbuilt.go"],
     [("rendering of the request", "router/inbuilt/trace.go")],
     "round-trip monitor: echoes taken apart and compared with the requests sent",
     "Exploration; the path may be echoed decoded or encoded, with or without trailing slashes.")

prop("C38", "Connections do not wear out and nothing accumulates",
     "The memory held for a connection does not grow with the number of requests served on it, and a connection serves any number of requests alike. Nothing of a connection (memory or goroutine) is kept once it ended, however it ended. "
     "Shared routers, servers, applications and helpers (codings, percent-decoding, lookup maps, addresses, methods, statuses) accumulate nothing with the requests and calls they serve, whatever their paths, hosts, headers, bodies, methods or outcomes. "
     "Input a client never stops sending (a request line, header, chunk, trailer or body without end) is refused or consumed without being kept: memory stays bounded by the configured limits.",
     ["histories", "inputs"], "every length of a connection, every number of connections and calls",
     "A test performs a handful of operations; what is kept per operation shows in the memory only after many thousands of different ones.",
     ["internal/tcp/server.go", "internal/tcp/client.go", "http/serve/http1.go", "internal/protocol/http1/suit.go", "http/request.go", "router/inbuilt/inbuilt.go", "router/virtual/virtual.go", "http/coding/codings.go", "internal/stash/reader.go"],
     [("life of a connection", "internal/tcp/server.go"), ("clearing between requests", "http/request.go"), ("shared routers", "router/inbuilt/inbuilt.go")],
     "resource monitor: live heap, goroutines and finalized connections observed over long series of different operations",
     "Exploration; memory that is kept once (grown buffers) is allowed, only what keeps growing is a violation; growth below some bytes per operation is not seen.")

prop("C39", "Routers get every request and error exactly once, their responses are sent",
     "A router given to an application, a user's own one or the simple router, is initialized exactly once each time the application is served. Each well-formed request is handed to its request side exactly once, and the failure that ends a connection (malformed or oversized input, a failing connection, its end) exactly once to its error side with that error, never the other way round. "
     "Whatever response it returns, its own or the request's, is what is sent, and an absent one is an empty 200; the simple router calls its handler for requests of every method and path and its error handler with the error in the environment.",
     ["histories", "inputs", "faults"], "every stream of requests, every way a connection ends, every returned response",
     "Tests call routers directly or with single requests; what is called how often depends on the whole history and end of a connection.",
     ["router/router.go", "router/simple/simple.go", "internal/protocol/http1/suit.go", "indi.go"],
     [("simple router", "router/simple/simple.go"), ("calls of the server", "internal/protocol/http1/suit.go"), ("initialization", "indi.go")],
     "trace specification: calls recorded by routers and the bytes sent, compared with those derived from the requests",
     "Exploration; 16 ways to end a connection, 11 kinds of responses; hijacked connections belong to C21.")

prop("C40", "Applications in one process are independent",
     "Several applications served in one process at the same time do not influence each other: each uses its own configuration (limits, default headers), also when it was made by changing a default one, its own router with its routes, middlewares and error handlers, and its own callbacks. "
     "Stopping one of them, in either way, ends that one only, with its own result: the others keep their connections, accept new ones and answer as before.",
     ["histories", "schedules", "inputs"], "every set of applications, every order of stopping them",
     "Tests run one application at a time; what is shared between two shows only when they differ and run together.",
     ["indi.go", "config/config.go", "http/serve/http1.go", "internal/construct/constructors.go", "internal/tcp/server.go"],
     [("lifecycle", "indi.go"), ("default configuration", "config/config.go"), ("objects of a connection", "internal/construct/constructors.go")],
     "differential monitoring: applications that differ in everything observable run together under the race detector, each response and callback attributed",
     "Exploration; applications sharing one router object or one listener are not part of it.")

FAULT = {"C32"}


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "state": p["state"],
                            "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                            "observe_at": p["observe"], "hook_needed": None},
            }) + "\n")
    built = [p for p in P if os.path.isdir(os.path.join(HERE, "harness", p["id"].lower()))]
    rest = [p for p in P if p not in built]
    man = {
        "version": 1,
        "setup_cmd": "python3 check.py --setup",
        "checks": [{
            "property": p["id"],
            "quick_cmd": "python3 check.py %s" % p["id"],
            "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s" % p["id"],
            "evidence_file": "evidence/%s.json" % p["id"],
            "technique": "runtime monitoring: " + p["technique"],
            "level": "exploration",
            "level_note": p["note"],
        } for p in built],
        "not_applicable": [{"property": p["id"], "reason": "check not built yet"} for p in rest],
        "notes": "No source hooks are needed in /repo: harness packages are injected with go build -overlay and observe the code at its boundaries.",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


main()
