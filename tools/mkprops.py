#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long texts stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
                          "mechanism": [dict(name=n, where=w) for n, w in mech],
                          "observe_at": observe, "hook_needed": None}})

prop("C01", "A request reaches its handler exactly once and unchanged",
 "For every procedure (any HTTP method, entry point with constant and variable segments, query struct or map, header struct, body) and every request value it can express, a call made through the plain client or the pooled client invokes the handler registered for that procedure exactly once, with path variables, query fields, header fields and body equal to those the caller passed. This holds for booleans, all integer widths at their limits, floats, arbitrary Unicode strings, optional fields present or absent, newtypes and JSON-encoded fields, for requests that leave out any of the path, query or header parts, and for bodies of any length including empty and multi-buffer ones. The body length helper, asked before the body is read, reports the length of the body that was sent.",
 ["inputs", "programs"], "all procedure shapes x all representable field values x body sizes x client kinds",
 "The unit tests serialize three fixed values and parse three fixed URLs, each direction alone; no test ever sends a request to a server.",
 ["src/client.rs", "src/serializers/rpc_request.rs", "src/serializers/url_path.rs", "src/serializers/url_query.rs", "src/serializers/http_header.rs", "src/deserializers/rpc_request.rs", "src/deserializers/url_path.rs", "src/deserializers/url_query.rs", "src/deserializers/http_header.rs", "src/server.rs"],
 [("client request encoding", "src/serializers/*.rs"), ("server request decoding", "src/deserializers/*.rs"), ("dispatch to handler", "src/server.rs RpcServerBuilder::register")],
 ["argument of the handler", "number of handler invocations"])

prop("C02", "A response reaches the caller unchanged, with its status",
 "Whatever response value a handler returns (a struct with a numeric status, an enum whose variant names one of the known HTTP statuses, as unit variant, struct variant, or newtype variant around a struct carrying that same status; header fields; body of any length) is the value the caller's future resolves to: same status or variant, same header fields, same body bytes, however the bytes are split on the network. A response whose status the caller's response type does not declare, whose declared header fields are missing or ill-typed, or which the server cannot encode because its status is not a known one, makes the call fail with an error; it is never turned into another response value.",
 ["inputs", "programs", "schedules"], "all response shapes x all 57 statuses x header values x body sizes x network segmentations",
 "No test serializes or deserializes a response at all; the status name tables (57 entries in each direction) are never executed by tests.",
 ["src/client.rs", "src/serializers/rpc_response.rs", "src/deserializers/rpc_response.rs", "src/serializers/http_header.rs", "src/deserializers/http_header.rs", "src/server.rs"],
 [("status tables", "src/serializers/rpc_response.rs status_from_str, src/deserializers/rpc_response.rs status_code_to_str"), ("response reading", "src/client.rs CallInner::poll")],
 ["result of the call future"])

prop("C03", "Field values can never alter the rest of the message",
 "For every value whatsoever of a path, query or header field or of a header map's keys (including '/', '?', '#', '%', '.', '..', empty strings, control characters, CR and LF), a call either delivers exactly that value to the intended procedure (up to the whitespace HTTP discards around a header value) or fails with an error before any handler runs. It never reaches a different procedure, never changes another field, adds or removes header fields, or changes the body, and never panics; the same holds for header values placed in a response by a handler. Messages too large for the peer's limits, and requests that do not fit their entry point, also end in an error rather than a panic, a hang or a damaged message.",
 ["inputs"], "all strings in all field positions, in both directions, and all mismatches between request value and entry point",
 "Tests only use 'hello world' and 'baz qux' as values; injection and path-normalisation need adversarial characters.",
 ["src/serializers/url_path.rs", "src/serializers/url_query.rs", "src/serializers/http_header.rs", "src/serializers/rpc_request.rs", "src/serializers/rpc_response.rs"],
 [("path segment escaping", "src/serializers/url_path.rs"), ("query escaping", "src/serializers/url_query.rs"), ("header field validation", "src/serializers/http_header.rs")],
 ["set of handler invocations", "raw bytes of the message", "result of the call future"])

prop("C04", "Routing selects exactly the matching procedure, else 405 or 404",
 "For every set of registered procedures and every request, the server invokes the handler whose method equals the request's and whose entry point matches the decoded path segment by segment (constants equal, each variable matching exactly one segment, same length), and no other handler. When several entry points match, constants take precedence over variables from left to right, and a more specific entry point that does not lead to a handler for this method never hides a less specific one that does. If no registered entry point matches the path the answer is 404; if some match the path but none with this method it is 405; in both cases no handler runs.",
 ["programs", "inputs"], "all sets of entry points and methods x all request methods and paths",
 "There is no routing test; shadowing needs particular combinations of overlapping entry points and methods.",
 ["src/router.rs", "src/server.rs", "src/misc.rs"],
 [("trie lookup", "src/router.rs Router::route"), ("404/405 answers", "src/server.rs HandleHttpRequest::poll_impl"), ("request target parsing", "src/misc.rs")],
 ["which handler ran", "status code of the HTTP response"])

prop("C05", "Conflicting registrations are refused and change nothing",
 "Registering a procedure whose method and entry point are both equal to those of an already registered one returns an error; every other registration succeeds, including the same entry point under another method and entry points that are prefixes, extensions or variable-for-constant variants of one another. A refused registration leaves every earlier one in force: the server started afterwards behaves as if the refused call had never been made.",
 ["histories", "programs"], "all sequences of registrations",
 "No test registers anything; the property ranges over sequences with prefixes, duplicates and overlaps.",
 ["src/router.rs", "src/server.rs"],
 [("conflict check on insert", "src/router.rs Trie::insert")],
 ["result of register", "which handler answers afterwards"])

prop("C06", "Undecodable requests get a 400 problem and never reach the handler",
 "A request that is routed to a procedure but whose path variables, query or header fields cannot be decoded as the procedure's request type (missing, ill-typed, out of range, duplicated, or, for path variables and header fields, bad escapes or not UTF-8) is answered with status 400 and an RFC 7807 problem document of status 400 as application/problem+json, without invoking the handler. Requests that can be decoded, in whatever equivalent spelling (escaping, parameter order, header name case, unknown extra parameters and headers), are never rejected. After either, the same connection goes on serving further requests, also when the rejected request carried a body.",
 ["inputs", "histories"], "all requests x all request types, followed by further requests on the same connection",
 "No test drives the server with an invalid request; the error path consumes the body and rebuilds the connection.",
 ["src/server.rs", "src/deserializers/rpc_request.rs", "src/deserializers/url_path.rs", "src/deserializers/url_query.rs", "src/deserializers/http_header.rs", "src/rfc7807.rs"],
 [("decode-or-400", "src/server.rs RpcServerBuilder::register"), ("problem response", "src/rfc7807.rs")],
 ["HTTP response bytes", "handler invocations"])

prop("C07", "A connection carries exactly one well-framed response per request, in order",
 "On every connection, each request sent after the previous response has been received is answered by exactly one response, belonging to that request, whatever mix of successful, 400, 404 and 405 requests precedes it, whatever methods, body sizes and network segmentation are used and however much of each body the handler consumes. Every response's Content-Length equals the number of body bytes that follow, except that a response to HEAD carries no body bytes and leaves the connection usable. Nothing but these responses is ever sent, and the server does not close the connection between them.",
 ["histories", "schedules"], "all request histories on several interleaved connections x all segmentations",
 "Tests never open a connection; desynchronisation needs a particular history (e.g. HEAD or rejected body followed by another request).",
 ["src/server.rs", "src/serializers/rpc_response.rs"],
 [("request loop", "src/server.rs HandleHttpRequest::poll_impl"), ("Content-Length", "src/serializers/rpc_response.rs finish")],
 ["byte stream of each connection"])

prop("C08", "No client behaviour stops or stalls the server for others",
 "Whatever bytes clients send, and whenever they stall, half-close, close or reset their connections, the server future never resolves or panics, and other connections, existing and new, continue to get their correct responses. A connection that is idle, slow, has sent an incomplete request, does not read its response, or whose handler has not finished never delays another connection.",
 ["inputs", "fault_sequences", "schedules"], "all byte strings, disconnect points and interleavings of misbehaving connections next to healthy ones",
 "No test runs a server; the failure paths (reset, garbage, half-close) need specific fault points.",
 ["src/server.rs"],
 [("one fiber per connection", "src/server.rs RpcServer::poll"), ("per-connection error containment", "src/server.rs HandleHttpRequest")],
 ["responses on healthy connections", "state of the server future"])

prop("C09", "A truncated message is never taken for a complete one",
 "If the connection ends (by close or reset) at any byte before the end of a request, no handler is invoked for that request and no success response is sent. If it ends at any byte before the end of a response with a declared length, the call, plain or pooled, resolves with an error; it never yields a response with a shortened or altered header or body, and never stays pending.",
 ["crash_points", "inputs"], "every cut position of every request and response, for clean and abortive closes",
 "Needs a fault at each byte position; no test involves a connection failure.",
 ["src/client.rs", "src/server.rs"],
 [("body length check", "src/client.rs CallInner::poll, src/server.rs register")],
 ["result of the call future", "handler invocations"])

prop("C10", "Messages on the wire follow the documented HTTP mapping",
 "Every request on the wire, read by an independent HTTP/1.1 reader, has the procedure's method; a path whose percent-decoded segments are the entry point's constants and the request's path variables in order; a query that decodes as form-urlencoded pairs of the query's field names and values in order, absent options left out; the header fields under their names; and a Content-Length equal to the body that follows verbatim. Scalars are spelled canonically (true/false, decimal integers, floats that parse back to the same value). Every response on the wire has the status code its value denotes, its header fields, an exact Content-Length and the body verbatim.",
 ["inputs", "programs"], "all procedure shapes and values, in both directions",
 "Round-trip tests cannot see errors made symmetrically in both directions; foreign HTTP clients and servers rely on the mapping itself.",
 ["src/serializers/rpc_request.rs", "src/serializers/url_path.rs", "src/serializers/url_query.rs", "src/serializers/http_header.rs", "src/serializers/rpc_response.rs"],
 [("request line and headers", "src/serializers/rpc_request.rs"), ("response head", "src/serializers/rpc_response.rs")],
 ["raw bytes sent by the client and by the server"])

prop("C11", "Pooled calls get their own answers under any interleaving",
 "However many calls are made concurrently through a connection pool and its handle clones, to however many servers, in whatever order the servers answer, and whichever calls are dropped before completion, every call that is not dropped resolves with the response to its own request from the server it addressed, and each request is executed at most once. No call is left pending while its server answers, and the pool future itself never resolves or panics.",
 ["schedules", "histories"], "all interleavings of concurrent pooled calls, completions and cancellations",
 "Tests do not use the pool; cross-talk needs concurrent calls with reordered completion or cancellation.",
 ["src/pool.rs", "src/client.rs"],
 [("exclusive use of a connection per call", "src/pool.rs acquire_connection/release_connection, Call::poll")],
 ["result of each call future", "requests seen by each server"],
 [("connections", "idle connections by address", "src/pool.rs")])

prop("C12", "The pool keeps at most its size idle, reuses, and evicts the oldest",
 "At every quiescent point the number of connections a pool holds open without a call using them is at most the configured pool size, for every size including zero. A call to an address for which the pool holds an idle connection uses such a connection instead of opening a new one, and a successful call's connection becomes idle again. When the limit is exceeded the connections closed are those returned least recently, regardless of their address; no other idle connection is closed.",
 ["histories", "configurations"], "all sequences of concurrent and sequential calls to several addresses x pool sizes",
 "The bound and LRU order only show in histories longer than the pool size over several addresses; no test touches the pool.",
 ["src/pool.rs"],
 [("LRU eviction", "src/pool.rs drop_exceeded_lru_connections"), ("reuse", "src/pool.rs acquire_connection")],
 ["connections open at the servers", "which connection carries which request"],
 [("connections/lru_queue", "idle connections and their release order", "src/pool.rs")])

prop("C13", "The pool suspends an address exactly after a failed connect",
 "After a pooled call fails because connecting to its address failed or exceeded the connect timeout, calls to that address fail at once and make no connection attempt until the suspended duration has passed, and afterwards connection attempts are made again. Calls to other addresses, and calls failing for any other reason than connecting, are never affected; a connect that neither succeeds nor fails makes its call fail after the connect timeout, not earlier and not never. This holds for every configured duration, including zero and the largest, without panicking.",
 ["histories", "configurations", "fault_sequences"], "all histories of refused, timed-out, successful and failing calls to several addresses x durations",
 "Needs connect failures followed by further calls at controlled times; no test touches the pool.",
 ["src/pool.rs"],
 [("blacklist", "src/pool.rs handle_command, PooledConnection::poll"), ("connect timeout", "src/pool.rs acquire_connection")],
 ["connection attempts seen at the address", "result of each call future"],
 [("blacklist", "suspended addresses and expiry times", "src/pool.rs")])

prop("C14", "A connection that is not at a clean message boundary is never reused",
 "A pooled connection whose call was dropped before completion, or failed for any reason (undecodable, malformed or truncated response, unencodable request, reset), or whose response had no declared length and ended with the connection, never carries another call: it is closed, and the next call to that address uses another connection and gets its own response. No byte of an earlier response is ever interpreted as part of a later one.",
 ["fault_sequences", "histories", "schedules"], "all fault and cancellation points of a call followed by further calls to the same address",
 "Needs failures or cancellation at particular points followed by another call; no test touches the pool.",
 ["src/pool.rs", "src/client.rs"],
 [("release only after success", "src/pool.rs Call::poll")],
 ["which connection carries which request", "result of each call future"])

prop("C15", "Problem responses carry one consistent status and survive the wire",
 "For every status and error, a problem response is sent with the HTTP status of the problem it carries (also after the problem has been replaced), content type application/problem+json, and a JSON document with the problem's type, title, status and, when present, detail, instance and history. A client whose response type is the problem response, or an enum with a problem variant for that status, obtains a problem equal to the one sent; a body that is not a valid problem document never makes the client panic.",
 ["inputs", "configurations"], "all statuses, titles, details, instances and histories; all bodies",
 "Two doc-tests print two fixed problems; nothing sends or reads one.",
 ["src/rfc7807.rs", "src/serializers/rpc_response.rs", "src/deserializers/rpc_response.rs"],
 [("status taken from the problem", "src/rfc7807.rs ProblemResponse"), ("JSON form", "src/rfc7807.rs Problem")],
 ["raw response bytes", "problem seen by the client"])

prop("C16", "The JSON and MessagePack field encodings are lossless and total",
 "For every value that the format itself can carry, encoding it through the json, json_pretty or msgpack field modules and decoding the result through the corresponding module yields an equal value, with any carrier format able to hold the encoded form; the encoded form is a standard JSON text (one line for json, pretty-printed for json_pretty) or MessagePack document of the value. Decoding any other JSON text gives what a standard decoder gives, value or error; decoding any other bytes as MessagePack gives the value a standard decoder gives or an error. Nothing panics.",
 ["inputs"], "all values of serde's data model; all strings and byte strings as encoded input",
 "These modules have no tests.",
 ["src/json.rs", "src/json_pretty.rs", "src/msgpack.rs"],
 [("with-modules", "src/json.rs, src/json_pretty.rs, src/msgpack.rs")],
 ["encoded carrier value", "decoded value"])

prop("C17", "Path, query and header decoders are exact on every input",
 "For every URL and header list and every target type, the decoders give exactly what the HTTP conventions prescribe: percent-decoding of path segments as UTF-8, form-urlencoded decoding of query pairs, case-insensitive header names, scalars by their textual form, absent optional fields as none, unknown parameters and headers ignored, independence of the order of parameters. Missing or repeated fields, values outside the type's range, malformed escapes or invalid UTF-8 in path segments, header values that are not UTF-8, and a wrong number of path segments give an error. No input causes a panic.",
 ["inputs", "programs"], "all URLs, query strings and header lists x all target types",
 "Two unit tests parse three fixed URLs; unknown parameters, escapes, Unicode and limits are never exercised.",
 ["src/deserializers/url_path.rs", "src/deserializers/url_query.rs", "src/deserializers/http_header.rs"],
 [("path decoding", "src/deserializers/url_path.rs"), ("query decoding", "src/deserializers/url_query.rs"), ("header decoding", "src/deserializers/http_header.rs")],
 ["decoded value or error"])

prop("C18", "Handlers need only be Send: never accessed from two threads at once",
 "A handler type has to be cloneable and sendable but not shareable between threads, so on a multi-threaded executor the server never accesses one registered handler instance from two threads at the same time, and runs each call on its own clone. Calls nevertheless proceed concurrently, and all calls get their own correct answers.",
 ["schedules"], "all schedules of concurrent requests to the same procedures on a multi-threaded executor",
 "A data race needs concurrent requests on several threads; no test starts a server.",
 ["src/router.rs", "src/server.rs"],
 [("handler clone per request", "src/server.rs RpcServerBuilder::register"), ("shared router", "src/router.rs Router")],
 ["overlapping accesses recorded by the handler's clone operation", "responses"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
