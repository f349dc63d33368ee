#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the long texts stay readable)."""
import json, os
P=[]
def prop(id,title,statement,over,text,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),
      why_tests_cant=why,anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=None)))
S="src/"
prop("C01","Path variables reach the handler unchanged",
 "For every procedure and every tuple of path variable values (booleans, integers of every width, floats, arbitrary Unicode strings), a call either invokes the handler with exactly those values or fails with an error without invoking any handler. Only values a URL path cannot carry (\".\", \"..\", strings with TAB/CR/LF, an empty first segment followed by others) may be refused. On the wire the request target is a standard percent-encoded path, and any standard encoding of the same values sent by a foreign HTTP client is decoded to the same values.",
 ["inputs","programs"],"all entry points and all values of all supported path variable types",
 "The two unit tests look at one path with an ASCII string and one integer; they never cross client and server, and no non-ASCII, boundary or reserved-character value is tried.",
 [S+"serializers/url_path.rs",S+"deserializers/url_path.rs",S+"misc.rs",S+"serializers/rpc_request.rs"],
 [("bind path variable into a percent-encoded segment",S+"serializers/url_path.rs"),("percent-decode and parse segment",S+"deserializers/url_path.rs")],
 observe=["handler arguments","request line on the wire","result of the call"])
prop("C02","Query parameters reach the handler unchanged",
 "For every procedure and every assignment of its query fields (all scalar types, arbitrary Unicode strings, optional fields present or absent), a call invokes the handler with exactly those values: absent optionals arrive as absent and present ones as present, including empty strings. On the wire the query is standard application/x-www-form-urlencoded, and any standard encoding of the same pairs in any order, with unknown parameters interspersed, is decoded to the same values.",
 ["inputs","programs"],"all query structs and all values of all supported types, all pair orders and unknown extra pairs",
 "Existing tests serialize two fixed structs and parse two fixed URLs; booleans, floats, negative numbers, non-ASCII text, reserved characters and unknown parameters are never tried.",
 [S+"serializers/url_query.rs",S+"deserializers/url_query.rs"],
 [("append_pair per field",S+"serializers/url_query.rs"),("form_urlencoded parse + typed visit",S+"deserializers/url_query.rs")],
 observe=["handler arguments","request line on the wire"])
prop("C03","Header fields survive in both directions unchanged",
 "For every request or response header field a procedure declares (all scalar types, strings, optionals), the other side receives exactly the value given or the call fails with an error: no value is ever trimmed, split, merged with another field or able to introduce another header. Only strings HTTP cannot carry (control characters other than inner TAB, leading or trailing blanks) may be refused. Header names match case-insensitively and unknown headers are ignored.",
 ["inputs","programs"],"all header structs, all values, both directions, all letter cases of names",
 "There is no unit test for header (de)serialization at all; injection and trimming only show for particular characters.",
 [S+"serializers/http_header.rs",S+"deserializers/http_header.rs"],
 [("add_raw_header with validation",S+"serializers/http_header.rs"),("lower-cased key / raw value visit",S+"deserializers/http_header.rs")],
 observe=["handler arguments","response given to the caller","wire headers"])
prop("C04","Bodies are delivered byte for byte or not at all",
 "For every request body and every response body (any bytes, any length including empty), the handler and the caller receive exactly the bytes given, however the transport splits them. If the peer stops before the announced length, the handler is not invoked (request) or the call fails with an error (response): a truncated body is never delivered as complete.",
 ["inputs","fault_sequences","schedules"],"all byte strings and lengths, all segmentations, all truncation points",
 "Tests never transfer a body; truncation needs a peer that dies at a particular byte.",
 [S+"client.rs",S+"server.rs",S+"serializers/rpc_request.rs",S+"serializers/rpc_response.rs"],
 [("Content-Length from body length",S+"serializers/rpc_request.rs; "+S+"serializers/rpc_response.rs"),("read_all_bytes + length check",S+"client.rs; "+S+"server.rs")],
 observe=["handler body","caller body","Content-Length on the wire"])
prop("C05","The response variant and status reach the caller unchanged",
 "Whatever response the handler returns - an enum variant named after an HTTP status or a struct with a numeric status - is sent with that status code and received by the caller as the same variant or the same numeric status, with that variant's header and body. (A newtype variant wraps a response of that same status; a numeric status is one of the registered HTTP statuses, other numbers may make the call fail.) A status the caller's response type does not declare makes the call fail with an error, never turn into a different variant.",
 ["inputs","programs"],"all 57 status names, all response shapes (unit, struct, newtype variants, plain structs), all pairs of server/client response types",
 "No test serializes or deserializes a response; a wrong entry in either of the two 57-entry tables shows only for that status.",
 [S+"serializers/rpc_response.rs",S+"deserializers/rpc_response.rs"],
 [("variant name -> status",S+"serializers/rpc_response.rs"),("status -> variant name",S+"deserializers/rpc_response.rs")],
 observe=["status line","value returned by the call"])
prop("C06","Each request is dispatched to exactly the matching procedure",
 "For every set of registered procedures and every request, the handler invoked is the one reached by matching the decoded path segment by segment, where a literal segment wins over a variable one, and by the request method; the number of segments must match exactly. Matching goes forward without backtracking: once a literal has been taken, variables at that position are not tried any more. No other handler runs, and the order of registration does not matter.",
 ["inputs","configurations","programs"],"all procedure sets, registration orders, methods and request paths",
 "No test registers two procedures; overlap between literals, variables, prefixes and methods is combinatorial.",
 [S+"router.rs",S+"server.rs",S+"procedure.rs",S+"misc.rs"],
 [("trie walk, literal child first",S+"router.rs"),("per-method leaf",S+"router.rs")],
 [("trie","registered entry points and methods",S+"router.rs")],observe=["which handler ran"])
prop("C07","Conflicting registrations are refused, others accepted",
 "Registering a procedure whose method and entry point are already taken fails and leaves the earlier procedure serving; every registration that differs in method, segment count, a literal or in literal versus variable at some position succeeds, in any order. After any history of successful and failed registrations the server serves exactly the successfully registered procedures.",
 ["histories","configurations"],"all sequences of registrations",
 "Tests never register a conflicting pair, let alone long histories.",
 [S+"router.rs",S+"server.rs"],[("conflict check before insert",S+"router.rs")],observe=["result of register","later dispatch"])
prop("C08","Unserviceable requests get the right problem response",
 "A well-formed request that matches no entry point gets 404, one whose path is registered only for other methods gets 405, and one whose path, query or headers do not fit the procedure's types gets 400; each such response is an RFC 7807 problem document whose status member equals the HTTP status. No handler runs for such a request, and the connection keeps serving later requests.",
 ["inputs","histories","configurations"],"all well-formed requests outside the registered interface, at any position of a connection's history, with or without body",
 "No test sends a request that is rejected.",
 [S+"server.rs",S+"router.rs",S+"rfc7807.rs",S+"deserializers/rpc_request.rs"],
 [("router error -> problem",S+"server.rs"),("deserialize error -> 400 problem",S+"server.rs")],observe=["responses on the wire","handler log"])
prop("C09","Responses on a connection answer its requests one to one, in order",
 "On every connection that sends one request after the other, the k-th response answers the k-th request, there is exactly one response per request, and its Content-Length equals the number of body bytes that follow - except that a HEAD response announces the length but carries no body. This holds for any number of requests, any mix of accepted and rejected ones, any split of the bytes into segments and whether or not the handler reads the request body.",
 ["histories","schedules","inputs"],"all request sequences per connection, segmentations and handler delays",
 "No test opens a server connection; framing errors appear only from the second request on or under particular segmentations.",
 [S+"server.rs",S+"serializers/rpc_response.rs",S+"client.rs"],
 [("connection loop read -> handle -> write",S+"server.rs"),("HEAD writes no body",S+"server.rs"),("unread body discarded",S+"server.rs")],observe=["byte stream of each connection"])
prop("C10","No peer can stop the server or disturb other connections",
 "Whatever bytes a peer sends (malformed heads, unknown methods, odd request targets, oversized heads, garbage), and whenever it closes, half-closes or resets its connection, the server keeps accepting connections and every other connection's requests are handled and answered as if that peer did not exist. Failures to accept a connection (too many open files, a connection aborted before it was accepted) do not end the server: connections which wait are served once accepting works again. A request that is not complete and well-formed never invokes a handler.",
 ["fault_sequences","inputs","schedules"],"all peer behaviours at all points, interleaved with other connections",
 "Tests never connect a misbehaving peer.",
 [S+"server.rs",S+"router.rs",S+"misc.rs"],
 [("one fiber per connection, errors end only that fiber",S+"server.rs"),("routing total on every parsed target",S+"router.rs")],observe=["other connections' responses","new connections accepted","server future still running"])
prop("C11","Concurrent calls never receive each other's responses",
 "However many calls are in flight at once - over one server, several servers, plain clients or a shared pool - and in whatever order handlers finish, each call that succeeds returns the response its own handler invocation produced. A pooled connection serves at most one call at a time.",
 ["schedules","histories"],"all interleavings of concurrent calls, handler completion orders and pool reuse",
 "No test runs two calls.",
 [S+"pool.rs",S+"client.rs",S+"server.rs"],
 [("connection moved out of the pool while in use",S+"pool.rs"),("released only with the complete response",S+"pool.rs")],
 [("connections","idle connections by address",S+"pool.rs")],observe=["token echoed to each caller","requests outstanding per connection"])
prop("C12","The pool keeps at most its size idle and evicts the oldest first",
 "At any moment a pool holds at most its configured number of idle connections (1024 by default), over all addresses together; when a released connection exceeds it, exactly the idle connection that was released longest ago is closed. Connections in use do not count and are never closed by the pool.",
 ["histories","configurations"],"all histories of calls over any addresses, all pool sizes including 0",
 "No test exercises the pool; the eviction order needs histories over several addresses.",
 [S+"pool.rs"],[("evict while over the limit",S+"pool.rs")],
 [("lru_queue","release order of idle connections",S+"pool.rs")],observe=["connections seen and closed at the peers"])
prop("C13","Idle pooled connections are reused, only for their own address",
 "A call through a pool goes to the address it names and to no other. If an idle connection to that address is in the pool the call uses it instead of opening a new one; otherwise exactly one new connection is opened (none if the address is suspended).",
 ["histories"],"all histories of calls to several addresses (differing in IP or only in port)",
 "No test exercises the pool.",
 [S+"pool.rs"],[("lookup by address range",S+"pool.rs")],observe=["connection each request arrives on"])
prop("C14","Unreachable addresses are suspended for exactly the configured time",
 "After a pool fails to connect to an address (refused or timed out), calls to that address fail immediately without any connection attempt until the configured suspension time since that failure has passed, after which the pool tries again; other addresses are unaffected. Failures after the connection was established (broken or invalid responses, stale connections) and cancelled calls never suspend an address.",
 ["histories","fault_sequences","configurations"],"all histories of failures, recoveries, elapsed times and configured durations",
 "Needs controlled time and connection failures; no test touches it.",
 [S+"pool.rs"],[("blacklist with expiry",S+"pool.rs"),("only connect failures report",S+"pool.rs")],
 [("blacklist","address -> suspended until",S+"pool.rs")],observe=["call results","connection attempts at the peer","virtual time"])
prop("C15","Every call finishes with a result or an error, never silently hangs",
 "A call finishes with an error as soon as the peer refuses, closes or resets the connection, answers something that is not a valid response for the procedure, the pool's connect timeout passes, the address is suspended or the pool is gone - at whatever byte of the exchange that happens. It finishes successfully only if the complete response of its own request was received.",
 ["fault_sequences","crash_points","schedules"],"all fault kinds at all byte positions of the exchange, plain and pooled clients",
 "Requires a peer that fails at each position; tests have no failing peer.",
 [S+"client.rs",S+"pool.rs",S+"deserializers/rpc_response.rs"],
 [("call state machine propagates every error",S+"client.rs"),("connect timeout",S+"pool.rs")],observe=["call result","elapsed virtual time"])
prop("C16","Only connections with a finished exchange return to the pool",
 "A connection whose exchange failed, was cut short or whose call was abandoned is never used by a later call and is closed; a later call to the same address uses another connection and gets its own response. The bytes of an abandoned exchange can never be read by another call.",
 ["fault_sequences","schedules","histories"],"all points at which a call can fail or be dropped",
 "Requires dropping calls at each stage and a late response.",
 [S+"pool.rs",S+"client.rs"],[("release only after the response is complete",S+"pool.rs")],observe=["connection closed at the peer","connection used by later calls"])
prop("C17","A call runs its handler at most once, and exactly once if it succeeds",
 "No call, whether it succeeds, fails, times out or is cancelled, ever causes more than one handler invocation; a call that returns the handler's response caused exactly one. No request is retried or duplicated on any fault, and no handler runs without a call or raw request asking for it.",
 ["fault_sequences","schedules","histories"],"all faults and interleavings",
 "No test counts invocations.",
 [S+"client.rs",S+"pool.rs",S+"server.rs"],[("request taken once",S+"client.rs"),("one handler future per parsed request",S+"server.rs")],observe=["handler log per token"])
prop("C18","The json, json_pretty and msgpack field helpers round-trip every value",
 "For every value of a serializable type that the encoding can express (JSON has no NaN or infinities, and maps need text keys), a field marked with one of the helpers is carried as one JSON text (json, json_pretty) or one sequence of bytes (msgpack) and deserializes to an equal value, in any surrounding format that can carry it, including query parameters for json and json_pretty and headers for json. Text or bytes that do not encode a value of the field's type are reported as an error.",
 ["inputs","programs"],"all values (nested structures, optionals, maps, Unicode, extreme numbers), both helper directions",
 "The helpers have no tests.",
 [S+"json.rs",S+"json_pretty.rs",S+"msgpack.rs"],[("serialize inner then as string/bytes",S+"json.rs; "+S+"msgpack.rs")],observe=["decoded value"])
prop("C19","Problem documents are complete and self-consistent",
 "Every problem response has the problem+json content type and a body that is a JSON object with type, title and status members, whose status member equals the HTTP status code and whose other members are those given (for a problem made of an error: its text as title, its cause as detail, its tracking history as history); the caller reads back an equal problem. This also holds after the problem of a response is replaced, for every status.",
 ["inputs","histories"],"all statuses, both problem types, all member combinations, replacement",
 "Only two doc examples print one problem each.",
 [S+"rfc7807.rs",S+"serializers/rpc_response.rs"],[("status taken from the problem",S+"rfc7807.rs")],observe=["response bytes","problem read by the caller"])
prop("C20","Inputs that do not fit the declared types never reach a handler",
 "For every declared field type, a path, query or header text that is not a literal of that type (wrong syntax, out of range, empty where a number is expected, invalid UTF-8 in a path segment or header value) or a missing required field is rejected, and every canonical literal in range is accepted with exactly its value. A missing optional field arrives as absent; the check is the same wherever the field appears.",
 ["inputs","programs"],"all texts x all field types x all places",
 "Tests parse two valid URLs only.",
 [S+"deserializers/url_path.rs",S+"deserializers/url_query.rs",S+"deserializers/http_header.rs",S+"deserializers/rpc_request.rs"],
 [("typed parse of the decoded text",S+"deserializers/*.rs")],observe=["status of the response","handler arguments"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for p in P: f.write(json.dumps(p,ensure_ascii=False)+"\n")
print(len(P))
