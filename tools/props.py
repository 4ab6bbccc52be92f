"""Texts of the properties; tools/gen.py writes properties.jsonl and MANIFEST.json from them."""

P = []
NA = []
SRV = ["src/connectrpc/_server_async.py", "src/connectrpc/_server_sync.py"]
CLI = ["src/connectrpc/_client_async.py", "src/connectrpc/_client_sync.py"]
PRO = ["src/connectrpc/_protocol.py", "src/connectrpc/_protocol_connect.py", "src/connectrpc/_protocol_grpc.py"]
ENV = ["src/connectrpc/_envelope.py"]


def prop(id, title, statement, over, text, why, files, mech, observe=()):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": list(observe)},
    })


def na(id, reason):
    NA.append({"property": id, "reason": reason})


prop("C01", "The read limit stands between the network and the codec",
     "When a maximum message size is configured, no message larger than it - as received, or after decompression - is ever decoded or handed to a service function or caller, on either side of the connection. This holds for unary bodies, GET query messages and every message of every stream, in all protocols, compressed or not, however the bytes are split into chunks.",
     ["inputs", "configurations"], "all message sizes, chunkings, compressions, protocols, RPC kinds, async and sync, client and server",
     "The tests use one limit and a few payloads per transport; sizes, chunk boundaries and the combinations of protocol, compression and RPC kind are unbounded.",
     SRV + CLI + ENV, [("size checks while reading and after decompression", "_read_body, EnvelopeReader._read_messages, execute_unary")], ["codec.decode"])

prop("C02", "ASGI responses follow the ASGI event order",
     "For every request and service behaviour, the ASGI application sends exactly one response start, then body events, the last of which is marked final, then - only when announced - exactly one set of trailers, and nothing afterwards. When the application returns without being cancelled the response is complete; header names and values are byte strings and the status is a number.",
     ["inputs", "schedules", "fault_sequences"], "all requests, chunkings, disconnects, cancellations and service outcomes, for every RPC kind and protocol",
     "Tests observe a complete response through a client; the order of events on the error, disconnect and cancellation paths is not visible to them.",
     [SRV[0]], [("response sending", "ConnectASGIApplication.__call__, _handle_stream, _send_stream_response_headers, _handle_error")], ["send()"])

prop("C03", "WSGI responses follow the WSGI calling order",
     "For every request and service behaviour, the WSGI application calls start_response exactly once before the first body chunk, yields only byte strings, sends trailers at most once and only after all body chunks, and does not let an exception escape to the WSGI server.",
     ["inputs", "fault_sequences"], "all requests, read sizes and service outcomes, for every RPC kind and protocol",
     "Tests observe the response through a client and sample a handful of failures.",
     [SRV[1]], [("response sending", "ConnectWSGIApplication.__call__, _handle_stream, _response_stream, _send_stream_response_headers")], ["start_response", "response iterable", "wsgi.ext.http.send_trailers"])

prop("C04", "A stream's end tells the truth",
     "Every streaming response carries the service's messages in order, each once, followed by exactly one end-of-stream marker as the last thing sent. The end reports success only if the service function finished normally and all of its messages were sent; it reports an error when the service failed, the request could not be read, or the call was cancelled.",
     ["inputs", "schedules", "fault_sequences"], "all service outcomes after any number of messages, request faults, disconnects and cancellations, for every RPC kind and streaming protocol",
     "Tests cover success and a fixed error; failures after some messages, cancellations and request faults mid-stream are combinations they do not enumerate.",
     SRV + PRO + ENV, [("end-of-stream writers", "ConnectEnvelopeWriter.end, GRPCEnvelopeWriter.end, GRPCWebEnvelopeWriter.end"), ("stream handlers", "_handle_stream, _response_stream")], ["response bytes and trailers"])

prop("C05", "A request that breaks off is never taken for a complete one",
     "When a request breaks off - the client disconnects, the call is cancelled, reading the body fails, it ends inside a message envelope, or (for a single message sent as a plain body) it is shorter than declared - the service function is not run with it as a single message and does not see a normal end of its request stream. A request that arrives in full reaches the service function exactly once, with exactly the messages sent, in order.",
     ["inputs", "fault_sequences"], "all requests, all points where they can break off, for every RPC kind and protocol, on both servers",
     "Tests send whole requests through a client; where a request can break off is unbounded and needs a misbehaving peer.",
     SRV + ENV, [("reading requests", "_read_body, _request_stream, _consume_single_request"), ("envelopes", "EnvelopeReader.feed, EnvelopeReader.incomplete")], ["messages and end seen by the service function"])

prop("C06", "A truncated response never looks complete",
     "A caller's stream ends normally, or a single response is returned, only after the server's end of stream marker with a success status arrived and nothing was left over; the messages seen are then exactly those sent, in order. A response that breaks off at any byte, lacks its end marker, carries an error or has data after its end is reported as an error.",
     ["inputs", "fault_sequences"], "all server responses and all places where they can break off, all protocols and RPC kinds, async and sync",
     "Tests use whole responses from the library's own server; truncation has as many places as the body has bytes, times protocols, kinds and end markers.",
     ["src/connectrpc/_envelope.py"] + CLI + PRO, [("end of stream", "EnvelopeReader.feed, handle_end_message, handle_response_complete"), ("single responses", "_consume_single_response")], ["messages and outcome seen by the caller"])

prop("C07", "Callers see every failure as a ConnectError of the right category",
     "Whatever the server or the transport does, a failed call raises a ConnectError and nothing else. Timeouts become deadline_exceeded, cancellation canceled, HTTP errors without a readable error and stream resets the code the protocols assign to them, and other transport failures unavailable.",
     ["inputs", "fault_sequences"], "all transport failures at all points of a call, all HTTP statuses and bodies, all protocols and RPC kinds, async and sync",
     "Tests cover a handful of statuses and failures on unary calls; error handlers themselves can fail on malformed responses.",
     ["src/connectrpc/_client_shared.py"] + CLI + PRO, [("exception mapping", "_send_request_unary, _send_request_bidi_stream, maybe_map_stream_reset, ConnectWireError.from_response")], ["exceptions raised by client calls"])

prop("C08", "Deadlines are enforced by the client and seen by the service",
     "A call's timeout - its own, even zero, else the client's default - bounds every wait for the server, never the caller's own work, and a call whose time runs out fails with deadline_exceeded. The request states the timeout in its protocol's header, in a form the protocol allows and the same to within that form's precision; a call without timeout states and enforces none. The service sees the remaining time, and a malformed timeout header is answered with invalid_argument before the service runs.",
     ["inputs", "schedules", "configurations"], "all timeouts and timeout headers, all places where time can run out, every RPC kind and protocol, both clients and servers",
     "Tests use one or two timeouts against a real clock; where the time runs out, and the values at the limits of the header formats, are not under their control.",
     CLI + PRO + ["src/connectrpc/_client_shared.py", "src/connectrpc/request.py"], [("enforcing", "_send_request_unary, _send_request_bidi_stream, maybe_map_stream_reset"), ("declaring", "create_request_context, _serialize_timeout"), ("reading", "create_request_context, _parse_timeout")], ["timeouts given to the HTTP client", "timeout headers", "error seen by the caller", "context seen by the service"])

prop("C09", "Error codes survive the trip from service to caller",
     "When a service function raises a ConnectError, the caller gets a ConnectError with the same code, for all sixteen codes, in every protocol and RPC kind; on the wire the code appears as the protocol defines it (Connect JSON name and HTTP status, gRPC status number). Any other exception of the service reaches the caller as an unknown error, and a failed call is never seen as a success.",
     ["inputs", "configurations"], "all sixteen codes and unexpected exceptions, all protocols and RPC kinds, after any number of messages, async and sync",
     "Tests check a few codes on a few transports; the product of codes, protocols, RPC kinds and transports is not enumerated by them.",
     PRO + SRV + CLI + ["src/connectrpc/code.py"], [("code tables", "_connect_status_to_grpc, _grpc_status_to_connect, ConnectWireError.from_exception/from_http_status"), ("error writers", "_handle_error, EnvelopeWriter.end")], ["response status, trailers and end-of-stream", "exception raised to the caller"])

prop("C10", "Error messages and details survive the trip from service to caller",
     "The message and every detail (type and bytes, in order) of a ConnectError raised by a service function reach the caller unchanged, in every protocol and RPC kind, including empty messages, messages with characters that need escaping, and errors without details. The same holds towards other implementations of the protocols: a gRPC message they percent-encode and details they write in base64, with or without padding, are read as what they mean, and the messages sent to them are percent-encoded as gRPC demands.",
     ["inputs", "configurations"], "all message texts, all numbers of details and detail contents, all protocols and RPC kinds, async and sync",
     "Tests use fixed ASCII messages and one detail type; arbitrary texts and bytes pass through percent, JSON and base64 encodings that differ by protocol.",
     PRO + ["src/connectrpc/errors.py"], [("error encoding and decoding", "GRPCEnvelopeWriter.end, GRPCEnvelopeReader.handle_response_complete, ConnectWireError")], ["exception raised to the caller"])

prop("C11", "Compression is negotiated, declared and undone correctly",
     "Every compressed message is marked as such and is compressed with exactly the encoding its headers declare, which is one the peer said it accepts; the receiver undoes exactly that encoding. A request in an encoding the server does not know is rejected with unimplemented and its content never reaches the service.",
     ["inputs", "configurations"], "all combinations of send and accept compressions on both sides, all protocols and RPC kinds, async and sync",
     "Tests try gzip against gzip; the combinations of per-direction encodings, identity, unknown encodings and protocols are not enumerated.",
     ["src/connectrpc/_compression.py"] + PRO + ENV + SRV + CLI, [("negotiation", "negotiate_compression, negotiate_stream_compression, handle_response_compression"), ("envelope flag", "EnvelopeWriter, EnvelopeReader")], ["request and response headers and envelopes"])

prop("C12", "Both sides use the codec the content type names",
     "Requests and responses declare the protocol and codec they use, each message is decoded with the codec it was encoded with, and a declared content type always matches the bytes sent. A request for an unknown codec is answered with 415 and never reaches the service; a client rejects a response in another codec or protocol.",
     ["inputs", "configurations"], "all codecs, content types, protocols and RPC kinds, async and sync",
     "Tests use matching proto and JSON content types; mismatching and malformed content types per protocol are sampled only.",
     PRO + SRV + CLI, [("codec selection", "codec_name_from_content_type, content_type, validate_response, validate_stream_response")], ["content-type headers", "codec calls"])

prop("C13", "Only the HTTP methods an RPC allows reach it",
     "POST reaches every method, GET only unary methods declared free of side effects and only over the Connect protocol, and no other HTTP method reaches a service function. Every other request is answered with 405 and an allow header naming exactly the allowed methods.",
     ["inputs", "configurations"], "all HTTP methods, idempotency levels, RPC kinds and protocols, async and sync",
     "Tests send GET to unary methods only; a streaming method, another protocol or an unusual HTTP method is not sampled.",
     SRV + PRO, [("HTTP method check", "create_request_context in each server protocol"), ("dispatch", "ConnectASGIApplication.__call__, ConnectWSGIApplication.__call__")], ["service calls", "status and allow header"])

ICPT = ["src/connectrpc/_interceptor_async.py", "src/connectrpc/_interceptor_sync.py"]
prop("C14", "Every interceptor of the call's kind runs once, the first one outermost",
     "However interceptors are given (list, tuple, iterator), every call of every method runs each interceptor for its kind of RPC and each metadata interceptor exactly once, the first given outermost, and no interceptor for another kind. The messages that an interceptor passes on are the ones the next one and the service or network see, in both directions; when one answers or fails by itself, what it wraps does not run.",
     ["inputs", "configurations", "fault_sequences"], "all lists of interceptors, calls, RPC kinds and outcomes, on both clients and servers",
     "Tests use one or two interceptors on one method with calls that succeed.",
     ICPT + CLI + SRV, [("applying interceptors", "resolve_interceptors, _apply_interceptors, ConnectClient.__init__")], ["order of interceptor calls", "messages seen inside and outside"])

prop("C15", "A metadata interceptor sees the start and the end of every call once",
     "For every call whose start a metadata interceptor was told of, it is told of the end exactly once, with the value it returned at the start, the same context, and the error that the call failed with, or none if it did not fail. The call is over by then, also when an asynchronous stream is abandoned early: what the interceptor wraps has finished, including its cleanup.",
     ["inputs", "schedules", "fault_sequences"], "all calls, RPC kinds, outcomes and places where a stream is abandoned, on both clients and servers",
     "Tests use calls that complete; errors after some messages and abandoned streams are not among them.",
     ICPT, [("pairing", "MetadataInterceptorInvoker, MetadataInterceptorInvokerSync")], ["calls of on_start and on_end"])

prop("C16", "Unexpected failures reach the operator, errors for the caller do not",
     "An exception that is not an error meant for the caller - raised by the service function at any point, or by encoding or compressing its messages - is raised, as the same object, out of the ASGI application once the caller's response is complete, and written with its traceback to the WSGI server's error stream without escaping. A call that succeeds, or fails with an error meant for the caller, does neither.",
     ["inputs", "fault_sequences"], "all failures of the service function and of writing its messages, after any message, for every RPC kind and protocol, on both servers",
     "Tests look at what the caller receives; whether the operator hears of a failure differs per transport, kind and point of failure.",
     SRV, [("ASGI", "ConnectASGIApplication.__call__, _handle_stream"), ("WSGI", "_maybe_log_exception, _response_stream")], ["exception raised to the server, text logged"])

prop("C17", "Response headers and trailers reach the caller",
     "Response headers and trailers set by a service function reach the caller's ResponseMetadata with their values and order, headers as headers and trailers as trailers, whether the call succeeds or fails, in every protocol and RPC kind.",
     ["inputs", "configurations"], "all header and trailer values, success and failure, all protocols and RPC kinds, async and sync",
     "Tests check single values on successful calls; repeated values, failures and the three trailer encodings multiply.",
     ["src/connectrpc/_response_metadata.py"] + SRV + CLI + PRO, [("metadata capture", "handle_response_headers, handle_response_trailers"), ("trailer writing", "EnvelopeWriter.end, _add_context_headers")], ["ResponseMetadata"])

prop("C18", "Request headers reach the service and the caller's object is not changed",
     "Headers given by the caller reach the service function with their values and order, except those the protocol itself defines, which are always set by the client exactly once with the correct value. The caller's header object is not modified by the call. A request is served whatever bytes its headers hold.",
     ["inputs", "configurations"], "all header values, header containers and clashes with protocol headers, all protocols and RPC kinds, async and sync",
     "Tests pass a few headers; clashes with protocol headers, repeated values and mutation of a reused object are not covered.",
     PRO + CLI + SRV, [("request context", "create_request_context")], ["request headers on the wire", "RequestContext.request_headers"])

prop("C19", "The headers container keeps every value under its name, whatever the case",
     "After any history of building, adding, replacing, deleting, popping, updating and clearing, a headers container holds, for each name regardless of case, exactly the values that were added since the name was last replaced or removed, in the order of adding. Every way of looking at it - subscript, get, membership, length, iteration, items, all items, all values of a name - agrees with that, and a missing name is a KeyError, None or nothing.",
     ["inputs"], "all histories of operations, all values, names in any case",
     "Tests check single operations; the container keeps repeated values apart from first ones, which can only get out of step after several operations.",
     ["src/connectrpc/_headers.py"], [("container", "Headers"), ("view of all pairs", "_AllItemsView")], ["results of the container's operations"])

prop("C20", "Messages arrive once, unchanged and in order",
     "A service function is called once per call and sees exactly the caller's request messages, and the caller sees exactly the service's response messages, each once, unchanged and in order, however the transport splits or joins the bytes. A unary call or a call with a single response succeeds only with exactly one response.",
     ["inputs", "schedules", "configurations"], "all message sequences and chunkings, all protocols and RPC kinds, compressed or not, async and sync",
     "Tests run over transports that deliver whole envelopes; other chunkings of the same bytes are not exercised.",
     ENV + SRV + CLI, [("envelope reading", "EnvelopeReader.feed, _read_messages"), ("single message", "_consume_single_request, _consume_single_response")], ["service function arguments", "values returned to the caller"])

prop("C21", "A service made for an application's lifespan is open exactly while it runs",
     "A service made by an async generator is set up once, before startup is reported complete, serves every request until shutdown, and its cleanup has run once before shutdown is reported. A failure to set up, to make the endpoints or to clean up is reported in the lifespan protocol with its text, nothing escapes, and a service that was set up is cleaned up; requests are never served by a service that was not started, and a given service is served with or without a lifespan.",
     ["inputs", "fault_sequences"], "all ways in which setup, making endpoints and cleanup can go, and all orders of lifespan events and requests",
     "Tests fail one step at a time; that every step reports, cleans up and keeps requests out holds over their combinations.",
     ["src/connectrpc/_server_async.py"], [("lifespan", "ConnectASGIApplication.__call__, _resolve_endpoints")], ["lifespan messages sent, set-up and cleanup of the service, requests served"])

prop("C22", "Calls that share an application or a client do not affect each other",
     "When several calls run on one application or one client, overlapping in any way or one after the other, each goes as it would on its own: the service and the interceptors get its own messages, headers, deadline and method, the transport gets its own request, and its caller gets its own response, metadata and error. This holds whatever protocol, codec, compression, HTTP method or outcome the other calls have.",
     ["schedules", "histories"], "a second call of another protocol, codec, compression, deadline, metadata and outcome at every point where the first can be interrupted, for all RPC kinds and protocols, async and sync",
     "Tests run one call at a time, and state that leaks between calls shows only when two calls overlap at a particular point.",
     [*SRV, *CLI, *PRO, *ENV, *ICPT], [("one application for all calls", "ConnectASGIApplication, ConnectWSGIApplication"), ("one client for all calls", "ConnectClient, ConnectClientSync"), ("metadata of the current call", "ResponseMetadata")], ["what service, interceptors, transport and caller see of each call"])

prop("C23", "A stream that ends early releases everything held for it",
     "However a streaming request on an ASGI server ends (a failing service, encoder or send, a cancellation, a disconnected client), the service's stream has been cleaned up once and no background task of it runs when the application is done; the response never waits for the client to leave, and once a disconnect is known no further message is produced and sent. However a streaming call of a client ends (a bad, failing or surplus response, a timeout, a cancellation, a caller that closes the stream), its HTTP response is released exactly once by the time the call or the closing is over.",
     ["fault_sequences", "schedules"], "all ends of a stream at every message and await, with and without interceptors, for all protocols",
     "Leaked streams are cleaned up by garbage collection at some later time, which a test does not notice.",
     ["src/connectrpc/_server_async.py", "src/connectrpc/_interceptor_async.py", *CLI], [("server streams", "ConnectASGIApplication._handle_stream"), ("client streams", "_send_request_bidi_stream, _consume_single_response")], ["cleanup of the service's generator", "tasks left over", "use and release of the HTTP response"])

prop("C24", "A failed WSGI call leaves nothing of an HTTP/1 request body unread",
     "When a call on a WSGI application ends with an error over HTTP/1, whatever the error and whenever it happens, the request body has been read to its end by the time the response is complete, so that the rest of it is not taken for the next request on the connection. Over HTTP/2, where the client may keep its side of the call open, a failure is answered without reading on.",
     ["fault_sequences", "inputs"], "failures of routing, headers, decoding, interceptors, the service at any message and encoding, with the body in pieces, all RPC kinds and protocols",
     "The test client and most servers drain the body themselves, so that a forgotten path shows only as a broken later request behind gunicorn.",
     ["src/connectrpc/_server_sync.py"], [("errors", "ConnectWSGIApplication.__call__, _handle_stream, _response_stream"), ("draining", "_drain_request_body")], ["reads of the request body", "status and end of the response"])

prop("C25", "A request reaches the service function of its path, others get 404",
     "A request for a registered path, directly or below the prefix the application is mounted at, is handled by that path's service function exactly once. A request for any other path is answered with 404 and reaches no service function, whichever optional request variables the HTTP server leaves out.",
     ["inputs", "configurations"], "all paths and mount prefixes, present, empty or absent, all RPC kinds and protocols, async and sync",
     "Tests use one mount prefix and one unknown path with a test client that always sets every variable.",
     SRV, [("path lookup", "ConnectASGIApplication.__call__, ConnectWSGIApplication.__call__")], ["service calls", "status"])

prop("C26", "Envelopes on the wire follow the protocol",
     "Streaming request and response bodies are sequences of whole envelopes: one flag byte with only the bits the protocol defines, the payload's length as four big-endian bytes, and the encoded message as it is; unary Connect bodies are the bare message.",
     ["inputs", "configurations"], "all messages, protocols and RPC kinds, both directions, async and sync",
     "Tests pair this client with this server, so a framing mistake made on both sides is invisible to them.",
     ENV + PRO, [("envelope writing", "EnvelopeWriter.write, end")], ["request and response bytes"])

prop("C27", "Telemetry records every call once and never makes one fail",
     "With the OpenTelemetry interceptor every call has exactly one span, current while the call runs, ended once with the call's error if any, and one recorded duration, both with the method, the server's address and port and the error's code; the server's span continues the trace context that a client sends, which is that of the client's own span. A call succeeds or fails as it would without telemetry, whatever addresses and headers it carries, and automatic instrumentation adds the interceptor once, outermost, and keeps the application's own.",
     ["inputs", "fault_sequences"], "all calls, outcomes, RPC kinds and protocols, addresses and host headers of any form, on both clients and servers",
     "Tests share one process between client and server, so that trace context arrives even if it is not sent, and use a plain host name.",
     ["connectrpc-otel/connectrpc_otel/_interceptor.py", "connectrpc-otel/connectrpc_otel/_instrumentor.py", "src/connectrpc/_protocol.py"],
     [("spans and durations", "OpenTelemetryInterceptor.on_start_sync, on_end_sync, _start_span"), ("instrumentation", "ConnectInstrumentor"), ("addresses", "host_to_server_address, url_to_server_address")],
     ["spans, recorded durations, request headers, outcome of the call"])

prop("C28", "Generated code and library agree on every method of a service",
     "For every service, the generated application serves each method at its path with the service function of its name, declared kind, messages and idempotency level, and answers unimplemented where the service does not provide the function; the generated client's method of that name makes a call to that path, accepts GET exactly for unary methods without side effects, and returns the response's message. Options, headers and timeouts given to generated classes and methods take effect, and no method of a service breaks the client class it is generated into.",
     ["inputs", "configurations"], "all services: kinds and idempotency levels of methods, their names, nested and imported messages, both protobuf implementations, async and sync",
     "Tests use the generated code of one service with plain names, generated before and checked in.",
     ["protoc-gen-connectrpc/protoc_gen_connectrpc/__init__.py", *SRV, *CLI], [("generator", "_generate_async_stubs, _generate_sync_stubs")], ["the generated module's classes as used with the library"])

prop("C29", "A request that cannot be read is the caller's fault",
     "When a message of a request cannot be decompressed or decoded, the call fails with invalid_argument (status 400 for a plain body), and nothing is raised to the server or logged as a failure of it. The service function does not run with that message, and does not see a normal end of a request stream that contains it.",
     ["inputs", "fault_sequences"], "all messages of a request, decompression and decoding failing with any exception, for every RPC kind and protocol, on both servers",
     "Codecs and compressions are pluggable and fail in unbounded ways; tests send requests that the library's own client encoded.",
     SRV + ENV, [("plain bodies", "_read_get_request, _read_post_request"), ("streams", "_request_stream, read_request_messages")], ["error code on the wire, exception raised to the server"])

prop("C30", "Stream messages are passed on as they come",
     "On both servers, a message that the service yields has been sent before the service is asked for the next one, each request message that has arrived completely reaches the service before more of the request is awaited, and the response never waits for a part of the request that the service has not asked for. A client takes the caller's messages one at a time, as the transport asks for them, and hands each over completely before it takes the next. Every response message that has arrived completely reaches the caller before more of the response is awaited.",
     ["inputs", "schedules"], "all streams, all ways of cutting them into pieces and of interleaving the two directions, for every kind of stream and protocol, on both servers and both clients",
     "Tests compare the messages of finished calls; whether one is held back shows only in the order of events inside a call, and only for some ways of cutting the bytes.",
     SRV + CLI + ENV, [("passing on", "_handle_stream, _response_stream, _request_stream, _send_request_bidi_stream, _streaming_request_content, EnvelopeReader._read_messages")], ["order of reads, writes and requests for messages"])

prop("C31", "A GET request means what its query says",
     "For a unary method without side effects, a GET request runs the service function with exactly the message its query carries, be it percent-encoded text or bytes or URL-safe base64 with or without padding, decompressed and decoded (and answered) with the compression and codec the query names. A query without a message or with malformed base64 is answered with invalid_argument, one with an unknown compression with unimplemented, and one with an unknown codec is refused, and the service function does not run. A client told to use GET sends one request without a body whose query carries exactly the message of the call and names the protocol version, codec and compression it used.",
     ["inputs"], "all messages (any bytes), all ways of writing them into a query, in any order of parameters, on both servers; all messages, with and without compression, on both clients",
     "The library's own client writes only one of the forms a query may take, so tests that connect it to the server never see the others, and binary data goes wrong only for some bytes.",
     SRV + CLI, [("reading queries", "_read_get_request, _handle_get_request"), ("writing queries", "prepare_get_params")], ["message and calls of the service function, error code on the wire, requests of the client"])

prop("C32", "The context of a call describes that call",
     "On both servers and both clients, interceptors and service functions see a context that names the method being called, the HTTP method the request actually uses, and addresses written as host:port. On servers the server address is the request's Host with the default port of the scheme added when it has none, and the client address is the one the HTTP server gives; each is None when it is not known. On clients the server address is host and port of the configured URL, without credentials and path and with the scheme's default port when it has none, and the client address is None.",
     ["inputs"], "all hosts (names, IPv4, bracketed IPv6) with and without port, schemes, peers, RPC kinds, protocols and GET, on both servers and both clients",
     "Tests read the context of a few calls to localhost; hosts without a port, IPv6 addresses, unknown peers and protocols that do not use GET are seldom among them, while logging, metrics and authorization rely on it.",
     SRV + CLI + PRO, [("servers", "create_request_context, host_to_server_address"), ("clients", "create_request_context, url_to_server_address")], ["attributes of the request context, HTTP method of the request sent"])
prop("C33", "A call is sent once, with the headers its protocol and interceptors give it",
     "A call that is not already past its deadline becomes exactly one HTTP request, also when the server or the network refuses it in a way that invites a second try. The request carries what the interceptors left in the headers of the context, the headers of the caller as given, the caller's user agent or else the library's, and the lines of the protocol (content type, encoding, accepted encodings, protocol version or TE, timeout) exactly once each with the protocol's values, whatever the caller gave under those names. No line claims an encoding that the request does not have.",
     ["inputs", "fault_sequences"], "all RPC kinds and protocols, GET, with and without compression and timeout, arbitrary header values of callers and interceptors, reserved names in any case given by the caller, and every kind of refusal, on both clients",
     "Tests make successful calls and look at a header or two; what happens to a refused call, or to a caller's header that collides with one of the protocol, is seldom looked at, and a call that is sent twice can do its work twice.",
     CLI + PRO, [("clients", "execute_*, _send_request_*"), ("protocols", "create_request_context")], ["HTTP requests made by the client: their number and headers"])

prop("C34", "The library's compressions and codecs give back what was put in",
     "Whatever the gzip, Brotli and Zstandard compressions of the library are given, whatever buffer carries it and whatever their level, they decompress what they compressed to the same bytes, and data of their format that others wrote (concatenated gzip members and Zstandard frames, frames that do not say their size) to all that it holds. Data that breaks off, is followed by something else or is not of the format is an error, never a message. The binary and JSON codecs, those for google.protobuf too, write bytes of the format they are named after, read back the message that was written into a new message each time, use the registry they were given both ways, and fail on anything else.",
     ["inputs", "configurations"], "all message contents and levels, all ways the formats allow to write data, data cut or extended at any place; all codecs",
     "Tests compress one short message with each compression; damaged and differently written data need inputs that no test builds.",
     ["src/connectrpc/compression/zstd.py", "src/connectrpc/compression/gzip.py", "src/connectrpc/compression/brotli.py", "src/connectrpc/_codec.py", "src/connectrpc/compat/_codec.py", "src/connectrpc/_compression.py"],
     [("compressing and decompressing", "ZstdCompression, GzipCompression, BrotliCompression, IdentityCompression"), ("encoding and decoding", "ProtoBinaryCodec, ProtoJSONCodec")], ["returned bytes and messages, raised exceptions"])

prop("C35", "A ResponseMetadata block holds the metadata of the calls made in it",
     "The response headers and trailers of a call go to the innermost ResponseMetadata block that is open in the caller's own context, and to no other: not to an enclosing block, one that has ended, or one of another task or thread. When a block ends, normally or by an error, the enclosing one is the innermost again, and what the ended one holds stays as it is. A block holds the metadata of the latest call made in it, with nothing left of earlier ones, and calls outside any block go as they would in one.",
     ["inputs", "schedules", "histories"], "all sequences of calls and blocks up to three calls, nested or overlapping with another task or thread, all protocols and RPC kinds, both clients",
     "Tests make one call in one block; what nesting, further calls and other tasks do depends on histories that no test has.",
     ["src/connectrpc/_response_metadata.py"] + CLI + PRO, [("the current block", "ResponseMetadata.__enter__, ResponseMetadata.__exit__"), ("recording", "handle_response_headers, handle_response_trailers")], ["headers and trailers of the blocks"])

prop("C36", "Options left out or left empty mean what their documentation says",
     "A client whose options are not given sends the binary protobuf codec over the Connect protocol, compresses requests with gzip, accepts gzip, and sets no timeout and no limit on what it reads; told to send with no compression it sends none, told to accept none it accepts none, and what it is given instead is what it uses. An application whose options are not given serves the binary and JSON codecs, uncompressed and gzip requests of any size, and compresses responses for callers that accept gzip; with an empty list of compressions it serves only uncompressed requests and never compresses, and with codecs or compressions of its own exactly those. Lists of options may be given as any iterable.",
     ["configurations", "inputs"], "all combinations of unset, empty and given compressions, codecs and protocol on clients and applications, given as list, tuple or iterator; requests of every combination of codec, encoding and accepted encoding, all protocols and RPC kinds",
     "Tests use few combinations; that unset, none and empty differ shows only in the product of options, requests and kinds.",
     CLI + SRV + PRO + ["src/connectrpc/_compression.py", "src/connectrpc/_codec.py"], [("resolving options", "ConnectClient.__init__, ConnectClientSync.__init__, ConnectASGIApplication.__init__, ConnectWSGIApplication.__init__, resolve_compressions")], ["requests sent, responses, whether the service runs"])
prop("C37", "Both server applications give the same answer to the same request",
     "The same request to an ASGI and a WSGI application with the same service, codecs and compressions is answered with the same status, the same headers and trailers, and the same messages, and the service sees the same messages, deadline and method in both. Of a refusal only the status, code and headers count: its text, and the other content types it advises (Accept-Post), may differ, and a request wrong in several ways may be refused for any of them.",
     ["inputs", "configurations"], "requests that differ from an ordinary one in up to two aspects: HTTP method, content type, encoding, accepted encoding, timeout, version, body, what the service does, idempotency level, path, GET query; all protocols and RPC kinds",
     "The two servers are separate code, tested with separate requests; that they agree on every request shows only by comparing them.",
     SRV + PRO + ENV, [("the two servers", "ConnectASGIApplication.__call__, ConnectWSGIApplication.__call__")], ["status, headers, trailers, body, what the service sees"])
