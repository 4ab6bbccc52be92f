"""The properties decided here: which drivers each one runs."""

from sa.run import Task


class Spec:
    def __init__(self, tasks, explanation, rules, extra=(), level="other"):
        self._tasks = tasks
        self.explanation = explanation
        self.rules = rules
        self.extra = list(extra)
        self.level = level

    def tasks(self, tier):
        return self._tasks(tier)


SPECS = {}
KINDS = ("unary", "client", "server", "bidi")
STREAMS = ("client", "server", "bidi")
PROTOS = ("connect", "grpc", "grpc-web")


def combos(unary_over_connect=False):
    for p in PROTOS:
        for k in KINDS:
            if k == "unary" and p == "connect":
                continue
            yield k, p


def c01(tier):
    D = "a message is decoded"
    ts = [Task("d_c01", "asgi_post", must=[D]), Task("d_c01", "asgi_get", must=[D]), Task("d_c01", "wsgi_post", True, must=[D]),
          Task("d_c01", "wsgi_post", False, must=[D]), Task("d_c01", "wsgi_get", must=[D])]
    for get in (False, True):
        ts += [Task("d_c01", "client_unary", get, must=[D]), Task("d_c01", "client_unary_s", get, must=[D])]
    for k, p in combos():
        for f in ("asgi_stream", "wsgi_stream", "client_stream", "client_stream_s"):
            ts.append(Task("d_c01", f, k, p, must=[D]))
    return ts


SPECS["C01"] = Spec(c01, "Every path of both servers and both clients from the network to codec.decode is explored with symbolic message bytes, "
                    "sizes, chunk boundaries and limit; at each decode the size of the decoded bytes must be provably at most the limit.", ["C01.over-limit"])


def srv(fn, *variants, must=(), must_stream=(), unary=True):
    """The server drivers of one transport over every kind and protocol; a variant is (req, accept, enc_fail, meta...)."""
    def f(tier):
        ts = []
        for v in variants:
            for k in KINDS:
                for p in PROTOS:
                    pp = "unary" if (k, p) == ("unary", "connect") else p
                    if pp == "unary" and not unary:
                        continue
                    ts.append(Task("d_srv", fn, k, pp, *v, must=list(must) + (list(must_stream) if pp != "unary" else [])))
        return ts
    return f


ANY, CANCEL, ONE = ("any", ""), ("cancel", ""), ("one", "", True, "status")


C02 = srv("asgi", ONE, CANCEL, must=["returned ok"])
SPECS["C02"] = Spec(C02, "The ASGI application is explored on symbolic requests (any chunking, disconnect or cancellation at any receive, cancellation at a send) "
                    "with a service function that succeeds, fails, is cancelled or returns a message that does not encode, after any number of messages; every "
                    "send() is checked against the ASGI event automaton.",
                    ["C02.start-twice", "C02.body", "C02.trailers", "C02.incomplete", "C02.headers", "C02.status", "C02.event"])
C03 = srv("wsgi", ONE, ANY, must=["returned ok"])
SPECS["C03"] = Spec(C03, "The WSGI application is explored on symbolic requests with a service function that ends in every way; start_response, the body "
                    "iterable and the trailers callback are checked against the WSGI automaton.",
                    ["C03.start-twice", "C03.body-first", "C03.no-start", "C03.chunk", "C03.trailers-twice", "C03.raises"])
ENDS = ["message frame", "stream end False", "stream end True"]
C04a = srv("asgi", ONE, CANCEL, must_stream=ENDS, unary=False)
C04b = srv("wsgi", ONE, ANY, must_stream=ENDS, unary=False)
SPECS["C04"] = Spec(lambda tier: C04a(tier) + C04b(tier),
                    "The bytes and trailers each server sends are parsed back symbolically: envelopes must carry the service's messages in order, the end "
                    "marker must come once and last, and its verdict is compared with what the service function did.",
                    ["C04.success-end", "C04.error-end", "C04.lost", "C04.order", "C04.payload", "C04.no-end", "C04.twice", "C04.after-end", "C04.status"])


def loop(*variants, must=(), get=()):
    """The client-to-server drivers over every kind and protocol; a variant is (send, accept, outcome, headers, how)."""
    def f(tier):
        ts = []
        for fn in ("loop", "loop_s"):
            for v in variants:
                for k in KINDS:
                    for p in PROTOS:
                        ts.append(Task("d_loop", fn, k, p, *v, must=list(must)))
            for v in get:
                ts.append(Task("d_loop", fn, "unary", "connect", *v, "whole", True, must=list(must)))
        return ts
    return f


def route(fn, variants=((),), must=()):
    """The request routing drivers on both servers."""
    def f(tier):
        ts = []
        for g in (fn, fn + "_s"):
            for k in KINDS:
                for v in variants:
                    m = [x for x in must if not (v and v[0] is None and x == "allowed POST")]
                    if v and v[0] == "connect" and k == "unary":
                        v = ("unary", *v[1:])
                    ts.append(Task("d_route", g, k, *v, must=m))
        return ts
    return f


def client(fn, must=(), unary=(), kinds=KINDS):
    """The clients against an arbitrary server, async and sync; unary: further arguments for unary calls over Connect."""
    def f(tier):
        ts = []
        for g in (fn, fn + "_s"):
            for p in PROTOS:
                for k in kinds:
                    if (k, p) != ("unary", "connect"):
                        ts.append(Task("d_cli", g, k, p, must=list(must)))
            for a in unary:
                ts.append(Task("d_cli", g, "unary", "unary", *a, must=list(must)))
        return ts
    return f


def both(*fs):
    return lambda tier: [t for f in fs for t in f(tier)]


GZ, PLAIN = ("gzip", ("gzip",)), (None, ("gzip",))
BR, OTHER = ("br", ()), ("other", ("other", "br"))
CODES = ("canceled", "unknown", "invalid_argument", "deadline_exceeded", "not_found", "already_exists", "permission_denied",
         "resource_exhausted", "failed_precondition", "aborted", "out_of_range", "unimplemented", "internal", "unavailable",
         "data_loss", "unauthenticated")
LOOP = "Client and server are connected through a model of the HTTP transport and explored together with symbolic messages, texts and header values; "
BROKEN = "Both clients are explored against a server that sends anything: any messages, every kind of end marker (right, erroneous, malformed, missing, compressed, followed by more), bodies that stop inside an envelope, "
SPECS["C06"] = Spec(client("stream", must=["complete"]), BROKEN + "and transport failures at every place; whatever looks complete to the caller must be complete, and messages must be those of the stream in order.",
                    ["C06.extra", "C06.order", "C06.failure-hidden", "C06.partial", "C06.no-end", "C06.error-hidden", "C06.after-end", "C06.lost", "C06.single", "C06.refused"])
DECL = client("declared", must=["accepted", "refused content type", "refused encoding", "HTTP error"], unary=[(False,), (True,)])
SPECS["C07"] = Spec(both(client("stream", must=["complete"]), DECL), BROKEN + "transport failures of every kind, HTTP errors of every mapped status with readable and unreadable bodies; "
                    "the type of the caller's exception and its code are compared with the protocol's tables.",
                    ["C07.type", "C07.code", "C07.status"])
SPECS["C09"] = Spec(both(loop((*GZ, "codes"), must=[f"error compared {x}" for x in CODES]), loop((*PLAIN, "other"), must=["response bytes checked", "error subclass compared"], get=[(*PLAIN, "other", None)]), DECL),
                    LOOP + "the service raises each of the sixteen codes or an unexpected exception, and the code is compared at the caller and, independently, on the wire.",
                    ["C09.code", "C09.swallowed", "C09.http", "C09.wire"])
SPECS["C10"] = Spec(both(loop((*GZ, "details"), (*PLAIN, "details"), must=["error compared aborted"], get=[(*PLAIN, "details", None)]),
                         lambda tier: [Task("d_msg", f, p, must=["compared"]) for f in ("client", "client_s") for p in ("connect", "grpc", "grpc-web")]
                         + [Task("d_msg", f, p, must=["written"]) for f in ("server", "server_s") for p in ("grpc", "grpc-web")]),
                    LOOP + "the service raises an error with an arbitrary or empty message and zero to two arbitrary details, compared at the caller.",
                    ["C10.message", "C10.details"])
SPECS["C11"] = Spec(both(loop((*GZ, "ok", None), (*PLAIN, "ok", None), (*BR, "ok", None), ("gzip", ("br", "gzip"), "ok", None), must=["success compared 1", "request bytes checked"]),
                         loop((*OTHER, "ok", None), must=["unknown compression compared"]),
                         lambda tier: [Task("d_srv", "asgi", k, p, "one", a) for a in ("gzip", "") for k, p in combos()], DECL),
                    LOOP + "every envelope and body is checked against the encoding headers next to it, and decompression against what was compressed, for "
                    "equal, different, absent and unknown encodings per direction.",
                    ["C11.encoding-header", "C11.accept-header", "C11.flag", "C11.mismatch", "C11.not-accepted", "C11.unknown", "C11.unknown-seen", "C11.unknown-response"])
SPECS["C12"] = Spec(both(loop((*GZ, "ok", "reserved"), (*PLAIN, "details", None), must=["response bytes checked"], get=[(*PLAIN, "ok", None)]),
                         route("content_type", must=["any content type", "unsupported type", "supported type json", "supported type proto"]), DECL),
                    LOOP + "the codec a message is decoded with is compared with the one it was encoded with, and content types with what is sent. "
                    "Both servers are also given supported, unsupported and arbitrary content types on requests of every RPC kind.",
                    ["C12.codec", "C12.request-type", "C12.response-type", "C12.accepted", "C12.status", "C12.refused", "C12.mismatch"])
SPECS["C13"] = Spec(route("http_method", [(p, l) for p in (None, *PROTOS) for l in ("safe", "idempotent", "unknown")], must=["allowed POST", "not allowed"]),
                    "Both servers are explored on every HTTP method (including an arbitrary one), RPC kind, protocol and idempotency level; which requests reach "
                    "the service function, and status and allow header of the others, are compared with the protocol's rules.",
                    ["C13.refused", "C13.reached", "C13.status", "C13.allow"])
SPECS["C17"] = Spec(loop((*GZ, "ok"), (*PLAIN, "details"), must=["metadata compared"], get=[(*PLAIN, "ok")]),
                    LOOP + "the service sets repeated headers and trailers with arbitrary values, compared in the caller's ResponseMetadata.",
                    ["C17.headers", "C17.trailers", "C17.mixed"])
SPECS["C18"] = Spec(both(loop((*GZ, "ok"), (*BR, "ok", "mapping"), (*GZ, "ok", "reserved"), (*PLAIN, "ok", "reserved"), must=["request headers compared"], get=[(*PLAIN, "ok"), (*GZ, "ok", "mapping")]),
                         lambda tier: [Task("d_rawh", f, k, p, must=["seen"]) for f in ("server", "server_s") for k in KINDS for p in (["unary", "grpc", "grpc-web"] if k == "unary" else PROTOS)]),
                    LOOP + "the caller passes repeated headers, a mapping, or headers clashing with the protocol's own; compared on the wire and in the service's request context; another driver hands over headers with bytes that are no text.",
                    ["C18.lost", "C18.mutated", "C18.repeated", "C18.protocol", "C18.url", "C18.refused"])
SPECS["C20"] = Spec(loop((*GZ, "ok", None), (*GZ, "ok", None, "split"), (*PLAIN, "ok", None, "joined"), must=["success compared 1"], get=[(*GZ, "ok", None), (*PLAIN, "ok", None)]),
                    LOOP + "the identity, order and number of messages is compared on both sides while the transport delivers the bytes whole, joined, or split at arbitrary places.",
                    ["C20.bytes", "C20.request", "C20.response", "C20.calls", "C20.failed"])
SPECS["C26"] = Spec(both(loop((*GZ, "ok", None), (*PLAIN, "details", None), must=["request bytes checked"]), srv("asgi", ONE), srv("wsgi", ONE)),
                    LOOP + "and every body in both directions is parsed by an independent reader of the protocol's envelope format.",
                    ["C26.framing", "C26.flags", "C26.payload"])
SPECS["C25"] = Spec(route("path", [(p,) for p in PROTOS], must=["not found", "routed this", "routed other"]),
                    "Both servers are explored on registered, mounted, unknown and arbitrary paths with every form of the mount prefix (set, empty, absent), every RPC "
                    "kind and protocol; which service function runs and the status of the answer are compared with the routing table.",
                    ["C25.called", "C25.status", "C25.unrouted", "C25.wrong", "C25.twice"])


def c05(tier):
    ts = [Task("d_req", "request_s", "unary", "unary", True, must=["ended"])]
    for k in KINDS:
        for p in PROTOS:
            ts += [Task("d_req", f, k, "unary" if (k, p) == ("unary", "connect") else p, must=["ended"]) for f in ("request", "request_s")]
    return ts


SPECS["C05"] = Spec(c05, "Both servers are explored on requests of zero to two messages that arrive in full or break off: the client goes away, the server cancels, "
                    "reading fails, fewer bytes than declared arrive, or the body ends inside an envelope, at every point. What the service function sees is compared with what was sent.",
                    ["C05.extra", "C05.complete", "C05.early", "C05.lost", "C05.single", "C05.calls", "C05.refused"])


def c08(tier):
    ts = []
    for get in (False, True):
        ts += [Task("d_dead", f, "unary", "unary", get, must=[m]) for f, m in (("client", "deadline"), ("client_s", "deadline"), ("advertised", "declared"), ("advertised_s", "declared"))]
    for k, p in combos():
        ts += [Task("d_dead", f, k, p, must=["in time", "deadline"]) for f in ("client", "client_s")]
        ts += [Task("d_dead", f, k, p, must=["declared"]) for f in ("advertised", "advertised_s")]
    for k in KINDS:
        for p in PROTOS:
            ts += [Task("d_dead", f, k, "unary" if (k, p) == ("unary", "connect") else p, must=["seen", "rejected"]) for f in ("server", "server_s")]
    return ts


SPECS["C08"] = Spec(c08, "Both clients are explored with a clock of the environment's making: the timeout given per call or per client, absent or zero, time passing in interceptors, while the "
                    "caller handles messages and at every wait for the HTTP client; every wait must be bounded by the remaining time. The timeout header is compared, for an arbitrary "
                    "timeout, with the protocols' grammars; both servers are explored on a table of well-formed and malformed headers.",
                    ["C08.enforced", "C08.later", "C08.sooner", "C08.spurious", "C08.caller", "C08.code", "C08.ignored", "C08.type", "C08.early", "C08.failed", "C08.header", "C08.digits",
                     "C08.value", "C08.accepted", "C08.seen", "C08.remaining", "C08.escaped", "C08.answer", "C08.refused"])


def icpt(tier):
    ts = []
    for f in ("server", "server_s", "client", "client_s"):
        for k in KINDS:
            for p in PROTOS:
                ts.append(Task("d_icpt", f, k, "unary" if (k, p) == ("unary", "connect") else p, must=["ok", "connect", "other"] + (["left early"] if k in ("server", "bidi") and f != "server_s" else [])))
            ts += [Task("d_icpt", f, k, "unary" if k == "unary" else "connect", c) for c in ("short", "start")]
    return ts


ICPT = ("Both servers (two methods, two requests in a row) and both clients are explored with a list, tuple or one-shot iterator of interceptors - two of the call's kind, one of "
        "another kind, two for metadata - that replace every message, while the service or network succeeds or fails at every point, the consumer leaves the stream, an interceptor answers itself or one fails to start. ")
SPECS["C14"] = Spec(icpt, ICPT + "The order of entering and leaving, and the path each message took, are compared with the list.", ["C14.order", "C14.nesting", "C14.request", "C14.response"])
SPECS["C15"] = Spec(icpt, ICPT + "on_end is compared with on_start and with the outcome of the call.", ["C15.pairs", "C15.token", "C15.error", "C15.open"])


def fault(kinds_of_fault, must):
    def f(tier):
        ts = []
        for fn in ("asgi", "wsgi"):
            for x in kinds_of_fault:
                for k in KINDS:
                    for p in PROTOS:
                        ts.append(Task("d_fault", fn, k, "unary" if (k, p) == ("unary", "connect") else p, x, must=[must(x)]))
                ts.append(Task("d_fault", fn, "unary", "get", x, must=[must(x)]))
        return ts
    return f


SPECS["C16"] = Spec(fault(("", "connect", "other", "encode", "compress"), lambda x: {"": "fine", "connect": "expected"}.get(x, "unexpected")),
                    "Both servers are explored with a service function that succeeds, raises an error meant for the caller or any other exception after any number of messages, or whose "
                    "message cannot be encoded or compressed; what the ASGI application raises and what the WSGI application logs is compared with what failed.",
                    ["C16.reached", "C16.noise", "C16.silent", "C16.other", "C16.text", "C16.before", "C16.escaped"])
SPECS["C29"] = Spec(fault(("decode", "decompress"), lambda x: "unreadable"),
                    "Both servers are explored on requests of one or two compressed messages any of which fails to decompress or decode with any class of exception; the code on the wire, "
                    "what the service function saw and what reached the operator are checked.",
                    ["C29.called", "C29.end", "C29.noise", "C29.status", "C29.code"])


SPECS["C19"] = Spec(lambda tier: [Task("d_hdrs", "driver", w, must=["operation"]) for w in ("container", "copies", "views")] +
                    [Task("d_hdrs", "driver", "history", i, must=["operation"]) for i in range(10)],
                    "The headers container is explored from eleven histories (mappings, sequences, additions, replacements, deletions) through every pair of further operations, "
                    "with values that are arbitrary text; after each, everything the container can be asked is compared with a list of values per name.",
                    ["C19." + x for x in ("len", "names", "items", "values", "allitems", "allitems-len", "allitems-in", "allitems-eq", "bool", "contains", "getall", "get", "getitem",
                                          "popitem", "del", "pop", "setdefault", "raises")])


def c27(tier):
    ts = []
    for f in ("server", "server_s", "client", "client_s"):
        for k in KINDS:
            for p in PROTOS:
                ts.append(Task("d_otel", f, k, "unary" if (k, p) == ("unary", "connect") else p, must=["ok", "connect", "other"]))
        for p in ("unary", "grpc"):
            ts.append(Task("d_otel", f, "unary", p, "host", must=["ok"]))
        if f.startswith("server"):
            ts.append(Task("d_otel", f, "unary", "unary", "peer", must=["ok"]))
    for t in ("ConnectClient", "ConnectClientSync", "ConnectASGIApplication", "ConnectWSGIApplication"):
        ts.append(Task("d_otel", "instrument", t + ".__init__", must=["instrumented"]))
    return ts


SPECS["C27"] = Spec(c27, "The OpenTelemetry interceptor is explored inside both servers and both clients, with recording stand-ins for tracer, meter and propagator: every kind and protocol, "
                    "a current span or none, calls that succeed, fail or are left in the middle, and host headers, client addresses and URLs with and without ports, "
                    "IPv6 addresses, paths, credentials and arbitrary text. The wrappers that the instrumentor installs are run on every way to give interceptors.",
                    ["C27." + x for x in ("late", "nesting", "metric", "current", "fails", "leak", "spans", "durations", "name", "error", "attributes", "parent", "inject", "wrapped", "init", "once", "outermost", "own")])


SPECS["C21"] = Spec(lambda tier: [Task("d_life", "lifespan", False, must=["fails", "runs", "cancelled"]), Task("d_life", "lifespan", True, must=["fails", "runs", "cancelled"]),
                                  Task("d_life", "unstarted", must=["given", "refused"])],
                    "The ASGI application is explored through its lifespan, with a service that is given or made by an async generator, setting up, resolving endpoints and cleaning up each "
                    "succeeding or failing, requests in between, the server stopping with and without a shutdown event, and without any lifespan; the answers are compared with the lifespan automaton.",
                    ["C21." + x for x in ("service", "unstarted", "intercepted", "answer", "open", "none", "served", "cleanup", "escapes", "message", "twice")])


def c23(tier):
    ts = []
    for p in PROTOS:
        for k in ("server", "bidi"):
            noticed = ["disconnect noticed"] if k == "server" else []
            ts += [Task("d_left", "server", k, p, w, must=["server over", *noticed]) for w in ("", "bad cleanup", "plain")]
            ts.append(Task("d_left", "server", k, p, "", True, must=["server over", *noticed]))
        for k in KINDS:
            if (k, p) != ("unary", "connect"):
                ts += [Task("d_left", "client", k, p, must=["client over"]), Task("d_left", "client", k, p, True, must=["client over"]), Task("d_left", "client_s", k, p, must=["client over"])]
    return ts


SPECS["C23"] = Spec(c23, "The ASGI server is explored streaming from a generator, one whose cleanup fails, and an iterator that is none, with and without an interceptor, while the service fails, "
                    "messages do not encode, sending fails, the client disconnects or the request is cancelled at any point. Both clients are explored on responses that end in fourteen ways, "
                    "and on callers that leave; what was opened must be released when the call is over.",
                    ["C23." + x for x in ("used", "cleanup", "disconnect", "waits", "task", "response", "once")])


def c28(tier):
    ts = []
    for f, must, variants in (("asgi", ["served", "limit"], [("py", None), ("google", "async")]), ("wsgi", ["served", "limit"], [("google", None), ("py", "sync")]),
                              ("client", ["called"], [("google", None), ("py", "async")]), ("client_s", ["called"], [("py", None), ("google", "sync")]),
                              ("partial", ["unimplemented"], [("py", "async"), ("google", None)]), ("partial_s", ["unimplemented"], [("google", "sync"), ("py", None)])):
        for v in variants:
            ts.append(Task("d_gen", f, *v, must=must))
    return ts


SPECS["C28"] = Spec(c28, "The code generator is evaluated on a file with two services, RPCs of every kind and idempotency level, names that need escaping, and messages that are nested or of other "
                    "files; what it prints is compiled and explored together with the library as an application and as a client, for every method, on both protobuf implementations.",
                    ["C28." + x for x in ("loads", "function", "options", "call", "info", "level", "request", "response", "path", "unimplemented", "client", "get", "url", "arguments", "sent", "result")])


def c22(tier):
    both = ["between", "one after the other", "served"]
    ts = []
    for k in ("bidi", "client", "server", "unary"):
        for p in ("unary" if k == "unary" else "connect", "grpc", "grpc-web"):
            ts += [Task("d_iso", f, k, p, must=both) for f in ("server", "client", "server_s", "client_s")]
            if k in ("server", "bidi"):
                ts.append(Task("d_iso", "gone", k, p, must=["between", "served"]))
    return ts


SPECS["C22"] = Spec(c22, "An application and a client are each explored with two calls that differ in protocol, codec, compression, deadline, metadata and outcome: the second runs to its end at any "
                    "point where the first one waits, reads, sends or is in the hands of the service or the transport, or after it. What the service, the interceptors, the transport and the caller "
                    "see of each call is compared with what they see of it alone on a fresh application or client. On the ASGI server, the client of either call may also disconnect.",
                    ["C22." + x for x in ("mixed", "service", "caller")])


SPECS["C24"] = Spec(lambda tier: [Task("d_drain", "run", k, "unary" if (k, p) == ("unary", "connect") else p, must=["fails over HTTP/1", "fails over HTTP/2", "rest read", "succeeds"]) for k in KINDS for p in PROTOS],
                    "The WSGI application is explored on requests whose body comes in several pieces, with and without a declared length, over HTTP/1.0, 1.1 and 2, while fifteen things go wrong before, "
                    "while or after the body is read; what has been read of the body when the answer is complete is compared with what there is.",
                    ["C24." + x for x in ("raises", "unread", "waits")])


SPECS["C30"] = Spec(lambda tier: [Task("d_flow", f, k, p, i, must=["over", "passed on"] if k != "client" or "client" in f else ["over", "awaited"])
                                  for f in ("server", "server_s", "client", "client_s") for k in STREAMS for p in PROTOS for i in (False, True)
                                  if not (f.startswith("client") and k == "server")] +
                    [Task("d_flow", f, "server", p, i, must=["over", "awaited"]) for f in ("client", "client_s") for p in PROTOS for i in (False, True)],
                    "Both servers and both clients are explored with streams of one to three messages per direction, cut into pieces in eleven ways, with and without an interceptor. Whenever the next message is asked "
                    "for, the one before must have been passed on; whenever more of a stream is awaited, everything that arrived must have been delivered, and somebody must be asking for a message.",
                    ["C30." + x for x in ("held", "late", "blocks", "ahead")])
SPECS["C33"] = Spec(lambda tier: [Task("d_wire", f, k, p, m, must=["sent"]) for f in ("client", "client_s") for m in ("headers", "once") for k in KINDS for p in PROTOS],
                    "every call is followed from the caller, through an interceptor that changes the headers, to the HTTP requests that are made of it, and what they carry is compared with what the protocol, the interceptor and the caller asked for",
                    ["C33." + x for x in ("once", "interceptor", "own", "agent", "protocol")])
SPECS["C32"] = Spec(lambda tier: [Task("d_ctx", f, k, p, must=["an interceptor", "the service function", "an interceptor at the end"])
                                  for f in ("server", "server_s") for k in KINDS for p in ([("unary"), "get", "grpc", "grpc-web"] if k == "unary" else PROTOS)]
                    + [Task("d_ctx", f, k, p, must=["an interceptor", "an interceptor at the end"]) for f in ("client", "client_s") for k in KINDS for p in PROTOS],
                    "the context object is followed from the request (or the client's URL) to every interceptor and service function, and what it says is compared with the request",
                    ["C32." + x for x in ("method", "http_method", "server", "client", "called")])
SPECS["C31"] = Spec(lambda tier: [Task("d_get", f, w, must=["refused" if w == "refused" else "ok"]) for f in ("server", "server_s") for w in ("fine", "refused", "symbolic")]
                    + [Task("d_get", f, p, must=["sent"]) for f in ("client", "client_s") for p in (False, True)],
                    "every GET query is followed through parsing, base64, decompression and decoding to the call of the service function or the refusal; the query a client builds is taken apart the same way",
                    ["C31." + x for x in ("ran", "message", "answer", "served", "refused", "sent")])

SPECS["C34"] = Spec(lambda tier: [Task("d_comp", "there_and_back", f, must=["there and back"]) for f in ("gzip", "br", "zstd")] + [Task("d_comp", "identity", must=["there and back"])]
                    + [Task("d_comp", "others", f, must=["read", "refused"]) for f in ("gzip", "br", "zstd")]
                    + [Task("d_comp", "codecs", f, must=["codec proto", "codec json"]) for f in ("own", "google")],
                    "The compressions and codecs are evaluated against models of gzip, zlib, brotli, zstandard and the two protobuf runtimes that say what these promise (what an interface does with data that breaks off, "
                    "goes on after its end or does not say its size), with symbolic contents; what comes out is compared with what went in.",
                    ["C34." + x for x in ("name", "back", "bytes", "other", "damaged", "codec", "format", "registry")])

SCENES = ["one", "nested", "nested and left by an error", "later", "twice", "thrice", "overlapping"]
SPECS["C35"] = Spec(lambda tier: [Task("d_meta", f, k, p, must=SCENES) for f in ("blocks", "blocks_s") for k, p in combos()],
                    "Both clients make up to three calls, which end well or badly and whose responses are numbered (one has no metadata), inside, between and outside nested blocks, and while another task or thread, "
                    "whose context variables are kept apart, has a block of its own open; what each block holds is compared with the numbers of the calls it is due.",
                    ["C35." + x for x in ("own", "others", "back", "latest", "call")])

SPECS["C36"] = Spec(lambda tier: [Task("d_opts", f, k, p, must=["called"]) for f in ("client", "client_s") for k, p in combos()]
                    + [Task("d_opts", f, k, p, must=["served", "refused"]) for f in ("server", "server_s") for k, p in combos()],
                    "Clients and applications are made with every combination of options that are left out, empty (None) or given, in three kinds of containers; the clients' requests are compared with the documented meaning, "
                    "and the applications are sent requests in every combination of codec, encoding and accepted encoding, with a message of unknown length.",
                    ["C36." + x for x in ("call", "codec", "accept", "send", "unlimited", "compressions", "codecs", "refused")])
SPECS["C37"] = Spec(lambda tier: [Task("d_same", "same", k, p, must=["compared 200", "compared 404"]) for k, p in [("unary", "connect"), *combos()]],
                    "An ordinary request with up to two special aspects (method, content type, encoding, accepted encoding, timeout, version, body, what the service does, idempotency level, path, query) goes to an ASGI and a WSGI "
                    "application with the same codecs, compressions and service; status, what the services saw, headers, trailers and bodies are compared.",
                    ["C37." + x for x in ("status", "service", "headers", "body")])
