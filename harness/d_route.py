"""Which requests reach which service function, and how the others are answered - on both servers."""

from server import *

HOOKS["json"] = few_json
__paths__(120)
OTHER_PATH = "/pkg.Service/Other"
P = __opaque__("request path", "str")
M = __opaque__("HTTP method", "str")
CT = __opaque__("content type", "str")
X = __opaque__("codec name", "str")


class Seen:
    __identity__ = True

    def __init__(self):
        self.fn = None  # which service function was called
        self.decoded = None  # codec that decoded the request
        self.encoded = None


Z = Seen()


class NameCodec(Codec):
    __identity__ = True

    def decode(self, data, message_class):
        Z.decoded = self._n
        return super().decode(data, message_class)

    def encode(self, message):
        Z.encoded = self._n
        return super().encode(message)


def note(which):
    if Z.fn is not None:
        __violation__("C25.twice", "one request calls service functions twice")
    Z.fn = which


def fns(which):
    async def unary(req, ctx):
        note(which)
        return Res()

    async def client(reqs, ctx):
        note(which)
        async for r in reqs:
            pass
        return Res()

    async def server(req, ctx):
        note(which)
        yield Res()

    async def bidi(reqs, ctx):
        note(which)
        async for r in reqs:
            pass
        yield Res()

    return {"unary": unary, "client": client, "server": server, "bidi": bidi}


def fns_s(which):
    def unary(req, ctx):
        note(which)
        return Res()

    def client(reqs, ctx):
        note(which)
        for r in reqs:
            pass
        return Res()

    def server(req, ctx):
        note(which)
        yield Res()

    def bidi(reqs, ctx):
        note(which)
        for r in reqs:
            pass
        yield Res()

    return {"unary": unary, "client": client, "server": server, "bidi": bidi}


class RouteSend(Send):
    """The ASGI event order."""

    async def __call__(self, msg):
        t = msg["type"]
        if t == "http.response.start" and self.state != "none":
            __violation__("C02.start-twice", "http.response.start is sent twice")
        if t == "http.response.body" and self.state != "started":
            __violation__("C02.body", f"http.response.body is sent in state '{self.state}'")
        if t == "http.response.trailers" and self.state != "body done":
            __violation__("C02.trailers", f"http.response.trailers is sent in state '{self.state}'")
        await super().__call__(msg)


CODECS = ["json", "proto"]


def app_of(sync, kind, level):
    m = method(level)
    if sync:
        return WsgiApp(endpoints={PATH: endpoint_s(kind, fns_s("this")[kind], m), OTHER_PATH: endpoint_s(kind, fns_s("other")[kind], m)},
                       codecs=[NameCodec(x) for x in CODECS], compressions=[Comp("gzip")])
    eps = {PATH: endpoint(kind, fns("this")[kind], m), OTHER_PATH: endpoint(kind, fns("other")[kind], m)}
    return AsgiApp(service=None, endpoints=lambda svc: eps, codecs=[NameCodec(x) for x in CODECS], compressions=[Comp("gzip")])


async def ask(app, scope, receive):
    """(status, headers) of the ASGI application's answer."""
    send = RouteSend()
    try:
        await app(scope, receive, send)
    except Exception as e:
        __cover__("escaped")
        if send.state != "done":
            __violation__("C02.incomplete", "an exception leaves the application before the response is complete")
            __prune__()
    if send.state != "done":
        __violation__("C02.incomplete", f"the application is finished but the response is in state '{send.state}'")
        __prune__()
    return send.status, [(text(k).lower(), text(v)) for k, v in send.headers]


def ask_s(app, env):
    class SR(StartResponse):
        def on_start(self, status, headers):
            if self.n > 1:
                __violation__("C03.start-twice", "start_response is called twice")

    sr = SR()
    try:
        run_wsgi(app, env, sr)
    except Exception as e:
        __violation__("C03.raises", "the application lets an exception escape to the server")
        __prune__()
    if sr.n == 0:
        __violation__("C03.no-start", "the application returns a body without calling start_response")
        __prune__()
    return int(sr.status[:3]), [(k.lower(), v) for k, v in sr.headers]


class OneIn:
    __identity__ = True

    def __init__(self, body):
        self.body = body
        self.n = 0

    def read(self, n=-1):
        self.n = self.n + 1
        return self.body if self.n == 1 else b""


def body_of(framed):
    return b"\0\0\0\0\5hello" if framed else b"hello"


class OneRecv:
    __identity__ = True

    def __init__(self, body):
        self.body = body
        self.state = "open"

    async def __call__(self):
        if self.state == "open":
            self.state = "ended"
            return {"type": "http.request", "body": self.body, "more_body": False}
        return {"type": "http.disconnect"}


def framed(proto):
    return proto != "unary"


# ------------------------------------------------------------------------------------------ C25: paths
ROOTS = ("", "/mnt", None)


async def path(kind, proto):
    app = app_of(False, kind, IdempotencyLevel.UNKNOWN)
    root = ROOTS[__choose__(3, "root_path")]
    k = __choose__(5, "path")
    p = [PATH, OTHER_PATH, "/mnt" + PATH, "/mnt" + OTHER_PATH, P][k]
    scope = scope_of("POST", p, [("content-type", ct_of(proto))], root_path=root)
    if root is None:
        del scope["root_path"]
        if __choose__(2, "optional keys"):
            del scope["extensions"]
            __assume__(proto != "grpc")
    status, headers = await ask(app, scope, OneRecv(body_of(framed(proto))))
    rest = p.removeprefix(root or "")
    routed(status, "this" if p == PATH or rest == PATH else "other" if p == OTHER_PATH or rest == OTHER_PATH else None)


def routed(status, want):
    if want is None:
        __cover__("not found")
        if Z.fn is not None:
            __violation__("C25.called", "a request for an unknown path reaches a service function")
        elif status != 404:
            __violation__("C25.status", "a request for an unknown path is not answered with 404")
        return
    __cover__("routed", want)
    if Z.fn is None:
        __violation__("C25.unrouted", "a request for a registered path does not reach its service function")
    elif Z.fn != want:
        __violation__("C25.wrong", "a request reaches the service function of another path")
    elif status != 200:
        __violation__("C25.status", "a routed request is not answered with 200")


SCRIPTS = ("", "/pkg.Service", "/mnt", None)


def path_s(kind, proto):
    app = app_of(True, kind, IdempotencyLevel.UNKNOWN)
    script = SCRIPTS[__choose__(4, "SCRIPT_NAME")]
    k = __choose__(6, "PATH_INFO")
    p = [PATH, OTHER_PATH, "/Method", "/Other", P, None][k]
    env = environ_of("POST", p, [("content-type", ct_of(proto))], "", OneIn(body_of(framed(proto))), trailers=SendTrailers(), script=script)
    if script is None:
        del env["SCRIPT_NAME"]
        del env["QUERY_STRING"]
    if p is None:
        del env["PATH_INFO"]
    status, headers = ask_s(app, env)
    full = "/pkg.Service" + (p or "/") if script == "/pkg.Service" else ""
    routed(status, "this" if p == PATH or full == PATH else "other" if p == OTHER_PATH or full == OTHER_PATH else None)


# ------------------------------------------------------------------------------------------ C13: HTTP methods
LEVELS = {"safe": IdempotencyLevel.NO_SIDE_EFFECTS, "idempotent": IdempotencyLevel.IDEMPOTENT, "unknown": IdempotencyLevel.UNKNOWN}
METHODS = ["GET", "POST", "HEAD", "PUT", "get", M]
Q = "encoding=proto&message=aGVsbG8&base64=1&connect=v1"


def methods(kind, proto, level, status, headers, m):
    unary_connect = proto == "unary" or proto is None
    allowed = ["POST"]
    if kind == "unary" and unary_connect and level == "safe":
        allowed = ["GET", "POST"]
    if m in allowed:
        if proto is None and m == "POST":
            return  # answered as a request of an unsupported content type
        if Z.fn is None:
            __violation__("C13.refused", f"an allowed {m} request does not reach the service")
        __cover__("allowed", m)
        return
    __cover__("not allowed")
    if Z.fn is not None:
        __violation__("C13.reached", "a service function runs for an HTTP method that is not allowed for it")
        return
    if status != 405:
        __violation__("C13.status", "a disallowed HTTP method is not answered with 405")
        return
    allow = [v for k, v in headers if k == "allow"]
    if len(allow) != 1 or sorted([x.strip() for x in allow[0].split(",")]) != allowed:
        __violation__("C13.allow", "the answer to a disallowed HTTP method does not list the allowed ones")


async def http_method(kind, proto, level):
    """proto None: a request without content type, as a GET usually is."""
    app = app_of(False, kind, LEVELS[level])
    m = METHODS[__choose__(len(METHODS), "method")]
    scope = scope_of(m, PATH, [("content-type", ct_of(proto))] if proto else [], Q.encode())
    status, headers = await ask(app, scope, OneRecv(body_of(framed(proto))))
    methods(kind, proto, level, status, headers, m)


def http_method_s(kind, proto, level):
    app = app_of(True, kind, LEVELS[level])
    m = METHODS[__choose__(len(METHODS), "method")]
    env = environ_of(m, PATH, [("content-type", ct_of(proto))] if proto else [], Q, OneIn(body_of(framed(proto))), trailers=SendTrailers())
    status, headers = ask_s(app, env)
    methods(kind, proto, level, status, headers, m)


# ------------------------------------------------------------------------------------------ C12: content types
# (content type, codec for unary functions, codec for streams, response content type of streams)
TYPES = [
    ("application/proto", "proto", None), ("application/json", "json", None), ("application/json; charset=utf-8", "json", None),
    ("application/JSON", "json", None), ("application/connect+proto", None, "proto"), ("application/connect+json", None, "json"),
    ("application/connect+json; charset=utf-8", None, "json"), ("application/grpc", "proto", "proto"), ("application/grpc+proto", "proto", "proto"),
    ("application/grpc+json", "json", "json"), ("application/grpc+thrift", None, None), ("application/grpc-web", "proto", "proto"),
    ("application/grpc-web+json", "json", "json"), ("application/grpc-web+thrift", None, None), ("application/connect+thrift", None, None),
    ("application/thrift", None, None), ("application/grpcx", None, None), ("text/plain", None, None), ("application/octet-stream", None, None),
    ("", None, None), (None, None, None), ("application/grpc+" + X, None, None), ("application/grpc-web+" + X, None, None),
    ("application/connect+proto+x", None, None), ("application/proto+x", None, None), (CT, "?", "?"),
]


def types(kind, ct, want, status, headers):
    rct = [v for k, v in headers if k == "content-type"]
    if want == "?":
        __cover__("any content type")
        if Z.fn is None and Z.decoded is not None:
            __violation__("C12.refused", "a decoded request does not reach the service")
        return
    if want is None:
        __assume__(X not in ("proto", "json"))
        __cover__("unsupported type")
        if Z.fn is not None or Z.decoded is not None:
            __violation__("C12.accepted", f"a request of the unsupported content type '{ct}' is processed")
        elif status != 415:
            __violation__("C12.status", f"a request of the unsupported content type '{ct}' is not answered with 415")
        return
    __cover__("supported type", want)
    if Z.fn is None or status != 200:
        __violation__("C12.refused", f"a request of content type '{ct}' does not reach the service")
        return
    if Z.decoded != want:
        __violation__("C12.codec", f"a request of content type '{ct}' is decoded as {Z.decoded}")
    if Z.encoded != want:
        __violation__("C12.codec", f"the response to content type '{ct}' is encoded as {Z.encoded}")
    if ct.startswith("application/grpc-web"):
        expect = "application/grpc-web+" + want
    elif ct.startswith("application/grpc"):
        expect = "application/grpc+" + want
    elif ct.startswith("application/connect+"):
        expect = "application/connect+" + want
    else:
        expect = "application/" + want
    if len(rct) != 1 or rct[0] != expect:
        __violation__("C12.response-type", f"the response to content type '{ct}' does not declare '{expect}'")


def enveloped(ct, kind):
    return ct is not None and (ct.startswith("application/grpc") or ct.startswith("application/connect+"))


async def content_type(kind):
    app = app_of(False, kind, IdempotencyLevel.UNKNOWN)
    k = __choose__(len(TYPES), "content type")
    ct, u, s = TYPES[k]
    scope = scope_of("POST", PATH, [("content-type", ct)] if ct is not None else [])
    status, headers = await ask(app, scope, OneRecv(body_of(k < len(TYPES) - 1 and enveloped(ct, kind))))
    types(kind, ct, u if kind == "unary" else s, status, headers)


def content_type_s(kind):
    app = app_of(True, kind, IdempotencyLevel.UNKNOWN)
    k = __choose__(len(TYPES), "content type")
    ct, u, s = TYPES[k]
    env = environ_of("POST", PATH, [("content-type", ct)] if ct is not None else [], "", OneIn(body_of(k < len(TYPES) - 1 and enveloped(ct, kind))), trailers=SendTrailers())
    status, headers = ask_s(app, env)
    types(kind, ct, u if kind == "unary" else s, status, headers)


__precise__(text, RouteSend, ask, ask_s, routed, methods, types)
