"""Telemetry: every call has one span and one duration, and never fails because of them."""

from connectrpc_otel import OpenTelemetryInterceptor
from opentelemetry.trace import CURRENT, NO_SPAN, SpanContext
from server import *

HOOKS["json"] = lambda data: {}
__paths__(600)
CFG = {"kind": "", "proto": "", "side": "", "sync": False, "full": False}
HOST = __opaque__("host header", "str")


class Rec:
    __identity__ = True

    def __init__(self):
        self.spans = []
        self.durations = []
        self.calls = 0
        self.how = "pending"
        self.error = None
        self.left = False
        self.injected = "never"
        self.ambient = None
        self.extracted = False


R = Rec()


class Sp:
    __identity__ = True

    def __init__(self):
        self.name, self.kind, self.attributes, self.context = "", None, {}, None
        self.entered = 0
        self.exited = 0
        self.error = None
        self.sampled = None

    def get_span_context(self):
        return SpanContext(True)

    def is_recording(self):
        # whether the call is sampled is up to the provider
        if self.sampled is None:
            self.sampled = __choose__(2, "the span is sampled") == 1
        return self.sampled and self.exited == 0

    def set_attributes(self, attributes):
        if self.exited:
            __violation__("C27.late", "attributes are set on a span that has ended")
        self.attributes.update(attributes)

    def set_attribute(self, key, value):
        self.set_attributes({key: value})

    def record_exception(self, *a, **kw):
        pass

    def set_status(self, *a, **kw):
        pass

    def __enter__(self):
        self.entered = self.entered + 1
        CURRENT.append(self)
        return self

    def __exit__(self, t, e, tb):
        self.exited = self.exited + 1
        self.error = e
        if not CURRENT or CURRENT[len(CURRENT) - 1] is not self:
            __violation__("C27.nesting", "a span ends while another one is current")
        else:
            CURRENT.pop()
        return False


class Tracer:
    __identity__ = True

    def start_as_current_span(self, name, context=None, kind=None, attributes=None, **kw):
        s = Sp()
        s.name, s.context, s.kind, s.attributes = name, context, kind, dict(attributes or {})
        R.spans.append(s)
        return s


class Hist:
    __identity__ = True

    def record(self, amount, attributes=None, **kw):
        R.durations.append(dict(attributes or {}))


class Provider:
    __identity__ = True

    def get_tracer(self, *a, **kw):
        return Tracer()

    def get_meter(self, *a, **kw):
        return self

    def create_histogram(self, name, **kw):
        want = "rpc.client.call.duration" if CFG["side"] == "client" else "rpc.server.call.duration"
        if name != want:
            __violation__("C27.metric", f"the duration is measured as {name}, not {want}")
        return Hist()


EXTRACTED = __opaque__("context of the caller", "obj:Context")


class Prop:
    __identity__ = True

    def inject(self, carrier, context=None, setter=None):
        R.injected = CURRENT[len(CURRENT) - 1] if CURRENT else None
        setter.set(carrier, "traceparent", "trace")

    def extract(self, carrier, context=None, getter=None):
        R.extracted = carrier.get("traceparent") == "from-caller"
        return EXTRACTED


P = Provider()


def icpt(client):
    CFG["side"] = "client" if client else "server"
    return OpenTelemetryInterceptor(propagator=Prop(), tracer_provider=P, meter_provider=P, client=client)


def ambient():
    """A span may be current already where the call starts."""
    if __choose__(2, "a span is current already"):
        R.ambient = Sp()
        CURRENT.append(R.ambient)


# ------------------------------------------------------------------------------------------ the service or the network
def inside():
    R.calls = R.calls + 1
    if not CURRENT or not R.spans or CURRENT[len(CURRENT) - 1] is not R.spans[0]:
        __violation__("C27.current", "the call runs without its span being current")


def go():
    R.how = ["ok", "connect", "other"][__choose__(3, "outcome")]
    if R.how == "connect":
        R.error = ConnectError(Code.ABORTED, "aborted")
    elif R.how == "other":
        R.error = KeyError("x")
    if R.error is not None:
        raise R.error


async def f_unary(req, ctx):
    inside()
    go()
    return Res()


async def f_client(reqs, ctx):
    inside()
    async for r in reqs:
        pass
    go()
    return Res()


async def f_server(req, ctx):
    inside()
    yield Res()
    go()
    yield Res()


async def f_bidi(reqs, ctx):
    inside()
    async for r in reqs:
        yield Res()
    go()


def s_unary(req, ctx):
    inside()
    go()
    return Res()


def s_client(reqs, ctx):
    inside()
    for r in reqs:
        pass
    go()
    return Res()


def s_server(req, ctx):
    inside()
    yield Res()
    go()
    yield Res()


def s_bidi(reqs, ctx):
    inside()
    for r in reqs:
        yield Res()
    go()


ASYNC = {"unary": f_unary, "client": f_client, "server": f_server, "bidi": f_bidi}
SYNC = {"unary": s_unary, "client": s_client, "server": s_server, "bidi": s_bidi}


class XCodec:
    __identity__ = True

    def name(self):
        return "proto"

    def encode(self, message):
        return b"x"

    def decode(self, data, message_class):
        return Msg()


def env(p):
    return bytes([0, 0, 0, 0, len(p)]) + p


class Rx:
    __identity__ = True

    def __init__(self, body):
        self._body = body

    async def __call__(self):
        b, self._body = self._body, None
        if b is None:
            return {"type": "http.disconnect"}
        return {"type": "http.request", "body": b, "more_body": False}


class In:
    __identity__ = True

    def __init__(self, body):
        self._body = body

    def read(self, n=-1):
        b, self._body = self._body, b""
        return b


class FailSend(Send):
    """Sending may fail in the middle of the stream, as when the client is gone."""

    async def __call__(self, msg):
        if msg["type"] == "http.response.body" and msg["body"] and CFG["kind"] in ("server", "bidi") and R.how == "pending":
            if __choose__(2, "sending fails"):
                R.left = True
                raise OSError("send")
        return None


# ------------------------------------------------------------------------------------------ verdict
HOSTS = [("h:8080", "h", 8080), (None, None, None), ("h", "h", 80), ("[::1]:81", "[::1]", 81), ("[::1]", "[::1]", 80), ("h:", "h", None), ("h:x", None, None), (HOST, None, None)]
URLS = [("http://h", "h", 80), ("https://h", "h", 443), ("http://h:8080", "h", 8080), ("http://h:8080/", "h", 8080), ("https://h/pre/fix", "h", 443), ("http://h:8080/pre/fix:1", "h", 8080),
        ("https://[::1]", "[::1]", 443), ("http://[::1]:81/", "[::1]", 81), ("http://user:pass@h", "h", 80)]
NET = {"unary": {"connect": "deadline_exceeded", "other": "unavailable"}}


def attrs(d, extra, where):
    """The attributes that can be told in advance."""
    want = {"rpc.system.name": "connectrpc", "rpc.method": "pkg.Service/Method"}
    want.update(extra)
    for k, v in want.items():
        if k not in d:
            if v is not None:
                __violation__("C27.attributes", f"{where} lacks the attribute {k}")
        elif v is None:
            __violation__("C27.attributes", f"{where} has an attribute {k} that is not known")
        elif v is not HOST and d[k] != v:
            __violation__("C27.attributes", f"the attribute {k} of {where} is {d[k]}, not {v}")


def judge(host, peer, raised):
    if R.calls != 1:
        __violation__("C27.fails", "a call does not reach the other side once because of its telemetry")
        return
    if len(CURRENT) != (1 if R.ambient is not None else 0):
        __violation__("C27.leak", "the current span after a call is not the one before it")
    if len(R.spans) != 1:
        __violation__("C27.spans", "a call does not have exactly one span")
        return
    s = R.spans[0]
    if s.entered != 1 or s.exited != 1:
        __violation__("C27.spans", "the span of a call is not started and ended once")
    if len(R.durations) != 1:
        __violation__("C27.durations", f"the duration of a call is recorded {len(R.durations)} times")
        return
    if s.name != "pkg.Service/Method" or s.kind != CFG["side"]:
        __violation__("C27.name", "the span of a call does not carry the name of the method and its side")
    ends = {"error.type": None, "rpc.response.status_code": None}
    if R.how in ("connect", "other") and not R.left:
        if CFG["side"] == "server":
            ends = {"error.type": "ConnectError" if R.how == "connect" else "KeyError", "rpc.response.status_code": "aborted" if R.how == "connect" else "unknown"}
            if s.error is not R.error:
                __violation__("C27.error", "the span does not end with the error of the call")
        else:
            ends = {"error.type": "ConnectError", "rpc.response.status_code": raised.code.value}
            if s.error is not raised:
                __violation__("C27.error", "the span does not end with the error of the call")
    elif s.error is not None and not R.left:
        __violation__("C27.error", "the span of a call that succeeded ends with an error")
    known = dict(ends)
    if host[1] is not None or host[0] is None:
        known["server.address"], known["server.port"] = host[1], host[2]
    attrs(R.durations[0], known, "the duration")
    if peer is not None:
        known["client.address"], known["client.port"] = peer[1], peer[2]
    attrs(s.attributes, known, "the span")
    __cover__(R.how)


def parent():
    """The span of a call on a server belongs to the current one, or to the caller's."""
    s = R.spans[0]
    if R.ambient is not None:
        if s.context is not None:
            __violation__("C27.parent", "the span of a call is not a child of the current one")
    elif s.context is not EXTRACTED or not R.extracted:
        __violation__("C27.parent", "the span of a call is not a child of the caller's")


PEERS = [(("1.2.3.4", 5), "1.2.3.4", 5), (None, None, None), (("::1", 99), "::1", 99), (("/tmp/socket", None), "/tmp/socket", None)]


def request(kind, proto, full):
    CFG["kind"], CFG["proto"], CFG["full"] = kind, proto, full
    host = HOSTS[__choose__(len(HOSTS), "host header")] if full == "host" else HOSTS[0]
    peer = PEERS[__choose__(len(PEERS), "address of the client")] if full == "peer" else PEERS[0]
    h = [("content-type", ct_of(proto)), ("traceparent", "from-caller")]
    if host[0] is not None:
        h.append(("host", host[0]))
    return host, peer, h, b"x" if proto == "unary" else env(b"x")


async def server(kind, proto, full=""):
    host, peer, h, body = request(kind, proto, full)
    app = asgi_app(kind, ASYNC[kind], codecs=[XCodec()], interceptors=[icpt(False)])
    ambient()
    sc = scope_of("POST", PATH, h)
    sc["client"] = peer[0]
    sc["scheme"] = "http"
    try:
        await app(sc, Rx(body), FailSend())
    except Exception as e:
        pass
    judge(host, peer, None)
    if len(R.spans) == 1:
        parent()


def server_s(kind, proto, full=""):
    CFG["sync"] = True
    host, peer, h, body = request(kind, proto, full)
    app = wsgi_app(kind, SYNC[kind], codecs=[XCodec()], interceptors=[icpt(False)])
    ambient()
    e = environ_of("POST", PATH, h, "", In(body), trailers=lambda t: None)
    if peer[0] is not None:
        e["REMOTE_ADDR"] = peer[0][0]
        if peer[0][1] is not None:
            e["REMOTE_PORT"] = str(peer[0][1])
        else:
            e["REMOTE_PORT"] = ""
    try:
        run_wsgi(app, e, lambda status, headers, exc=None: None)
    except Exception as ex:
        pass
    judge(host, peer, None)
    if len(R.spans) == 1:
        parent()


# ------------------------------------------------------------------------------------------ clients
END = {"connect": bytes([2, 0, 0, 0, 2]) + b"{}", "grpc": b"", "grpc-web": bytes([128, 0, 0, 0, 16]) + b"grpc-status: 0\r\n"}


def net(headers):
    inside()
    vs = [v for k, v in headers.items() if k == "traceparent"]
    if len(vs) != 1 or R.injected is not R.spans[0]:
        __violation__("C27.inject", "the trace context sent with a request is not that of the call's span")


def fail_net():
    R.how = ["ok", "connect", "other"][__choose__(3, "outcome")]
    if R.how == "connect":
        raise TimeoutError("t")
    if R.how == "other":
        raise OSError("x")


class CM:
    def __init__(self, proto, headers, content):
        self._proto, self._headers, self._content = proto, headers, content

    def _resp(self, body):
        net(self._headers)
        return Resp(200, [("content-type", CT_STREAM[self._proto])], body, [("grpc-status", "0")] if self._proto == "grpc" else [])

    async def abody(self):
        async for c in self._content:
            pass
        for c in self.body():
            yield c

    def body(self):
        yield env(b"x")
        fail_net()
        if CFG["kind"] in ("server", "bidi"):
            yield env(b"x")
        yield END[self._proto]

    def sbody(self):
        for c in self._content:
            pass
        for c in self.body():
            yield c

    async def __aenter__(self):
        return self._resp(self.abody())

    async def __aexit__(self, *a):
        pass

    def __enter__(self):
        return self._resp(self.sbody())

    def __exit__(self, *a):
        pass


def unary_net(m, u, h, c):
    net(h)
    fail_net()
    return pyqwest.FullResponse(status=200, headers=pyqwest.Headers([("content-type", "application/proto")]), content=b"x", trailers=pyqwest.Headers([]))


async def areq():
    yield Req()


def leave():
    if __choose__(2, "the caller leaves the stream early"):
        R.left = True
        return True
    return False


async def client(kind, proto, full=""):
    CFG["kind"], CFG["proto"], CFG["full"] = kind, proto, full
    p = "connect" if proto == "unary" else proto
    host = URLS[__choose__(len(URLS), "URL of the server")] if full == "host" else URLS[2]
    cl = ConnectClient(host[0], http_client=Http(unary_net, lambda m, u, h, c: CM(p, h, c)), codec=XCodec(), protocol=PROTO[proto], interceptors=[icpt(True)], send_compression=None)
    ambient()
    raised = None
    try:
        if kind == "unary":
            await cl.execute_unary(request=Req(), method=method())
        elif kind == "client":
            await cl.execute_client_stream(request=areq(), method=method())
        else:
            s = cl.execute_server_stream(request=Req(), method=method()) if kind == "server" else cl.execute_bidi_stream(request=areq(), method=method())
            async for m in s:
                if leave():
                    break
            await s.aclose()
    except Exception as e:
        raised = e
    if raised is not None and R.how in ("ok", "pending"):
        __violation__("C27.fails", "a call that would have succeeded fails because of its telemetry")
        return
    judge(host, None, raised)


def client_s(kind, proto, full=""):
    CFG["kind"], CFG["proto"], CFG["full"], CFG["sync"] = kind, proto, full, True
    p = "connect" if proto == "unary" else proto
    host = URLS[__choose__(len(URLS), "URL of the server")] if full == "host" else URLS[2]
    cl = ConnectClientSync(host[0], http_client=HttpSync(unary_net, lambda m, u, h, c: CM(p, h, c)), codec=XCodec(), protocol=PROTO[proto], interceptors=[icpt(True)], send_compression=None)
    ambient()
    raised = None
    try:
        if kind == "unary":
            cl.execute_unary(request=Req(), method=method())
        elif kind == "client":
            cl.execute_client_stream(request=sreq(), method=method())
        else:
            s = cl.execute_server_stream(request=Req(), method=method()) if kind == "server" else cl.execute_bidi_stream(request=sreq(), method=method())
            for m in s:
                if leave():
                    break
            s.close()
    except Exception as e:
        raised = e
    if raised is not None and R.how in ("ok", "pending"):
        __violation__("C27.fails", "a call that would have succeeded fails because of its telemetry")
        return
    judge(host, None, raised)


__precise__(inside, judge, attrs, parent, net, Rec, Sp, Hist, Prop)


# ------------------------------------------------------------------------------------------ automatic instrumentation
TARGETS = ["ConnectClient.__init__", "ConnectClientSync.__init__", "ConnectASGIApplication.__init__", "ConnectWSGIApplication.__init__"]


class Own:
    """An interceptor of the application."""

    __identity__ = True

    async def on_start(self, ctx):
        pass

    async def on_end(self, token, ctx, error):
        pass

    def on_start_sync(self, ctx):
        pass

    def on_end_sync(self, token, ctx, error):
        pass


def instrument(target):
    """What a constructor gets once the instrumentation is on."""
    from connectrpc_otel import ConnectInstrumentor
    from wrapt import REGISTRY

    CFG["side"] = "client" if "Client" in target else "server"
    ConnectInstrumentor().instrument(tracer_provider=P, meter_provider=P)
    ws = [w for m, n, w in REGISTRY if n == target]
    if len(ws) != 1:
        __violation__("C27.wrapped", f"{target} is not instrumented exactly once")
        return
    a, b = Own(), Own()
    k = __choose__(8, "how the interceptors are given")
    mine = OpenTelemetryInterceptor(tracer_provider=P, meter_provider=P, client="Client" in target) if k >= 6 else None
    own = [] if k < 3 else [a, b] if mine is None else [a, mine]
    kw = {} if k == 0 else {"interceptors": None if k == 1 else iter(own) if k in (5, 7) else tuple(own) if k == 4 else own}
    kw["read_max_bytes"] = 5
    seen = []

    def init(*args, **kwargs):
        seen.append((args, kwargs))
        return "result"

    r = ws[0](init, object(), ("address",), kw)
    if r != "result" or len(seen) != 1 or seen[0][0] != ("address",) or seen[0][1].get("read_max_bytes") != 5:
        __violation__("C27.init", "an instrumented constructor does not get the arguments it was called with, once")
        return
    got = [*seen[0][1].get("interceptors", ())]
    ours = [x for x in got if isinstance(x, OpenTelemetryInterceptor)]
    rest = [x for x in got if x is not None and not (isinstance(x, OpenTelemetryInterceptor) and x is not mine)]
    if len(ours) != 1:
        __violation__("C27.once", "an instrumented constructor does not get the telemetry interceptor once")
    elif mine is None and got[0] is not ours[0]:
        __violation__("C27.outermost", "the telemetry interceptor is not the outermost one")
    if len(rest) != len(own) or [1 for i in range(len(own)) if rest[i] is not own[i]]:
        __violation__("C27.own", "the interceptors of the application are lost, repeated or reordered by the instrumentation")
    __cover__("instrumented")
