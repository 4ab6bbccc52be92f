"""Deadlines: what the client tells the server, what it does itself when time is up, and what the service sees."""

import asyncio

from server import *
from pyqwest import StreamError, StreamErrorCode

HOOKS["json"] = lambda data: {}
__paths__(400)
T = __opaque__("timeout", "int")
CLOCK = [0.0]
HOOKS["clock"] = lambda: CLOCK[0]
SCOPES = []
CFG = {"kind": "", "proto": "", "sync": False}


class State:
    __identity__ = True

    def __init__(self):
        self.limit = None  # effective timeout in ms
        self.fired = False  # the deadline passed while the call was waiting
        self.late = False  # the deadline passed without the HTTP client noticing
        self.reset = False
        self.headers = None  # of the request


S = State()


def on_timeout(what, t):
    if what == "enter":
        SCOPES.append(t)
    else:
        SCOPES.remove(t)
        return S.fired
    return False


HOOKS["timeout"] = on_timeout


class DeadCodec:
    __identity__ = True

    def name(self):
        return "proto"

    def encode(self, message):
        return b"x"

    def decode(self, data, message_class):
        return Msg()


def deadline():
    return S.limit / 1000.0


def op(what, timeout=None):
    """The call waits for the server here; its time may run out."""
    if CFG["sync"]:
        armed = [] if timeout is None else [CLOCK[0] + timeout]
    else:
        armed = [t.when() for t in SCOPES if t.when() is not None]
    if S.limit is None:
        if armed:
            __violation__("C08.spurious", f"a call without a timeout limits how long it waits for the {what}")
            __prune__()
        return
    if not armed:
        __violation__("C08.enforced", f"the call waits for the {what} without regard to its deadline")
        __prune__()
    end = min(armed)
    if end > deadline() + 0.001:
        __violation__("C08.later", f"the call waits for the {what} longer than its deadline allows")
        __prune__()
    if end < deadline() - 0.001 and CLOCK[0] < deadline():
        __violation__("C08.sooner", f"the call gives up waiting for the {what} before its deadline")
        __prune__()
    if CLOCK[0] >= end or __choose__(2, "deadline passes"):
        CLOCK[0] = max(CLOCK[0], end)
        S.fired = True
        if CFG["sync"]:
            raise TimeoutError("timeout")
        raise CancelledError()


def env(flag, p):
    return bytes([flag, 0, 0, 0, len(p)]) + p


END = {"connect": env(2, b"{}"), "grpc": b"", "grpc-web": env(128, b"grpc-status: 0\r\n")}


def content():
    for i in range(2 if CFG["kind"] in ("server", "bidi") else 1):
        yield env(0, b"x")
    k = __choose__(3, "what comes after the messages")
    if k:
        S.reset = k == 2
        if S.limit is not None and __choose__(2, "time is up, unnoticed by the HTTP client"):
            S.late = True
            CLOCK[0] = max(CLOCK[0], deadline() + 0.5)
        if S.reset:
            raise StreamError("reset", StreamErrorCode.CANCEL)
    yield END[CFG["proto"]]


def scontent(timeout):
    for c in content():
        if not S.late:
            op("response", timeout_left(timeout))
        yield c


async def acontent():
    for c in content():
        if not S.late:
            op("response")
        yield c


def timeout_left(timeout):
    return None if timeout is None else timeout - (CLOCK[0] - CALLED[0])


CALLED = [0.0]


class CM:
    def __init__(self, timeout):
        self._timeout = timeout
        CALLED[0] = CLOCK[0]

    def _resp(self, body):
        return Resp(200, [("content-type", CT_STREAM[CFG["proto"]])], body, [("grpc-status", "0")] if CFG["proto"] == "grpc" else [])

    async def __aenter__(self):
        op("response headers")
        return self._resp(acontent())

    async def __aexit__(self, *a):
        return None

    def __enter__(self):
        op("response headers", self._timeout)
        return self._resp(scontent(self._timeout))

    def __exit__(self, *a):
        return None


def ok_response():
    return pyqwest.FullResponse(status=200, headers=pyqwest.Headers([("content-type", "application/proto")]), content=b"x", trailers=pyqwest.Headers([]))


class H(pyqwest.Client):
    __identity__ = True

    async def get(self, url, headers=None, **kw):
        op("response")
        return ok_response()

    async def post(self, url, headers=None, content=None, **kw):
        op("response")
        return ok_response()

    def stream(self, method, url, headers=None, content=None, **kw):
        return CM(None)


class HS(pyqwest.SyncClient):
    __identity__ = True

    def get(self, url, headers=None, timeout=None, **kw):
        return self.post(url, headers, None, timeout)

    def post(self, url, headers=None, content=None, timeout=None, **kw):
        if timeout is not None and timeout < 0:
            raise ValueError("Timeout must be non-negative")
        CALLED[0] = CLOCK[0]
        op("response", timeout)
        return ok_response()

    def stream(self, method, url, headers=None, content=None, timeout=None, **kw):
        if timeout is not None and timeout < 0:
            raise ValueError("Timeout must be non-negative")
        return CM(timeout)


class Slow:
    """An interceptor that takes a quarter of a second."""

    async def on_start(self, ctx):
        CLOCK[0] = CLOCK[0] + 0.25

    async def on_end(self, token, ctx, error=None):
        return None


class SlowSync:
    def on_start_sync(self, ctx):
        CLOCK[0] = CLOCK[0] + 0.25

    def on_end_sync(self, token, ctx, error=None):
        return None


def begin(kind, proto, sync):
    CFG["kind"], CFG["proto"], CFG["sync"] = kind, proto, sync
    call = [None, 0, 1500, 100][__choose__(4, "timeout of the call")]
    default = [None, 4000][__choose__(2, "timeout of the client")]
    S.limit = call if call is not None else default
    return call, default


def handling():
    """The caller handles a message; time passes."""
    if [t for t in SCOPES if t.when() is not None]:
        __violation__("C08.caller", "a deadline that passes while the caller handles a message cancels the caller's own work")
        __prune__()


def judge(error):
    if error is None:
        if S.fired or S.late and CFG["sync"] and CFG["proto"] != "unary":
            __violation__("C08.code", "a call whose deadline passed counts as a success")
        elif S.limit == 0 or S.limit == 100:
            __violation__("C08.ignored", "a call whose deadline passed before it was sent counts as a success")
        else:
            __cover__("in time")
        return
    if not isinstance(error, ConnectError):
        __violation__("C08.type", "a call that fails does not give the caller a ConnectError")
        return
    up = S.fired or S.late or (S.limit is not None and CLOCK[0] >= deadline())
    if up and error.code is not Code.DEADLINE_EXCEEDED:
        __violation__("C08.code", f"a call whose deadline passed is reported as {error.code.value}")
    elif not up and error.code is Code.DEADLINE_EXCEEDED:
        __violation__("C08.early", "a call is reported as deadline_exceeded before its deadline")
    elif not up and not S.reset:
        __violation__("C08.failed", f"a call in time is reported as {error.code.value}")
    elif up:
        __cover__("deadline")


async def client(kind, proto, get=False):
    call, default = begin(kind, proto, False)
    cl = ConnectClient("http://h", http_client=H(), codec=DeadCodec(), protocol=PROTO[proto], timeout_ms=default, interceptors=[Slow()], send_compression=None)
    error = None
    m = method(IdempotencyLevel.NO_SIDE_EFFECTS)
    try:
        if kind == "unary":
            await cl.execute_unary(request=Req(), method=m, timeout_ms=call, use_get=get)
        elif kind == "client":
            await cl.execute_client_stream(request=areq(), method=m, timeout_ms=call)
        elif kind == "server":
            async for r in cl.execute_server_stream(request=Req(), method=m, timeout_ms=call):
                handling()
        else:
            async for r in cl.execute_bidi_stream(request=areq(), method=m, timeout_ms=call):
                handling()
    except BaseException as e:
        error = e
    judge(error)


def client_s(kind, proto, get=False):
    call, default = begin(kind, proto, True)
    cl = ConnectClientSync("http://h", http_client=HS(), codec=DeadCodec(), protocol=PROTO[proto], timeout_ms=default, interceptors=[SlowSync()], send_compression=None)
    error = None
    m = method(IdempotencyLevel.NO_SIDE_EFFECTS)
    try:
        if kind == "unary":
            cl.execute_unary(request=Req(), method=m, timeout_ms=call, use_get=get)
        elif kind == "client":
            cl.execute_client_stream(request=sreq(), method=m, timeout_ms=call)
        elif kind == "server":
            for r in cl.execute_server_stream(request=Req(), method=m, timeout_ms=call):
                pass
        else:
            for r in cl.execute_bidi_stream(request=sreq(), method=m, timeout_ms=call):
                pass
    except BaseException as e:
        error = e
    judge(error)


# ------------------------------------------------------------------------------------------ what the request declares
SIZES = [("m", 1), ("S", 1000), ("M", 60000), ("H", 3600000)]


def declared(proto, headers, t):
    mine, other = ("grpc-timeout", "connect-timeout-ms") if proto.startswith("grpc") else ("connect-timeout-ms", "grpc-timeout")
    if [k for k, v in headers.items() if k == other]:
        __violation__("C08.header", "a request carries another protocol's timeout header")
    vs = [v for k, v in headers.items() if k == mine]
    if t is None:
        if vs:
            __violation__("C08.header", "a request without a timeout carries a timeout header")
        return
    if len(vs) > 1:
        __violation__("C08.header", "a request carries its timeout twice")
        return
    __cover__("declared")
    v = vs[0] if vs else None
    if proto.startswith("grpc"):
        grpc_declared(v, t)
        return
    if t > 9999999999:
        if v is not None and not (__isconst__(v) and v.isdigit() and len(v) <= 10):
            __violation__("C08.digits", "a timeout of more than ten digits is sent as it is")
    elif t <= 0:
        if v is None or not (__isconst__(v) and v.isdigit() and int(v) == 0 or t >= 0 and v == f"{t}"):
            __violation__("C08.value", "a timeout of zero or less is not sent as zero")
    elif v is None or v != f"{t}":
        __violation__("C08.value", "the timeout header does not say the call's timeout")


def grpc_declared(v, t):
    if v is None:
        __violation__("C08.value", "the call's timeout is not sent")
        return
    if t <= 0:
        if not (__isconst__(v) and len(v) <= 9 and v[:-1].isdigit() and int(v[:-1]) == 0 and v[-1] in "HMSmun"):
            __violation__("C08.value", "a timeout of zero or less is not sent as zero")
        return
    for unit, size in SIZES:
        if v == (f"{t // size}{unit}" if size > 1 else f"{t}{unit}") or size == 1 and v == f"{t // 1}{unit}":
            if t >= 100000000 * size:
                if size < 3600000 or t < 100000000 * 3600000:
                    __violation__("C08.digits", f"a gRPC timeout is sent with more than eight digits of {unit}")
            elif size > 1 and t < 1000 * size:
                __violation__("C08.value", "a gRPC timeout is sent with a unit so coarse that it says another timeout")
            return
    __violation__("C08.value", "the gRPC timeout header does not say the call's timeout")


class Got(Exception):
    pass


GOT = Got()


def begin_declared(kind, proto):
    CFG["kind"], CFG["proto"] = kind, proto
    k = __choose__(3, "timeout")
    return (None, None) if k == 0 else (T, None) if k == 1 else (None, T)


async def advertised(kind, proto, get=False):
    call, default = begin_declared(kind, proto)

    def sent(headers):
        declared(proto, headers, T if call is not None or default is not None else None)
        raise GOT

    cl = ConnectClient("http://h", http_client=Http(lambda m, u, h, c: sent(h), lambda m, u, h, c: sent(h)), codec=DeadCodec(), protocol=PROTO[proto], timeout_ms=default, send_compression=None)
    m = method(IdempotencyLevel.NO_SIDE_EFFECTS)
    try:
        if kind == "unary":
            await cl.execute_unary(request=Req(), method=m, timeout_ms=call, use_get=get)
        elif kind == "client":
            await cl.execute_client_stream(request=areq(), method=m, timeout_ms=call)
        elif kind == "server":
            async for r in cl.execute_server_stream(request=Req(), method=m, timeout_ms=call):
                pass
        else:
            async for r in cl.execute_bidi_stream(request=areq(), method=m, timeout_ms=call):
                pass
    except BaseException as e:
        pass


def advertised_s(kind, proto, get=False):
    call, default = begin_declared(kind, proto)

    def sent(headers):
        declared(proto, headers, T if call is not None or default is not None else None)
        raise GOT

    cl = ConnectClientSync("http://h", http_client=HttpSync(lambda m, u, h, c: sent(h), lambda m, u, h, c: sent(h)), codec=DeadCodec(), protocol=PROTO[proto], timeout_ms=default, send_compression=None)
    m = method(IdempotencyLevel.NO_SIDE_EFFECTS)
    try:
        if kind == "unary":
            cl.execute_unary(request=Req(), method=m, timeout_ms=call, use_get=get)
        elif kind == "client":
            cl.execute_client_stream(request=sreq(), method=m, timeout_ms=call)
        elif kind == "server":
            for r in cl.execute_server_stream(request=Req(), method=m, timeout_ms=call):
                pass
        else:
            for r in cl.execute_bidi_stream(request=sreq(), method=m, timeout_ms=call):
                pass
    except BaseException as e:
        pass


# ------------------------------------------------------------------------------------------ what the service sees
ABSENT = "absent"
CONNECT = [(None, None), ("0", 0), ("1500", 1500), ("9999999999", 9999999999), ("00012", 12), ("10000000000", "bad"), ("-5", "bad"), ("+5", "bad"), ("1_0", "bad"), (" 5", "bad"),
           ("5 ", "bad"), ("5m", "bad"), ("0x1", "bad"), ("1.5", "bad"), ("\u0665", "bad")]
GRPC = [(None, None), ("0m", 0), ("7m", 7), ("99999999m", 99999999), ("5S", 5000), ("99999999S", 99999999000), ("2M", 120000), ("1H", 3600000), ("1500000u", 1500), ("7000000n", 7),
        ("100000000m", "bad"), ("-5S", "bad"), ("+5S", "bad"), ("1_0S", "bad"), (" 5S", "bad"), ("5 S", "bad"), ("5", "bad"), ("S", "bad"), ("5s", "bad"), ("5h", "bad"), ("5X", "bad"),
        ("1.5S", "bad"), ("\u0665S", "bad"), ("5\u00b5", "bad")]


class Served:
    __identity__ = True

    def __init__(self):
        self.want = None
        self.calls = 0


Q = Served()


def see(ctx):
    Q.calls = Q.calls + 1
    if Q.want == "bad":
        __violation__("C08.accepted", "a request with a malformed timeout header reaches the service function")
        return
    t = ctx.timeout_ms
    if Q.want is None:
        if t is not None:
            __violation__("C08.seen", "the service function sees a deadline for a request without one")
        return
    if t is None:
        __violation__("C08.seen", "the service function does not see the request's deadline")
        return
    if abs(t - Q.want) > 1:
        __violation__("C08.seen", f"the service function sees another deadline than the request's")
    CLOCK[0] = CLOCK[0] + 0.25
    t = ctx.timeout_ms
    if t is None or abs(t - (Q.want - 250)) > 1:
        __violation__("C08.remaining", "the remaining time that the service function sees does not run down")
    __cover__("seen")


async def f_unary(req, ctx):
    see(ctx)
    return Res()


async def f_client(reqs, ctx):
    see(ctx)
    return Res()


async def f_server(req, ctx):
    see(ctx)
    yield Res()


def s_unary(req, ctx):
    see(ctx)
    return Res()


def s_client(reqs, ctx):
    see(ctx)
    return Res()


def s_server(req, ctx):
    see(ctx)
    yield Res()


def s_bidi(reqs, ctx):
    see(ctx)
    yield Res()


def pick(proto):
    t = GRPC if proto.startswith("grpc") else CONNECT
    v, Q.want = t[__choose__(len(t), "timeout header")]
    return [] if v is None else [(TMO_HDR[proto], v)]


def answered(escaped, status, failed):
    if escaped:
        if Q.want == "bad":
            __violation__("C08.escaped", "a request with a malformed timeout header raises an exception into the server")
        return
    if Q.want == "bad":
        if Q.calls:
            return
        if not (status == 400 or failed == "3"):
            __violation__("C08.answer", "a malformed timeout header is not answered with invalid_argument")
        __cover__("rejected")
    elif not Q.calls:
        __violation__("C08.refused", "a request with a valid timeout header does not reach the service function")


class StatusSend(Send):
    def __init__(self):
        super().__init__()
        self.status = None
        self.failed = None

    async def __call__(self, msg):
        if msg["type"] == "http.response.start":
            self.status = msg["status"]
        if msg["type"] == "http.response.trailers":
            for k, v in msg["headers"]:
                if k == b"grpc-status":
                    self.failed = text(v)
        await super().__call__(msg)


class Rx:
    def __init__(self, body):
        self._body = body

    async def __call__(self):
        b, self._body = self._body, None
        return {"type": "http.disconnect"} if b is None else {"type": "http.request", "body": b, "more_body": False}


class In:
    def __init__(self, body):
        self._body = body

    def read(self, n=-1):
        b, self._body = self._body, b""
        return b


async def server(kind, proto):
    CFG["kind"], CFG["proto"] = kind, proto
    fn = {"unary": f_unary, "client": f_client, "server": f_server, "bidi": f_server}[kind]
    app = asgi_app(kind, fn, codecs=[DeadCodec()])
    send = StatusSend()
    escaped = False
    try:
        await app(scope_of("POST", PATH, [("content-type", ct_of(proto))] + pick(proto)), Rx(b"x" if proto == "unary" else env(0, b"x")), send)
    except BaseException as e:
        escaped = True
    answered(escaped, send.status, send.failed)


def server_s(kind, proto):
    CFG["kind"], CFG["proto"] = kind, proto
    fn = {"unary": s_unary, "client": s_client, "server": s_server, "bidi": s_bidi}[kind]
    app = wsgi_app(kind, fn, codecs=[DeadCodec()])
    got = []
    trailers = []
    e = environ_of("POST", PATH, [("content-type", ct_of(proto))] + pick(proto), "", In(b"x" if proto == "unary" else env(0, b"x")), trailers=trailers.append)
    escaped = False
    try:
        run_wsgi(app, e, lambda status, headers, exc=None: got.append(status))
    except BaseException as ex:
        escaped = True
    failed = None
    for ts in trailers:
        for k, v in ts:
            if k == "grpc-status":
                failed = v
    answered(escaped, int(got[0][:3]) if got else None, failed)


__precise__(declared, grpc_declared, see, answered, judge, op, content, CM, H, HS)
