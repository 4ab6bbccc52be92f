"""What the clients put on the wire for a call: one request, with what the interceptors and the protocol make of its headers."""

import struct

from server import *
from pyqwest import StreamError, StreamErrorCode

__paths__(400)
HOOKS["json"] = lambda data: {}

OWN = __opaque__("header value of the caller", "str")
ADDED = __opaque__("header value of an interceptor", "str")
AGENT = __opaque__("user agent of the caller", "str")
BODY = __opaque__("response payload", "bytes")

CT = {"unary": "application/proto", "connect": "application/connect+proto", "grpc": "application/grpc+proto", "grpc-web": "application/grpc-web+proto"}
ENC = {"unary": "content-encoding", "connect": "connect-content-encoding", "grpc": "grpc-encoding", "grpc-web": "grpc-encoding"}
ACC = {"unary": "accept-encoding", "connect": "connect-accept-encoding", "grpc": "grpc-accept-encoding", "grpc-web": "grpc-accept-encoding"}
TIME = {"unary": "connect-timeout-ms", "connect": "connect-timeout-ms", "grpc": "grpc-timeout", "grpc-web": "grpc-timeout"}


class State:
    __identity__ = True

    def __init__(self):
        self.due = {}  # the header lines that the request is to have, by name
        self.absent = []  # names that it must not have
        self.agent = None
        self.requests = 0
        self.outcome = 0


S = State()


class WCodec:
    __identity__ = True

    def name(self):
        return "proto"

    def encode(self, message):
        return b"m"

    def decode(self, data, message_class):
        return Msg()


class WComp:
    __identity__ = True

    def name(self):
        return "gzip"

    def compress(self, data):
        return b"c"

    def decompress(self, data):
        return data


def wire(http_method, headers):
    if S.requests:
        __violation__("C33.once", "a call is sent more than once")
    S.requests = 1
    lines = {}
    for k, v in headers.items():
        lines.setdefault(k.lower(), []).append(v)
    for name in S.due:
        if http_method == "GET" and name in ("content-type", "content-encoding"):
            continue  # what they would say is in the query
        got = lines.get(name, [])
        if name == S.acc and len(got) == 1:
            got = [x.strip() for x in got[0].split(",") if x.strip() != "identity"]
        if len(got) != 1 or not got[0] == S.due[name]:
            if name in ("x-added", "x-changed"):
                __violation__("C33.interceptor", f"the header {name} of the request is not what an interceptor made it:", got)
            elif name == "x-own":
                __violation__("C33.own", "a header of the caller is not sent as given:", got)
            elif name == "user-agent":
                __violation__("C33.agent", "the user agent of the caller is not sent:", got)
            else:
                __violation__("C33.protocol", f"the request has the {name} header", got, "instead of", S.due[name])
    for name in S.absent:
        if name in lines and not (name == S.enc and lines[name] == ["identity"]):
            if name == "x-removed":
                __violation__("C33.interceptor", "a header that an interceptor removed is sent")
            else:
                __violation__("C33.protocol", f"the request has a {name} header although nothing it says is true of the request:", lines[name])
    if "user-agent" not in S.due:
        got = lines.get("user-agent", [])
        if len(got) != 1 or got[0] == "":
            __violation__("C33.agent", "a call without a user agent from the caller is not sent with the library's own:", got)
    __cover__("sent")


def answer(streaming):
    """What comes back: nothing, a refusal that invites a second try, or a response."""
    n = S.outcome = __choose__(len(FAILURES) + len(STATUSES) + 1, "outcome") if S.mode == "once" else 0
    if n < len(FAILURES):
        raise FAILURES[n]()
    n = n - len(FAILURES)
    if n < len(STATUSES):
        return STATUSES[n]
    S.outcome = "fine"
    return 200


FAILURES = [
    lambda: OSError("down"), lambda: ConnectionError("down"), lambda: ConnectionResetError("reset"), lambda: ConnectionRefusedError("refused"), lambda: BrokenPipeError("broken"),
    lambda: TimeoutError("late"), lambda: pyqwest.ReadError("read"), lambda: pyqwest.WriteError("write"), lambda: RuntimeError("closed"),
    lambda: StreamError("refused", StreamErrorCode.REFUSED_STREAM), lambda: StreamError("gone", StreamErrorCode.NO_ERROR), lambda: StreamError("calm", StreamErrorCode.ENHANCE_YOUR_CALM),
    lambda: StreamError("old", StreamErrorCode.HTTP_1_1_REQUIRED), lambda: StreamError("connect", StreamErrorCode.CONNECT_ERROR), lambda: StreamError("closed", StreamErrorCode.STREAM_CLOSED),
]
STATUSES = [503, 429, 502, 504, 408, 425, 500, 415, 405, 307]


def full(status):
    return pyqwest.FullResponse(status=status, headers=pyqwest.Headers([("content-type", "application/proto" if status == 200 else "text/html")]), content=BODY, trailers=pyqwest.Headers())


def content():
    if S.outcome == "fine":
        yield struct.pack(">BI", 0, 1) + b"m"


async def acontent():
    if S.outcome == "fine":
        yield struct.pack(">BI", 0, 1) + b"m"


class Stream:
    def __init__(self, sync):
        self._sync = sync

    def _make(self):
        st = answer(True)
        return Resp(st, [("content-type", CT[S.p])], content() if self._sync else acontent(), [("grpc-status", "0")])

    async def __aenter__(self):
        return self._make()

    async def __aexit__(self, *a):
        return None

    def __enter__(self):
        return self._make()

    def __exit__(self, *a):
        return None


class WHttp(pyqwest.Client):
    __identity__ = True

    def __init__(self):
        pass

    async def get(self, url, headers=None, **kw):
        wire("GET", headers)
        return full(answer(False))

    async def post(self, url, headers=None, content=None, **kw):
        wire("POST", headers)
        return full(answer(False))

    def stream(self, method, url, headers=None, content=None, **kw):
        wire(method, headers)
        return Stream(False)


class WHttpSync(pyqwest.SyncClient):
    __identity__ = True

    def __init__(self):
        pass

    def get(self, url, headers=None, **kw):
        wire("GET", headers)
        return full(answer(False))

    def post(self, url, headers=None, content=None, **kw):
        wire("POST", headers)
        return full(answer(False))

    def stream(self, method, url, headers=None, content=None, **kw):
        wire(method, headers)
        return Stream(True)


def change(ctx):
    """What an interceptor may do to the headers of a call."""
    h = ctx.request_headers
    h["X-Added"] = ADDED
    h["x-changed"] = ADDED
    h.pop("x-removed", None)


class Change:
    async def on_start(self, ctx):
        change(ctx)

    async def on_end(self, token, ctx, error):
        pass


class ChangeSync:
    def on_start_sync(self, ctx):
        change(ctx)

    def on_end_sync(self, token, ctx, error):
        pass


async def areq():
    yield Msg()


def sreq():
    yield Msg()


CONTAINERS = ["nothing", "mapping", "headers"]


def set_up(kind, proto, get, mode):
    """Chooses what the caller gives and says what is to be sent."""
    S.mode = mode
    p = S.p = "unary" if kind == "unary" and proto == "connect" else proto
    S.acc, S.enc = ACC[p], ENC[p]
    send = mode == "headers" and __choose__(2, "compression") == 1
    timeout = 1000 if __choose__(2, "timeout") else None
    S.timed = timeout is not None
    many = mode == "headers"
    S.due = {"content-type": CT[p], ACC[p]: "gzip"}
    S.absent = []
    if p in ("unary", "connect"):
        S.due["connect-protocol-version"] = "1"
    else:
        S.due["te"] = "trailers"
    if send:
        S.due[ENC[p]] = "gzip"
    else:
        S.absent.append(ENC[p])
    if timeout is not None:
        S.due[TIME[p]] = "1000" if p in ("unary", "connect") else "1000m"
    given = [("X-Own", OWN), ("X-Changed", OWN), ("X-Removed", OWN)]
    c = CONTAINERS[__choose__(3, "headers given as") if many else 0]
    icpt = many and __choose__(2, "interceptor") == 1
    if c == "nothing":
        given = []
    else:
        S.due["x-own"] = OWN
        if not icpt:
            S.due["x-changed"] = OWN
            S.due["x-removed"] = OWN
        w = __choose__(6, "reserved name")
        if w == 1:
            given.append(("Content-Type", "text/plain"))
        elif w == 2:
            given.append(("TE", "gzip") if p in ("grpc", "grpc-web") else ("Connect-Protocol-Version", "2"))
        elif w == 3:
            given.append((ENC[p].upper(), "br"))
        elif w == 4:
            given.append((ACC[p].title(), "br"))
        elif w == 5:
            given.append(("User-Agent", AGENT))
            S.due["user-agent"] = AGENT
    if icpt:
        S.due["x-added"] = S.due["x-changed"] = ADDED
        S.absent.append("x-removed")
    headers = None if c == "nothing" else dict(given) if c == "mapping" else Headers(given)
    return headers, timeout, WComp() if send else None, icpt


def over(error):
    late = S.timed and isinstance(error, ConnectError) and error.code is Code.DEADLINE_EXCEEDED
    if S.requests == 0 and not late:
        __violation__("C33.once", "a call is not sent at all")
    if error is not None and not isinstance(error, ConnectError):
        __note__("not a ConnectError")


async def client(kind, proto, mode):
    get = kind == "unary" and __choose__(2, "GET") == 1
    headers, timeout, send, icpt = set_up(kind, proto, get, mode)
    m = method(IdempotencyLevel.NO_SIDE_EFFECTS if get else IdempotencyLevel.UNKNOWN)
    cl = ConnectClient("http://h", http_client=WHttp(), codec=WCodec(), protocol=PROTO[proto], accept_compression=[WComp()], send_compression=send, interceptors=[Change()] if icpt else [])
    error = None
    try:
        if kind == "unary":
            await cl.execute_unary(request=Msg(), method=m, headers=headers, timeout_ms=timeout, use_get=get)
        elif kind == "client":
            await cl.execute_client_stream(request=areq(), method=m, headers=headers, timeout_ms=timeout)
        elif kind == "server":
            async for x in cl.execute_server_stream(request=Msg(), method=m, headers=headers, timeout_ms=timeout):
                pass
        else:
            async for x in cl.execute_bidi_stream(request=areq(), method=m, headers=headers, timeout_ms=timeout):
                pass
    except Exception as e:
        error = e
    over(error)


def client_s(kind, proto, mode):
    get = kind == "unary" and __choose__(2, "GET") == 1
    headers, timeout, send, icpt = set_up(kind, proto, get, mode)
    m = method(IdempotencyLevel.NO_SIDE_EFFECTS if get else IdempotencyLevel.UNKNOWN)
    cl = ConnectClientSync("http://h", http_client=WHttpSync(), codec=WCodec(), protocol=PROTO[proto], accept_compression=[WComp()], send_compression=send, interceptors=[ChangeSync()] if icpt else [])
    error = None
    try:
        if kind == "unary":
            cl.execute_unary(request=Msg(), method=m, headers=headers, timeout_ms=timeout, use_get=get)
        elif kind == "client":
            cl.execute_client_stream(request=sreq(), method=m, headers=headers, timeout_ms=timeout)
        elif kind == "server":
            for x in cl.execute_server_stream(request=Msg(), method=m, headers=headers, timeout_ms=timeout):
                pass
        else:
            for x in cl.execute_bidi_stream(request=sreq(), method=m, headers=headers, timeout_ms=timeout):
                pass
    except Exception as e:
        error = e
    over(error)


__precise__(wire, answer, full, change, set_up, over, State, Stream, WHttp, WHttpSync, Change, ChangeSync)
