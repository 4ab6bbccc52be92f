"""The clients against servers that send anything: truncated, failing, mismatching and malformed responses."""

import asyncio
import struct

from server import *
from pyqwest import StreamError, StreamErrorCode
from connectrpc.client import ResponseMetadata

__paths__(400)
CFG = {"kind": "", "proto": ""}
MSG = __opaque__("error message", "str")
P1 = __opaque__("payload 1", "bytes")
P2 = __opaque__("payload 2", "bytes")
P3 = __opaque__("payload after the end", "bytes")
TV = __opaque__("trailer value", "str")


class State:
    __identity__ = True

    def __init__(self):
        self.complete = []  # payloads of complete message envelopes before the end of stream
        self.partial = False  # the body stops inside an envelope
        self.extra = False  # bytes follow the end of stream marker
        self.end = None  # "ok", "error", "malformed" once the end marker is complete
        self.fail = None  # the exception that the transport raised
        self.code = None  # the code the failure or the error end stands for
        self.reject = None  # why the response must be refused before any message
        self.in_headers = False


S = State()


class CliCodec:
    __identity__ = True

    def name(self):
        return "proto"

    def encode(self, message):
        return __fn__("encode", "bytes", message)

    def decode(self, data, message_class):
        return __fn__("decode", "obj:Msg", data)


class CliComp:
    __identity__ = True

    def name(self):
        return "gzip"

    def compress(self, data):
        return __fn__("compress", "bytes", data)

    def decompress(self, data):
        u = __unfn__(data, "compress")
        return u[0] if u is not None else __fn__("decompress", "bytes", data)


# the error an end marker carries, and how it is written
def end_json(data):
    u = __unfn__(data, "json")
    if u is not None:
        if u[0] == "bad":
            raise json.JSONDecodeError("not JSON", "", 0)
        if u[0] == "ok":
            return {}
        if u[0] == "meta":
            return {"metadata": {"x-trail": [TV]}}
        if u[0] == "error":
            return {"error": {"code": "not_found", "message": MSG}, "metadata": {"x-trail": [TV]}}
        if u[0] == "odd":
            return {"error": {"code": "zz"}}
        if u[0] == "nomsg":
            return {"error": {"message": MSG}}
        if u[0] == "details":
            return {"error": {"code": "aborted", "message": MSG, "details": [{"type": "t", "value": TV}, {"value": "eA"}, {"type": "t"}]}}
        if u[0] == "detail types":
            return {"error": {"code": "aborted", "details": ["x"]}}
        if u[0] == "list":
            return []
    raise json.JSONDecodeError("not JSON", "", 0)




def env(flag, p):
    return struct.pack(">BI", flag, len(p)) + p


def cenv(flag, p):
    return env(flag | 1, __fn__("compress", "bytes", p))


ENDS = ["ok", "meta", "error", "odd", "nomsg", "details", "detail types", "list", "bad"]
FINE = ("ok", "meta")
WEB = [(b"grpc-status: 0\r\n", "ok", None), (b"x-trail: v\r\nGrpc-Status: 0\r\n\r\n", "ok", None), (b"grpc-status:5\r\ngrpc-message: no%20way\r\n", "error", Code.NOT_FOUND),
       (b"grpc-status: 99\r\n", "error", Code.UNKNOWN), (b"x-trail: v\r\n", "malformed", None), (b"", "malformed", None), (b"nonsense\r\n", "malformed", None),
       (b"\xff: v\r\n", "malformed", None), (b"grpc-status: 5\r\ngrpc-status-details-bin: !\r\n", "malformed", None), (b"grpc-status: 5\r\ngrpc-status-details-bin: CAU\r\n", "error", None)]
TRAILERS = [([("grpc-status", "0"), ("x-trail", TV)], "ok", None), ([("grpc-status", "5"), ("grpc-message", "no%20way")], "error", Code.NOT_FOUND), ([("grpc-status", TV)], "any", None),
            ([], None, None), ([("grpc-status", "5"), ("grpc-status-details-bin", TV)], "error", None), ([("grpc-status", "")], "error", None)]

ERRORS = ("timeout", "cancelled", "reset", "read error", "other")
RESET = {
    StreamErrorCode.NO_ERROR: Code.INTERNAL, StreamErrorCode.PROTOCOL_ERROR: Code.INTERNAL, StreamErrorCode.INTERNAL_ERROR: Code.INTERNAL,
    StreamErrorCode.FLOW_CONTROL_ERROR: Code.INTERNAL, StreamErrorCode.SETTINGS_TIMEOUT: Code.INTERNAL, StreamErrorCode.FRAME_SIZE_ERROR: Code.INTERNAL,
    StreamErrorCode.COMPRESSION_ERROR: Code.INTERNAL, StreamErrorCode.CONNECT_ERROR: Code.INTERNAL, StreamErrorCode.REFUSED_STREAM: Code.UNAVAILABLE,
    StreamErrorCode.CANCEL: Code.CANCELED, StreamErrorCode.ENHANCE_YOUR_CALM: Code.RESOURCE_EXHAUSTED,
    StreamErrorCode.INADEQUATE_SECURITY: Code.PERMISSION_DENIED, StreamErrorCode.STREAM_CLOSED: Code.UNAVAILABLE, StreamErrorCode.HTTP_1_1_REQUIRED: Code.UNAVAILABLE,
}


def fail(streaming=True):
    """The transport fails in one of the ways an HTTP client has."""
    names = ["timeout", "reset", "read error", "other"] + ([] if CFG["sync"] else ["asyncio timeout", "cancelled"])
    n = names[__choose__(len(names), "transport failure")]
    if n == "timeout":
        S.fail, S.code = TimeoutError("t"), Code.DEADLINE_EXCEEDED
    elif n == "asyncio timeout":
        S.fail, S.code = asyncio.TimeoutError(), Code.DEADLINE_EXCEEDED
    elif n == "cancelled":
        S.fail, S.code = CancelledError(), Code.CANCELED
    elif n == "reset":
        codes = list(RESET) if not S.complete and not S.partial and CFG["kind"] == "bidi" else [StreamErrorCode.INTERNAL_ERROR, StreamErrorCode.CANCEL, StreamErrorCode.STREAM_CLOSED]
        c = codes[__choose__(len(codes), "reset code")]
        S.fail, S.code = StreamError(MSG, c), RESET[c] if streaming else None
    elif n == "read error":
        S.fail, S.code = pyqwest.ReadError(MSG), Code.UNAVAILABLE
    else:
        S.fail, S.code = OSError(MSG), Code.UNAVAILABLE
    raise S.fail


def body():
    """The response body: some messages, then an end of any kind, then the end of the body or a failure."""
    proto = CFG["proto"]
    for p, frame, c in ((), ((P1, 0, False),), ((P1, 0, False), (P2, 0, True)), ((P1, 0, True),))[__choose__(4, "messages")]:
        S.complete.append(p)
        yield cenv(0, p) if c else env(0, p)
    tails = ["nothing", "part of a header", "part of a payload"]
    if proto != "grpc":
        tails = tails + ["end", "end and more", "compressed end"]
    t = tails[__choose__(len(tails), "tail")]
    if t == "part of a header":
        S.partial = True
        yield b"\0\0\0"
    elif t == "part of a payload":
        S.partial = True
        yield struct.pack(">BI", 0, len(P3) + 7) + P3
    elif t != "nothing":
        if proto == "connect":
            n = ENDS[__choose__(len(ENDS), "end of stream")] if t == "end" else "ok"
            S.end = "ok" if n in FINE else "malformed" if n in ("list", "bad", "detail types") else "error"
            S.code = {"error": Code.NOT_FOUND, "details": None}.get(n)
            data, flag = __fn__("json", "bytes", n), 2
            __assume__(len(data) > 0)
            if n != "bad":
                utf8(data)
        else:
            data, S.end, S.code = WEB[__choose__(len(WEB), "trailer frame")] if t == "end" else WEB[0]
            flag = 128
        yield cenv(flag, data) if t == "compressed end" else env(flag, data)
        if t == "end and more":
            S.extra = True
            yield env(0, P3)
    if t in ("nothing", "part of a payload", "end") and not S.end == "error" and __choose__(2, "transport fails"):
        fail()


async def abody():
    for c in body():
        yield c


def response(content):
    """A 200 response with the right declarations, whose trailers (for gRPC) end it in one of several ways."""
    headers = [("content-type", CT_STREAM[CFG["proto"]]), (ENC_HDR[CFG["proto"]], "gzip"), ("x-head", "v")]
    trailers = []
    if CFG["proto"] == "grpc":
        trailers, S.end, S.code = TRAILERS[__choose__(len(TRAILERS), "trailers")]
        if __choose__(2, "trailers in headers"):
            headers, trailers = headers + trailers, []
            S.in_headers = True
    return Resp(200, headers, content, trailers)


def judge(error, got, streaming):
    """got: the messages handed to the caller."""
    kind, proto = CFG["kind"], CFG["proto"]
    want = [__fn__("decode", "obj:Msg", p) for p in S.complete]
    if error is not None and not isinstance(error, ConnectError):
        __violation__("C07.type", "the caller gets an exception that is not a ConnectError")
        __prune__()
    if streaming:
        if len(got) > len(want):
            __violation__("C06.extra", "the caller gets a message that is not a complete message before the end of the stream")
            __prune__()
        for i in range(len(got)):
            if got[i] is not want[i]:
                __violation__("C06.order", "the caller does not get the messages of the stream in their order")
    if S.in_headers and S.complete:
        S.end = S.code = None  # a response with a body ends with trailers, not headers
    whole = S.fail is None and not S.partial and S.end == "ok"
    if error is None:
        if S.fail is not None:
            __violation__("C06.failure-hidden", "a response that breaks off looks complete to the caller")
        elif S.partial:
            __violation__("C06.partial", "a response that stops inside an envelope looks complete to the caller")
        elif S.end is None:
            __violation__("C06.no-end", "a response without its end of stream marker looks complete to the caller")
        elif S.end in ("error", "malformed"):
            __violation__("C06.error-hidden", "a response that ends with an error looks complete to the caller")
        elif S.extra:
            __violation__("C06.after-end", "a response with bytes after its end of stream marker looks complete to the caller")
        elif streaming and len(got) != len(want):
            __violation__("C06.lost", "a message of a complete response does not reach the caller")
        elif not streaming and (len(want) != 1 or got[0] is not want[0]):
            __violation__("C06.single", "a response without exactly one message looks complete to a caller who gets one")
        else:
            __cover__("complete")
        return
    __cover__("error", error.code.value)
    if S.fail is not None:
        if S.code is not None and error.code is not S.code and not (proto == "grpc" and S.end is not None) and S.end is None:
            if not (not streaming and len(want) != 1):
                __violation__("C07.code", f"a transport failure that means {S.code.value} reaches the caller as {error.code.value}")
        return
    if whole and not S.extra and (streaming or len(want) == 1):
        __violation__("C06.refused", "a complete response is reported as an error")
    if S.end == "error" and S.code is not None and error.code is not S.code and not S.partial and (streaming or len(want) < 2):
        __violation__("C09.code", f"an error that the server sent as {S.code.value} reaches the caller as {error.code.value}")


def kw_of(proto):
    return dict(codec=CliCodec(), protocol=PROTO[proto], accept_compression=[CliComp()], send_compression=None)


def start(kind, proto, sync):
    CFG["kind"], CFG["proto"], CFG["sync"] = kind, proto, sync


class CM:
    """The response stream; connecting may fail."""

    def __init__(self, make):
        self._make = make

    async def __aenter__(self):
        if __choose__(2, "no response at all"):
            fail()
        return self._make()

    async def __aexit__(self, *a):
        return None

    def __enter__(self):
        if __choose__(2, "no response at all"):
            fail()
        return self._make()

    def __exit__(self, *a):
        return None


async def stream(kind, proto):
    start(kind, proto, False)
    cl = ConnectClient("http://h", http_client=Http(None, lambda *a: CM(lambda: response(abody()))), **kw_of(proto))
    got, error = [], None
    try:
        if kind == "unary":
            got.append(await cl.execute_unary(request=Req(), method=method()))
        elif kind == "client":
            got.append(await cl.execute_client_stream(request=areq(), method=method()))
        elif kind == "server":
            async for m in cl.execute_server_stream(request=Req(), method=method()):
                got.append(m)
        else:
            async for m in cl.execute_bidi_stream(request=areq(), method=method()):
                got.append(m)
    except BaseException as e:
        error = e
    judge(error, got, kind in ("server", "bidi"))


def stream_s(kind, proto):
    start(kind, proto, True)
    cl = ConnectClientSync("http://h", http_client=HttpSync(None, lambda *a: CM(lambda: response(body()))), **kw_of(proto))
    got, error = [], None
    try:
        if kind == "unary":
            got.append(cl.execute_unary(request=Req(), method=method()))
        elif kind == "client":
            got.append(cl.execute_client_stream(request=sreq(), method=method()))
        elif kind == "server":
            for m in cl.execute_server_stream(request=Req(), method=method()):
                got.append(m)
        else:
            for m in cl.execute_bidi_stream(request=sreq(), method=method()):
                got.append(m)
    except BaseException as e:
        error = e
    judge(error, got, kind in ("server", "bidi"))


# ------------------------------------------------------------------------------------------ what the response declares
HTTP = {400: Code.INTERNAL, 401: Code.UNAUTHENTICATED, 403: Code.PERMISSION_DENIED, 404: Code.UNIMPLEMENTED, 429: Code.UNAVAILABLE, 502: Code.UNAVAILABLE,
        503: Code.UNAVAILABLE, 504: Code.UNAVAILABLE, 418: Code.UNKNOWN, 500: Code.UNKNOWN, 204: Code.UNKNOWN, 301: Code.UNKNOWN, 499: Code.UNKNOWN, 799: Code.UNKNOWN}
X = __opaque__("codec name", "str")
CT = __opaque__("content type", "str")
ENC = __opaque__("encoding", "str")
GOOD = {
    "unary": [("application/proto", True), ("application/json", False), ("application/connect+proto", False), ("application/grpc", False)],
    "connect": [("application/connect+proto", True), ("application/connect+json", False), ("application/proto", False), ("application/grpc+proto", False), ("application/connect+" + X, False)],
    "grpc": [("application/grpc+proto", True), ("application/grpc", True), ("application/grpc+json", False), ("application/grpc-web+proto", False), ("application/grpc-web", False), ("application/grpc+" + X, False)],
    "grpc-web": [("application/grpc-web+proto", True), ("application/grpc-web", True), ("application/grpc-web+json", False), ("application/grpc+proto", False), ("application/grpc", False), ("application/grpc-web+" + X, False)],
}
SAME = [("text/html", False), ("", False), (None, False), ("application/octet-stream", False)]


class Declared:
    __identity__ = True

    def __init__(self):
        self.wrong = None  # what is wrong with the response's declarations
        self.status = 200
        self.json = None


D = Declared()


def declare(proto):
    """Headers of a response; D says what is wrong with them."""
    types = GOOD[proto] + SAME
    ct, ok = types[__choose__(len(types), "content type")]
    if not ok:
        __assume__(X not in ("proto", ""))
        D.wrong = "content type"
    headers = [("content-type", ct)] if ct is not None else []
    k = __choose__(4, "encoding")
    if k == 3:
        __assume__(ENC not in ("gzip", "identity", ""))
        D.wrong = D.wrong or "encoding"
    if k:
        headers.append(("content-encoding" if proto == "unary" else ENC_HDR[proto], ["gzip", "identity", ENC][k - 1]))
    return headers


def non_ok(proto):
    """A response whose HTTP status is not 200."""
    codes = list(HTTP)
    D.status = codes[__choose__(len(codes), "HTTP status")]
    k = __choose__(3, "error body")
    if k == 0:
        return Resp(D.status, [("content-type", "text/html")], __opaque__("error page", "bytes"))
    if k == 1:
        return Resp(D.status, [], b"")
    D.json = ENDS[__choose__(len(ENDS), "error JSON")]
    data = __fn__("error json", "bytes", D.json)
    return Resp(D.status, [("content-type", "application/json")], data if D.json == "bad" else utf8(data))


def error_json(data):
    """The text of an error response."""
    u = __unfn__(data, "error json")
    if u is None:
        if __unfn__(data, "json") is not None:
            return end_json(data)
        data = bytes(data)
        if __isconst__(data) and data == b"{}":
            return {}
        raise json.JSONDecodeError("not JSON", "", 0)
    if u[0] == "error":
        return {"code": "not_found", "message": MSG}
    if u[0] == "details":
        return {"code": "aborted", "message": MSG, "details": [{"type": "t", "value": TV}, {"value": "eA"}]}
    if u[0] == "detail types":
        return {"code": "aborted", "details": ["x"]}
    if u[0] == "odd":
        return {"code": "zz"}
    if u[0] == "nomsg":
        return {"message": MSG}
    if u[0] == "list":
        return []
    if u[0] == "bad":
        raise json.JSONDecodeError("not JSON", "", 0)
    return {}


HOOKS["json"] = error_json


def judge_declared(error, got, proto):
    if error is not None and not isinstance(error, ConnectError):
        __violation__("C07.type", "the caller gets an exception that is not a ConnectError")
        __prune__()
    if S.fail is not None:
        if error is None:
            __violation__("C06.failure-hidden", "a response that breaks off looks complete to the caller")
        elif S.code is not None and error.code is not S.code:
            __violation__("C07.code", f"a transport failure that means {S.code.value} reaches the caller as {error.code.value}")
        __cover__("failed")
        return
    if D.status != 200:
        if error is None:
            __violation__("C07.status", "an HTTP error response looks like a success to the caller")
        elif D.json == "error":
            if error.code is not Code.NOT_FOUND or error.message != MSG:
                __violation__("C09.code", "the error in an error response does not reach the caller")
        elif D.json in (None, "bad", "list") and error.code is not HTTP[D.status]:
            __violation__("C07.code", f"HTTP status {D.status} without a readable error reaches the caller as {error.code.value}")
        __cover__("HTTP error")
        return
    if D.wrong is None:
        if error is not None:
            __violation__("C12.refused", "a response with the right content type and an accepted encoding is refused")
        elif len(got) != 1 or got[0] is not __fn__("decode", "obj:Msg", P1):
            __violation__("C20.response", "the caller does not get the message of the response")
        __cover__("accepted")
        return
    __cover__("refused", D.wrong)
    if error is None or got:
        if D.wrong == "encoding":
            __violation__("C11.unknown-response", "a response in an encoding the client does not know is accepted")
        else:
            __violation__("C12.mismatch", "a response of another codec or protocol is accepted")


def full(r):
    return pyqwest.FullResponse(r.status, r.headers, r.content, r.trailers)


def declared_response(proto, content):
    if __choose__(2, "HTTP error"):
        r = non_ok(proto)
        if proto == "unary":
            return full(r)
        r.content = content(r.content)
        return r
    headers = declare(proto)
    if proto == "unary":
        return full(Resp(200, headers, P1))
    frames = env(0, P1)
    if proto == "connect":
        frames = frames + env(2, b"{}")
    elif proto == "grpc-web":
        frames = frames + env(128, b"grpc-status: 0\r\n")
    return Resp(200, headers, content(frames), [("grpc-status", "0")] if proto == "grpc" else [])


def one(x):
    yield x


async def aone(x):
    yield x


async def declared(kind, proto, get=False):
    """proto "unary": a unary call over the Connect protocol."""
    start(kind, proto, False)

    def unary(*a):
        if __choose__(2, "no response at all"):
            fail(False)
        return declared_response(proto, None)

    kw = kw_of("connect" if proto == "unary" else proto)
    cl = ConnectClient("http://h", http_client=Http(unary, lambda *a: CM(lambda: declared_response(proto, aone))), **kw)
    got, error = [], None
    try:
        if kind == "unary":
            got.append(await cl.execute_unary(request=Req(), method=method(IdempotencyLevel.NO_SIDE_EFFECTS), use_get=get))
        elif kind == "client":
            got.append(await cl.execute_client_stream(request=areq(), method=method()))
        elif kind == "server":
            async for m in cl.execute_server_stream(request=Req(), method=method()):
                got.append(m)
        else:
            async for m in cl.execute_bidi_stream(request=areq(), method=method()):
                got.append(m)
    except BaseException as e:
        error = e
    judge_declared(error, got, proto)


def declared_s(kind, proto, get=False):
    start(kind, proto, True)

    def unary(*a):
        if __choose__(2, "no response at all"):
            fail(False)
        return declared_response(proto, None)

    kw = kw_of("connect" if proto == "unary" else proto)
    cl = ConnectClientSync("http://h", http_client=HttpSync(unary, lambda *a: CM(lambda: declared_response(proto, one))), **kw)
    got, error = [], None
    try:
        if kind == "unary":
            got.append(cl.execute_unary(request=Req(), method=method(IdempotencyLevel.NO_SIDE_EFFECTS), use_get=get))
        elif kind == "client":
            got.append(cl.execute_client_stream(request=sreq(), method=method()))
        elif kind == "server":
            for m in cl.execute_server_stream(request=Req(), method=method()):
                got.append(m)
        else:
            for m in cl.execute_bidi_stream(request=sreq(), method=method()):
                got.append(m)
    except BaseException as e:
        error = e
    judge_declared(error, got, proto)


__precise__(declare, non_ok, judge_declared, declared_response, Declared, body, abody, response, judge, fail, State)
