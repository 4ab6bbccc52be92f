"""Client and server of the repository connected to each other: what one side hands over is what the other side gets."""

from env import *
from connectrpc._response_metadata import ResponseMetadata  # re-exported by connectrpc.client
from connectrpc.errors import ErrorDetail
from connectrpc.request import Headers
from protobuf.wkt import Any

HOOKS["json"] = few_json
__paths__(200)
MSG = __opaque__("error message", "str")
DTYPE = __lacks__(__opaque__("detail type", "str"), "/")
DVAL = __opaque__("detail bytes", "bytes")
RH1 = __lacks__(__opaque__("response header 1", "str"), " \t\r\n\x0b\x0c")
RH2 = __lacks__(__opaque__("response header 2", "str"), " \t\r\n\x0b\x0c")
RT1 = __lacks__(__opaque__("response trailer 1", "str"), " \t\r\n\x0b\x0c")
RT2 = __lacks__(__opaque__("response trailer 2", "str"), " \t\r\n\x0b\x0c")
QH1 = __lacks__(__opaque__("request header 1", "str"), " \t\r\n\x0b\x0c")
QH2 = __lacks__(__opaque__("request header 2", "str"), " \t\r\n\x0b\x0c")


class Numbered(Msg):
    __identity__ = True

    def __init__(self, n):
        self.n = n


REQS = [Numbered(0), Numbered(1)]
RESP = [Numbered(10), Numbered(11)]


class World:
    __identity__ = True

    def __init__(self):
        self.calls = 0
        self.seen = 0  # request messages the service saw
        self.sent = 0  # responses the service handed over
        self.error = None
        self.got = 0  # responses the caller got


W = World()
CFG = {"outcome": "ok", "meta": True, "sync": False}
CODES = list(Code)


class LoopCodec(Codec):
    """Decoding gives back what was encoded - by the same codec."""

    def __init__(self, name="proto"):
        super().__init__(name)

    def decode(self, data, message_class):
        u = __unfn__(data, "encode")
        if u is None and __isconst__(data) and len(data) == 0:
            for msg in (RESP if W.sent else REQS):  # a message that encodes to nothing
                if __known__(len(__fn__("encode", "bytes", self._n, msg)) == 0):
                    return msg
        if u is None:
            __violation__("C20.bytes", "the bytes handed to the codec are not the bytes a message was encoded to")
            __prune__()
        if u[0] != self._n:
            __violation__("C12.codec", "a message is decoded with another codec than it was encoded with")
            __prune__()
        return u[1]


class LoopComp(Comp):
    def compress(self, data):
        r = __fn__("compress", "bytes", self._n, data)
        __assume__(len(r) > 0)
        return r

    def decompress(self, data):
        u = __unfn__(data, "compress")
        if u is None or u[0] != self._n:
            __violation__("C11.mismatch", "data is decompressed that was not compressed with this encoding")
            __prune__()
        return u[1]


# ------------------------------------------------------------------------------------------ the service
def request_message(r):
    if W.seen >= len(REQS) or r is not REQS[W.seen]:
        __violation__("C20.request", "the service does not see the caller's request messages once each and in order")
    W.seen = W.seen + 1


def enter(ctx):
    W.calls = W.calls + 1
    if CFG["headers"]:
        if CFG["sync"]:
            ok = ctx.request_headers.get("x-req") == QH1
        else:
            ok = list(ctx.request_headers.getall("x-req")) == ([QH1] if CFG["headers"] in ("mapping", "reserved") else [QH1, QH2])
        if not ok:
            __violation__("C18.lost", "a header of the caller does not reach the service")
        __cover__("request headers compared")
    if CFG["meta"]:
        ctx.response_headers["x-head"] = RH1
        ctx.response_headers.add("x-head", RH2)
        ctx.response_trailers["x-trail"] = RT1
        ctx.response_trailers.add("x-trail", RT2)
        ctx.response_trailers["x-second"] = RT2


class QuotaError(ConnectError):
    """An application's own kind of error."""

    def __init__(self, message):
        super().__init__(Code.RESOURCE_EXHAUSTED, message)


def outcome():
    __assume__(len(MSG) > 0)
    if CFG["outcome"] == "codes":
        code = CODES[__choose__(len(CODES), "error code")]
        W.error = ConnectError(code, MSG, details=[ErrorDetail(Any("type.googleapis.com/" + DTYPE, DVAL))])
        raise W.error
    if CFG["outcome"] == "details":
        n = __choose__(3, "number of details")
        ds = [ErrorDetail(Any("type.googleapis.com/" + DTYPE, DVAL)), ErrorDetail(Any("type.googleapis.com/other.Type", DVAL))]
        W.error = ConnectError(Code.ABORTED, MSG if __choose__(2, "error message") else "", details=ds[:n])
        raise W.error
    if CFG["outcome"] == "other":
        k = __choose__(3, "exception")
        W.error = [ValueError(MSG), TimeoutError(MSG), QuotaError(MSG)][k]
        raise W.error


async def h_unary(req, ctx):
    enter(ctx)
    request_message(req)
    outcome()
    W.sent = 1
    return RESP[0]


async def h_client(reqs, ctx):
    enter(ctx)
    async for r in reqs:
        request_message(r)
    outcome()
    W.sent = 1
    return RESP[0]


async def h_server(req, ctx):
    enter(ctx)
    request_message(req)
    for i in range(__choose__(3, "responses")):
        W.sent = i + 1
        yield RESP[i]
    outcome()


async def h_bidi(reqs, ctx):
    enter(ctx)
    async for r in reqs:
        request_message(r)
        W.sent = W.sent + 1
        yield RESP[W.sent - 1]
    outcome()


def h_unary_s(req, ctx):
    enter(ctx)
    request_message(req)
    outcome()
    W.sent = 1
    return RESP[0]


def h_client_s(reqs, ctx):
    enter(ctx)
    for r in reqs:
        request_message(r)
    outcome()
    W.sent = 1
    return RESP[0]


def h_server_s(req, ctx):
    enter(ctx)
    request_message(req)
    for i in range(__choose__(3, "responses")):
        W.sent = i + 1
        yield RESP[i]
    outcome()


def h_bidi_s(reqs, ctx):
    enter(ctx)
    for r in reqs:
        request_message(r)
        W.sent = W.sent + 1
        yield RESP[W.sent - 1]
    outcome()


H = {"unary": h_unary, "client": h_client, "server": h_server, "bidi": h_bidi}
H_S = {"unary": h_unary_s, "client": h_client_s, "server": h_server_s, "bidi": h_bidi_s}


# ------------------------------------------------------------------------------------------ what is on the wire
GRPC_NUMBER = {"canceled": "1", "unknown": "2", "invalid_argument": "3", "deadline_exceeded": "4", "not_found": "5",
               "already_exists": "6", "permission_denied": "7", "resource_exhausted": "8", "failed_precondition": "9",
               "aborted": "10", "out_of_range": "11", "unimplemented": "12", "internal": "13", "unavailable": "14",
               "data_loss": "15", "unauthenticated": "16"}
HTTP_STATUS = {"canceled": 499, "unknown": 500, "invalid_argument": 400, "deadline_exceeded": 504, "not_found": 404,
               "already_exists": 409, "permission_denied": 403, "resource_exhausted": 429, "failed_precondition": 400,
               "aborted": 409, "out_of_range": 400, "unimplemented": 501, "internal": 500, "unavailable": 503,
               "data_loss": 500, "unauthenticated": 401}


def one(headers, name):
    """The only value of a header, None when absent."""
    vs = [v for k, v in headers if k.lower() == name]
    if len(vs) > 1:
        __violation__("C18.repeated", f"the header {name} is sent more than once")
    return vs[0] if vs else None


def frames_of(chunks):
    data = b"".join(chunks)
    out = []
    while len(data) >= 5:
        n = int.from_bytes(data[1:5], "big")
        if len(data) < 5 + n:
            break
        out.append((data[0], data[5:5 + n]))
        data = data[5 + n:]
    if not (__isconst__(data) and len(data) == 0):
        __violation__("C26.framing", "the body is not a sequence of whole envelopes")
    return out


def payload_of(flag, data, encoding, bits):
    if flag & ~(1 | bits):
        __violation__("C26.flags", "an envelope carries a flag the protocol does not define for this direction")
    u = __unfn__(data, "compress")
    if flag & 1:
        if u is None or u[0] != encoding:
            __violation__("C11.flag", "an envelope is marked compressed but not compressed with the declared encoding")
            __prune__()
        return u[1]
    if u is not None:
        __violation__("C11.flag", "a compressed envelope is not marked as compressed")
        __prune__()
    return data


def message_in(payload, msgs, i):
    u = __unfn__(payload, "encode")
    if u is None or i >= len(msgs) or u[1] is not msgs[i]:
        __violation__("C26.payload", "an envelope does not carry exactly the encoded message")


def proto_of():
    return "unary" if CFG["kind"] == "unary" and CFG["proto"] == "connect" else CFG["proto"]


def tap_request(http_method, headers, chunks):
    p = proto_of()
    hs = [(k, v) for k, v in headers.items()]
    enc = one(hs, ENC_HDR[p])
    acc = one(hs, ACC_HDR[p])
    if CFG["send"] is not None and enc != CFG["send"] and http_method == "POST":
        __violation__("C11.encoding-header", "the request does not declare its encoding")
    names = [] if acc is None else [x.strip() for x in acc.split(",")]
    if any(x not in names for x in CFG["accept"]) or any(x != "identity" and x not in CFG["accept"] for x in names):
        __violation__("C11.accept-header", "the request does not declare exactly the encodings the client was configured to accept")
    if p in ("unary", "connect") and one(hs, "connect-protocol-version") != "1":
        __violation__("C18.protocol", "the request does not declare the protocol version")
    if p in ("grpc", "grpc-web") and one(hs, "te") != "trailers":
        __violation__("C18.protocol", "the request does not announce that trailers are understood")
    if http_method == "GET":
        return
    if one(hs, "content-type") != ct_of(p):
        __violation__("C12.request-type", "the request does not declare the protocol and codec it uses")
    if p == "unary":
        data = b"".join(chunks)
        if enc is not None and enc != "identity":
            u = __unfn__(data, "compress")
            if u is None or u[0] != enc:
                __violation__("C11.flag", "the request body is not compressed with the declared encoding")
                __prune__()
            data = u[1]
        message_in(data, REQS, 0)
        __cover__("request bytes checked")
        return
    i = 0
    for flag, data in frames_of(chunks):
        message_in(payload_of(flag, data, enc, 0), REQS, i)
        i = i + 1
        __cover__("request bytes checked")


def tap_response(status, headers, body, trailers):
    p = proto_of()
    if W.calls != 1:
        return
    err = W.error if isinstance(W.error, ConnectError) else None
    if p == "unary":
        if err is not None and status != HTTP_STATUS[err.code.value]:
            __violation__("C09.http", f"code {err.code.value} is answered with HTTP status {status}")
        if W.error is None and status != 200:
            __violation__("C09.http", "a success is not answered with HTTP status 200")
        if one(headers, "content-type") != ("application/json" if W.error else "application/proto"):
            __violation__("C12.response-type", "the response does not declare what it contains")
        __cover__("response bytes checked")
        return
    if status != 200:
        __violation__("C09.http", "a streaming response does not have HTTP status 200")
    if one(headers, "content-type") != ct_of(p):
        __violation__("C12.response-type", "the response does not declare the protocol and codec it uses")
    enc = one(headers, ENC_HDR[p])
    if enc is None or enc != "identity" and enc not in CFG["accept"]:
        __violation__("C11.not-accepted", "the response uses an encoding the client did not accept")
    bit = {"connect": 2, "grpc-web": 128, "grpc": 0}[p]
    i = 0
    for flag, data in frames_of(body):
        payload = payload_of(flag, data, enc, bit)
        if bit and flag & bit:
            if p == "connect":
                e = json.loads(payload).get("error")
                if err is not None and (e is None or e["code"] != err.code.value):
                    __violation__("C09.wire", "the end of the stream does not carry the code of the error")
            else:
                trailers = [(k.strip(), v.strip()) for k, _, v in [x.partition(":") for x in payload.decode().split("\r\n") if x]]
        else:
            message_in(payload, RESP, i)
            i = i + 1
    if p in ("grpc", "grpc-web"):
        st = one(trailers, "grpc-status")
        if st is None or err is not None and st != GRPC_NUMBER[err.code.value] or W.error is None and st != "0":
            __violation__("C09.wire", "grpc-status is not the number of the error code")
    __cover__("response bytes checked")


# ------------------------------------------------------------------------------------------ the transport
def split(data, how):
    """The same bytes in other chunks."""
    if how == "whole" or (__isconst__(data) and len(data) == 0):
        return [data]
    return [data[:1], data[1:5], data[5:]]


def rechunk(chunks, how):
    if how == "joined":
        return [b"".join(chunks)]
    out = []
    for x in chunks:
        out.extend(split(x, how))
    return out


def path_of(url):
    if not url.startswith("http://h/"):
        __violation__("C18.url", "the request goes to another address than the configured one")
        __prune__()
    return url.removeprefix("http://h").partition("?")


class Exchange(Send):
    """The ASGI server's side of one exchange."""

    def __init__(self):
        super().__init__()
        self.body = []
        self.trailers = []

    def on_start(self, msg):
        self.hdrs = [(k.decode(), v.decode()) for k, v in msg.get("headers", ())]

    def on_body(self, body, more):
        self.body.append(body)

    def on_trailers(self, headers):
        self.trailers = [(k.decode(), v.decode()) for k, v in headers]


class Events:
    __identity__ = True

    def __init__(self, chunks):
        self.chunks = chunks
        self.i = 0

    async def __call__(self):
        self.i = self.i + 1
        if self.i > len(self.chunks):
            return {"type": "http.disconnect"}
        return {"type": "http.request", "body": self.chunks[self.i - 1], "more_body": self.i < len(self.chunks)}


async def run_asgi(app, http_method, url, headers, chunks):
    path, _, query = path_of(url)
    tap_request(http_method, headers, chunks)
    send = Exchange()
    scope = scope_of(http_method, path, [(k, v) for k, v in headers.items()], query.encode())
    try:
        await app(scope, Events(chunks), send)
    except Exception as e:
        if e is not W.error:
            raise
    tap_response(send.status, send.hdrs, send.body, send.trailers)
    return send.status, send.hdrs, send.body, send.trailers


class ListInput:
    __identity__ = True

    def __init__(self, chunks):
        self.chunks = chunks
        self.i = 0

    def read(self, n=-1):
        while self.i < len(self.chunks):
            self.i = self.i + 1
            if len(self.chunks[self.i - 1]) > 0:
                return self.chunks[self.i - 1]
        return b""


def run_wsgi_loop(app, http_method, url, headers, chunks):
    path, _, query = path_of(url)
    tap_request(http_method, headers, chunks)
    sr, st = StartResponse(), SendTrailers()
    body = []
    env = environ_of(http_method, path, [(k, v) for k, v in headers.items()], query, ListInput(chunks), trailers=st)
    run_wsgi(app, env, sr, body.append)
    tap_response(int(sr.status[:3]), sr.headers, body, st.headers or [])
    return int(sr.status[:3]), sr.headers, body, st.headers or []


def unpack(headers, data):
    """The HTTP client undoes the content encoding of unary responses."""
    enc = [v for k, v in headers if k.lower() == "content-encoding"]
    if len(enc) == 0 or enc[0] == "identity":
        return data
    return LoopComp(enc[0]).decompress(data)


class LoopHttp(pyqwest.Client):
    __identity__ = True

    def __init__(self, app, how):
        self.app, self.how = app, how

    async def get(self, url, headers=None, **kw):
        return await self.unary("GET", url, headers, [])

    async def post(self, url, headers=None, content=None, **kw):
        return await self.unary("POST", url, headers, [content])

    async def unary(self, http_method, url, headers, chunks):
        status, hdrs, body, trailers = await run_asgi(self.app, http_method, url, headers, chunks or [b""])
        return pyqwest.FullResponse(status, pyqwest.Headers(hdrs), unpack(hdrs, b"".join(body)), pyqwest.Headers(trailers))

    def stream(self, method, url, headers=None, content=None, **kw):
        return LoopCM(self, method, url, headers, content)


class LoopCM:
    __identity__ = True

    def __init__(self, http, *a):
        self.http, self.a = http, a

    async def __aenter__(self):
        method, url, headers, content = self.a
        chunks = []
        async for x in content:
            chunks.append(x)
        status, hdrs, body, trailers = await run_asgi(self.http.app, method, url, headers, rechunk(chunks, self.http.how) or [b""])
        return Resp(status, hdrs, achunks(rechunk(body, self.http.how)), trailers)

    async def __aexit__(self, *a):
        return None


class LoopHttpSync(pyqwest.SyncClient):
    __identity__ = True

    def __init__(self, app, how):
        self.app, self.how = app, how

    def get(self, url, headers=None, **kw):
        return self.unary("GET", url, headers, [])

    def post(self, url, headers=None, content=None, **kw):
        return self.unary("POST", url, headers, [content])

    def unary(self, http_method, url, headers, chunks):
        status, hdrs, body, trailers = run_wsgi_loop(self.app, http_method, url, headers, chunks)
        return pyqwest.FullResponse(status, pyqwest.Headers(hdrs), unpack(hdrs, b"".join(body)), pyqwest.Headers(trailers))

    def stream(self, method, url, headers=None, content=None, **kw):
        return LoopCMSync(self, method, url, headers, content)


class LoopCMSync:
    __identity__ = True

    def __init__(self, http, *a):
        self.http, self.a = http, a

    def __enter__(self):
        method, url, headers, content = self.a
        chunks = []
        for x in content:
            chunks.append(x)
        status, hdrs, body, trailers = run_wsgi_loop(self.http.app, method, url, headers, rechunk(chunks, self.http.how))
        return Resp(status, hdrs, iter(rechunk(body, self.http.how)), trailers)

    def __exit__(self, *a):
        return None


# ------------------------------------------------------------------------------------------ the caller
async def reqs(n):
    for i in range(n):
        yield REQS[i]


def reqs_s(n):
    for i in range(n):
        yield REQS[i]


def response(r):
    if W.got >= len(RESP) or r is not RESP[W.got]:
        __violation__("C20.response", "the caller does not get the service's messages once each and in order")
    W.got = W.got + 1


def judge(error, meta, n_req):
    """Compares what the caller got with what the service did."""
    outcome = CFG["outcome"]
    if error is not None and not isinstance(error, ConnectError):
        __violation__("C07.type", "the caller gets an exception that is not a ConnectError")
        __prune__()
    if CFG["unknown"]:
        # the server does not know this compression: a definite error, and the service never sees undecoded data
        if error is None or error.code is not Code.UNIMPLEMENTED:
            __violation__("C11.unknown", "a request in a compression the server does not know is not answered with unimplemented")
        if W.calls and W.seen:
            __violation__("C11.unknown-seen", "a request message in an unknown compression reaches the service")
        __cover__("unknown compression compared")
        return
    if W.calls != 1:
        __violation__("C20.calls", f"the service function was called {W.calls} times for one call")
        __prune__()
    if W.seen != n_req:
        __violation__("C20.request", "the service does not see every request message of the caller")
    if W.got != W.sent and not (error is not None and outcome != "ok" and CFG["kind"] in ("unary", "client")):
        __violation__("C20.response", "the caller does not get every message of the service")
    if outcome == "ok":
        if error is not None:
            __violation__("C20.failed", "the call fails although the service succeeded")
            __prune__()
        __cover__("success compared", W.got)
    else:
        if error is None:
            __violation__("C09.swallowed", "the caller sees a success although the service failed")
            __prune__()
        if outcome == "other":
            if isinstance(W.error, ConnectError):
                if error.code is not W.error.code:
                    __violation__("C09.code", "the code of an application's own kind of ConnectError does not reach the caller")
                if error.message != W.error.message:
                    __violation__("C10.message", "the message of an application's own kind of ConnectError does not reach the caller")
                __cover__("error subclass compared")
            elif error.code is not Code.UNKNOWN:
                __violation__("C09.code", "an unexpected exception does not reach the caller as unknown")
        else:
            if error.code is not W.error.code:
                __violation__("C09.code", f"code {W.error.code.value} of the service reaches the caller as {error.code.value}")
            if error.message != W.error.message:
                __violation__("C10.message", "the error message of the service does not reach the caller unchanged")
            ds = list(error.details)
            if len(ds) != len(W.error.details):
                __violation__("C10.details", "the caller does not get as many error details as the service sent")
                __prune__()
            for i in range(len(ds)):
                if ds[i].type_name != W.error.details[i].type_name or ds[i].message_bytes != W.error.details[i].message_bytes:
                    __violation__("C10.details", "an error detail does not reach the caller unchanged")
            __cover__("error compared", error.code.value)
    if CFG["meta"]:
        if list(meta.headers.getall("x-head")) != [RH1, RH2]:
            __violation__("C17.headers", "a response header of the service does not reach the caller")
        if list(meta.trailers.getall("x-trail")) != [RT1, RT2] or list(meta.trailers.getall("x-second")) != [RT2]:
            __violation__("C17.trailers", "a response trailer of the service does not reach the caller")
        if list(meta.headers.getall("x-trail")) != [] or list(meta.trailers.getall("x-head")) != []:
            __violation__("C17.mixed", "a response trailer shows up as a header or the other way round")
        __cover__("metadata compared")


def caller_headers():
    if CFG["headers"] == "mapping":
        return {"X-Req": QH1}
    if CFG["headers"] == "reserved":
        r = {"X-Req": QH1, "Content-Type": "text/plain", "Connect-Protocol-Version": "9", "TE": "zz"}
        r[ENC_HDR[proto_of()].upper()] = "zz"
        r[ACC_HDR[proto_of()]] = "zz"
        return r
    h = Headers()
    h.add("x-req", QH1)
    if not CFG["sync"]:
        h.add("x-req", QH2)
    return h


def setup(kind, proto, send, accept, outcome, headers, sync):
    CFG["kind"], CFG["outcome"], CFG["headers"], CFG["sync"] = kind, outcome, headers, sync
    CFG["proto"], CFG["send"], CFG["accept"] = proto, send, list(accept)
    CFG["unknown"] = send not in (None, "gzip", "br")
    kw = {"codec": LoopCodec("proto"), "protocol": PROTO[proto], "send_compression": LoopComp(send) if send else None,
          "accept_compression": [LoopComp(x) for x in accept]}
    srv = {"codecs": [LoopCodec("json"), LoopCodec("proto")], "compressions": [LoopComp("gzip"), LoopComp("br")]}
    return kw, srv


async def loop(kind, proto, send, accept, outcome, headers="headers", how="whole", get=False):
    kw, srv = setup(kind, proto, send, accept, outcome, headers, False)
    m = method(IdempotencyLevel.NO_SIDE_EFFECTS if get else IdempotencyLevel.UNKNOWN)
    app = asgi_app(kind, H[kind], m, **srv)
    cl = ConnectClient("http://h", http_client=LoopHttp(app, how), **kw)
    error = None
    ch = caller_headers() if headers else None
    before = list(ch.items()) if headers else None
    n = 1
    if kind in ("client", "bidi"):
        n = __choose__(3, "requests")
    with ResponseMetadata() as meta:
        try:
            if kind == "unary":
                response(await cl.execute_unary(request=REQS[0], method=m, headers=ch, use_get=get))
            elif kind == "client":
                response(await cl.execute_client_stream(request=reqs(n), method=m, headers=ch))
            elif kind == "server":
                async for r in cl.execute_server_stream(request=REQS[0], method=m, headers=ch):
                    response(r)
            else:
                async for r in cl.execute_bidi_stream(request=reqs(n), method=m, headers=ch):
                    response(r)
        except Exception as e:
            error = e
    if headers and list(ch.items()) != before:
        __violation__("C18.mutated", "the headers object of the caller is changed by the call")
    judge(error, meta, n)


def loop_s(kind, proto, send, accept, outcome, headers="headers", how="whole", get=False):
    kw, srv = setup(kind, proto, send, accept, outcome, headers, True)
    m = method(IdempotencyLevel.NO_SIDE_EFFECTS if get else IdempotencyLevel.UNKNOWN)
    app = wsgi_app(kind, H_S[kind], m, **srv)
    cl = ConnectClientSync("http://h", http_client=LoopHttpSync(app, how), **kw)
    error = None
    ch = caller_headers() if headers else None
    before = list(ch.items()) if headers else None
    n = 1
    if kind in ("client", "bidi"):
        n = __choose__(3, "requests")
    with ResponseMetadata() as meta:
        try:
            if kind == "unary":
                response(cl.execute_unary(request=REQS[0], method=m, headers=ch, use_get=get))
            elif kind == "client":
                response(cl.execute_client_stream(request=reqs_s(n), method=m, headers=ch))
            elif kind == "server":
                for r in cl.execute_server_stream(request=REQS[0], method=m, headers=ch):
                    response(r)
            else:
                for r in cl.execute_bidi_stream(request=reqs_s(n), method=m, headers=ch):
                    response(r)
        except Exception as e:
            error = e
    if headers and list(ch.items()) != before:
        __violation__("C18.mutated", "the headers object of the caller is changed by the call")
    judge(error, meta, n)


__precise__(one, frames_of, payload_of, message_in, tap_request, tap_response, split, rechunk, path_of, Exchange, Events, ListInput, unpack, judge, run_asgi, run_wsgi_loop, LoopCM, LoopCMSync, LoopHttp, LoopHttpSync)
