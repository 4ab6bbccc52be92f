"""Error messages and details as other implementations of the protocols write them, and as they read ours."""

import struct
from urllib.parse import unquote

from server import *

__paths__(400)


class State:
    __identity__ = True

    def __init__(self):
        self.json = None


S = State()
HOOKS["json"] = lambda data: S.json

# how a gRPC server may write a message, and what it means
WRITTEN = [("plain", "plain"), ("two words", "two words"), ("two%20words", "two words"), ("1+1", "1+1"), ("1%2B1", "1+1"), ("50%25", "50%"), ("%e2%82%ac", "\u20ac"), ("%E2%82%AC", "\u20ac"),
           ("a%0Ab", "a\nb"), ("%2525", "%25"), ("", ""), ("a=b&c;d", "a=b&c;d")]
# base64 of details, with and without padding
VALUES = [("eA", b"x"), ("eA==", b"x"), ("+/8", b"\xfb\xff"), ("+/8=", b"\xfb\xff"), ("", b""), ("eHl6", b"xyz")]
CT = {"unary": "application/proto", "connect": "application/connect+proto", "grpc": "application/grpc+proto", "grpc-web": "application/grpc-web+proto"}


class MCodec:
    __identity__ = True

    def name(self):
        return "proto"

    def encode(self, message):
        return b"m"

    def decode(self, data, message_class):
        return Msg()


class CM:
    def __init__(self, resp):
        self._resp = resp

    async def __aenter__(self):
        return self._resp

    async def __aexit__(self, *a):
        return None

    def __enter__(self):
        return self._resp

    def __exit__(self, *a):
        return None


def content(data):
    if data:
        yield data


async def acontent(data):
    if data:
        yield data


def error_response(p, make):
    """A response with an error; the second value is what the caller is to see."""
    details = []
    if p in ("unary", "connect"):
        message = WRITTEN[__choose__(len(WRITTEN), "message")][1]
        err = {"code": "not_found", "message": message}
        n = __choose__(3, "details")
        written = []
        for i in range(n):
            v, due = VALUES[__choose__(len(VALUES), "detail")] if i == 0 else VALUES[2]
            written.append({"type": "pkg.T", "value": v, "debug": {"x": 1}} if i == 0 else {"type": "pkg.U", "value": v})
            details.append(("pkg.T" if i == 0 else "pkg.U", due))
        if n or __choose__(2, "empty details"):
            err["details"] = written
        S.json = err if p == "unary" else {"error": err}
        if p == "unary":
            return pyqwest.FullResponse(404, pyqwest.Headers([("content-type", "application/json")]), b"{}", pyqwest.Headers()), message, details
        return Resp(200, [("content-type", CT[p])], make(struct.pack(">BI", 2, 2) + b"{}"), []), message, details
    text, message = WRITTEN[__choose__(len(WRITTEN), "message")]
    trailers = [("grpc-status", "5"), ("grpc-message", text)]
    if text == "" and __choose__(2, "no message"):
        trailers = [("grpc-status", "5")]
    if __choose__(2, "only headers"):
        return Resp(200, [("content-type", CT[p])] + trailers, make(b""), []), message, details
    if p == "grpc":
        return Resp(200, [("content-type", CT[p])], make(b""), trailers), message, details
    sep = [": ", ":"][__choose__(2, "separator")]
    lines = "".join([k + sep + v + "\r\n" for k, v in trailers]).encode()
    return Resp(200, [("content-type", CT[p])], make(struct.pack(">BI", 128, len(lines)) + lines), []), message, details


def judge(error, message, details):
    if not isinstance(error, ConnectError):
        __violation__("C10.message", "an error response of another implementation does not reach the caller as an error")
        __prune__()
    if error.code is not Code.NOT_FOUND:
        __violation__("C09.code", "the code of another implementation's error response does not reach the caller:", error.code.value)
    if error.message != message:
        __violation__("C10.message", "a message written by another implementation reaches the caller as", error.message, "instead of", message)
    got = list(error.details)
    if len(got) != len(details):
        __violation__("C10.details", "the caller does not get the details that another implementation wrote")
        __prune__()
    for i in range(len(got)):
        if got[i].type_name != details[i][0] or bytes(got[i].message_bytes) != details[i][1]:
            __violation__("C10.details", "a detail that another implementation wrote reaches the caller changed")
    __cover__("compared")


def areq():
    return acontent(Msg())


async def client(proto):
    p = "unary" if proto == "connect" and __choose__(2, "unary") == 0 else proto
    resp, message, details = error_response(p, acontent)
    cl = ConnectClient("http://h", http_client=Http(lambda *a: resp, lambda *a: CM(resp)), codec=MCodec(), protocol=PROTO[proto])
    error = None
    try:
        if p == "unary":
            await cl.execute_unary(request=Msg(), method=method())
        else:
            async for x in cl.execute_server_stream(request=Msg(), method=method()):
                pass
    except Exception as e:
        error = e
    judge(error, message, details)


def client_s(proto):
    p = "unary" if proto == "connect" and __choose__(2, "unary") == 0 else proto
    resp, message, details = error_response(p, content)
    cl = ConnectClientSync("http://h", http_client=HttpSync(lambda *a: resp, lambda *a: CM(resp)), codec=MCodec(), protocol=PROTO[proto])
    error = None
    try:
        if p == "unary":
            cl.execute_unary(request=Msg(), method=method())
        else:
            for x in cl.execute_server_stream(request=Msg(), method=method()):
                pass
    except Exception as e:
        error = e
    judge(error, message, details)


# ------------------------------------------------------------------------------------------ what we write
RAISED = ["plain", "two words", " around ", "1+1", "50%", "%20", "\u20ac", "a\nb\r\nc: d", "tab\there", "\x7f", "~!@#"]


class Whole:
    __identity__ = True

    def __init__(self, data):
        self.data = data

    async def __call__(self):
        return {"type": "http.request", "body": self.data, "more_body": False}


class Kept(Send):
    def __init__(self):
        super().__init__()
        self.trailers = []
        self.chunks = []

    def on_start(self, msg):
        pass

    def on_body(self, data, more):
        self.chunks.append(data)

    def on_trailers(self, headers):
        for k, v in headers:
            self.trailers.append((k.decode("latin-1"), v.decode("latin-1")))


class Pieces:
    __identity__ = True

    def __init__(self, data):
        self.data = data

    def read(self, n=-1):
        d = self.data
        self.data = b""
        return d


HEX = "0123456789ABCDEFabcdef"


def percent_decoded(text):
    """What a peer makes of a written message, None when it is not well-formed."""
    if not (text.isascii() and text.isprintable()):
        return None
    for part in text.split("%")[1:]:
        if len(part) < 2 or part[0] not in HEX or part[1] not in HEX:
            return None
    return unquote(text)


def written(proto, trailers, chunks, message):
    if proto == "grpc-web":
        data = b"".join(chunks)
        lines = data[5:].decode("latin-1").split("\r\n")
        trailers = [(x.partition(":")[0].strip().lower(), x.partition(":")[2]) for x in lines if x]
        if len(trailers) != 2:
            __violation__("C10.message", "an error is written as other lines than its status and message", data)
    got = [v.strip(" ") for k, v in trailers if k.lower() == "grpc-message"]
    if len(got) != 1 or percent_decoded(got[0]) != message:
        __violation__("C10.message", "another implementation cannot read the message of an error, which is written", got)
    __cover__("written")


async def a_fail(req, ctx):
    raise ConnectError(Code.NOT_FOUND, S.message)
    yield Msg()


def s_fail(req, ctx):
    raise ConnectError(Code.NOT_FOUND, S.message)
    yield Msg()


async def server(proto):
    S.message = RAISED[__choose__(len(RAISED), "message")]
    send = Kept()
    await asgi_app("server", a_fail, method(), codecs=[MCodec()])(scope_of("POST", PATH, [("content-type", CT[proto])], b""), Whole(struct.pack(">BI", 0, 1) + b"m"), send)
    written(proto, send.trailers, send.chunks, S.message)


def server_s(proto):
    S.message = RAISED[__choose__(len(RAISED), "message")]
    st, chunks = SendTrailers(), []
    app = wsgi_app("server", s_fail, method(), codecs=[MCodec()])
    run_wsgi(app, environ_of("POST", PATH, [("content-type", CT[proto])], "", Pieces(struct.pack(">BI", 0, 1) + b"m"), trailers=st), StartResponse(), chunks.append)
    written(proto, st.headers or [], chunks, S.message)


__precise__(error_response, judge, percent_decoded, written, State, Kept)
