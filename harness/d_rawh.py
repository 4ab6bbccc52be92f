"""Request headers as an HTTP server hands them over: any bytes, on both servers."""

import struct

from server import *

__paths__(400)

TXT = __opaque__("header value", "str")
RAW = __opaque__("header bytes", "bytes")


class State:
    __identity__ = True

    def __init__(self):
        self.seen = []
        self.first = None


S = State()


class RCodec:
    __identity__ = True

    def name(self):
        return "proto"

    def encode(self, message):
        return b"m"

    def decode(self, data, message_class):
        return Msg()


def look(ctx):
    h = ctx.request_headers
    S.seen.append("x-raw" in h)
    if S.first is not None and h.get("x-text") != S.first:
        __violation__("C18.lost", "a header of the request does not reach the service as sent")
    if not S.seen[-1]:
        __violation__("C18.lost", "a header of the request that holds bytes which are not text does not reach the service")
    __cover__("seen")


async def f_unary(req, ctx):
    look(ctx)
    return Res()


async def f_client(reqs, ctx):
    look(ctx)
    return Res()


async def f_server(req, ctx):
    look(ctx)
    yield Res()


async def f_bidi(reqs, ctx):
    look(ctx)
    yield Res()


def s_unary(req, ctx):
    look(ctx)
    return Res()


def s_client(reqs, ctx):
    look(ctx)
    return Res()


def s_server(req, ctx):
    look(ctx)
    yield Res()


def s_bidi(reqs, ctx):
    look(ctx)
    yield Res()


FN = {"unary": f_unary, "client": f_client, "server": f_server, "bidi": f_bidi}
FN_S = {"unary": s_unary, "client": s_client, "server": s_server, "bidi": s_bidi}
VALUES = [b"caf\xe9", b"\xff", b"", b"plain", None]


class Whole:
    __identity__ = True

    def __init__(self, data):
        self.data = data

    async def __call__(self):
        return {"type": "http.request", "body": self.data, "more_body": False}


class Pieces:
    __identity__ = True

    def __init__(self, data):
        self.data = data

    def read(self, n=-1):
        d = self.data
        self.data = b""
        return d


def body(proto):
    return b"m" if proto == "unary" else struct.pack(">BI", 0, 1) + b"m"


def judge(error):
    if error is not None:
        __violation__("C18.refused", f"a request with a header that is not text fails with {type(error).__name__}")
    elif not S.seen:
        __violation__("C18.refused", "a request with a header that is not text does not reach the service")


async def server(kind, proto):
    v = VALUES[__choose__(len(VALUES), "value")]
    S.first = TXT
    hs = [("content-type", ct_of(proto)), ("x-raw", RAW if v is None else v), ("x-text", TXT)]
    app = asgi_app(kind, FN[kind], method(), codecs=[RCodec()])
    error = None
    try:
        await app(scope_of("POST", PATH, hs, b""), Whole(body(proto)), Send())
    except Exception as e:
        error = e
    judge(error)


def server_s(kind, proto):
    v = VALUES[__choose__(len(VALUES) - 1, "value")]
    S.first = TXT
    hs = [("content-type", ct_of(proto)), ("x-raw", v.decode("latin-1")), ("x-text", TXT)]
    app = wsgi_app(kind, FN_S[kind], method(), codecs=[RCodec()])
    error = None
    try:
        run_wsgi(app, environ_of("POST", PATH, hs, "", Pieces(body(proto)), trailers=SendTrailers()), StartResponse())
    except Exception as e:
        error = e
    judge(error)


__precise__(look, judge, State)
