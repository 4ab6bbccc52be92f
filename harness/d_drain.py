"""What a WSGI application leaves of the request body when a call fails."""

import json

from server import *

HOOKS["json"] = few_json
__paths__(400)
T = "what failed"
WHY = ["path", "method", "media", "timeout", "compression", "decode", "decompress", "size", "service", "encode", "surplus", "cut", "trailers", "interceptor", "length", "none"]
HTTP = ["HTTP/1.1", "HTTP/1.0", "HTTP/2"]


class State:
    __identity__ = True

    def __init__(self):
        self.why = ""
        self.failed = False  # the failure has happened
        self.late = 0  # reads after that
        self.reads = 0
        self.encoded = 0
        self.when = 0
        self.calls = 0


S = State()


def fail():
    S.failed = True
    if __choose__(2, "an error with a code"):
        raise ConnectError(Code.NOT_FOUND, T)
    raise ValueError(T)


class DCodec:
    __identity__ = True

    def name(self):
        return "proto"

    def encode(self, message):
        if S.why == "encode" and S.encoded == S.when:
            fail()
        S.encoded = S.encoded + 1
        return b"response"

    def decode(self, data, message_class):
        if S.why == "decode":
            S.failed = True
            raise ValueError("malformed")
        return Msg()


class DComp:
    __identity__ = True

    def name(self):
        return "gzip"

    def compress(self, data):
        return b"Z" + data

    def decompress(self, data):
        if S.why == "decompress":
            S.failed = True
            raise ValueError("not gzip")
        return data[1:]


class DIn:
    """wsgi.input with a body of several pieces."""

    __identity__ = True

    def __init__(self, pieces):
        self.pieces, self.n = pieces, 0

    def read(self, n=-1):
        if S.failed:
            S.late = S.late + 1
        S.reads = S.reads + 1
        if self.n >= len(self.pieces):
            return b""
        self.n = self.n + 1
        return self.pieces[self.n - 1]


def stage(i):
    if S.why == "service" and S.when == i:
        fail()


def d_unary(req, ctx):
    S.calls = S.calls + 1
    stage(0)
    return RES[0]


def d_client(reqs, ctx):
    S.calls = S.calls + 1
    stage(0)
    for r in reqs:
        stage(1)
    stage(2)
    return RES[0]


def d_server(req, ctx):
    S.calls = S.calls + 1
    stage(0)
    yield RES[0]
    stage(1)
    yield RES[1]
    stage(2)


def d_bidi(reqs, ctx):
    S.calls = S.calls + 1
    stage(0)
    for r in reqs:
        yield RES[0]
        stage(1)
    yield RES[1]
    stage(2)


FN = {"unary": d_unary, "client": d_client, "server": d_server, "bidi": d_bidi}


class Refuse:
    __identity__ = True

    def on_start_sync(self, ctx):
        if S.why == "interceptor":
            fail()

    def on_end_sync(self, token, ctx, error):
        pass


def framed(p):
    return bytes([1 if S.why == "decompress" else 0]) + len(p).to_bytes(4, "big") + p


def run(kind, proto):
    why = WHY[__choose__(len(WHY), "what goes wrong")]
    S.why = why
    S.when = __choose__(3, "when") if why in ("service", "encode") else 0
    http = HTTP[__choose__(len(HTTP), "HTTP version")]
    __note__(why + " " + http)
    h = [("content-type", "application/proto" if proto == "unary" else CT_STREAM[proto])]
    if why == "media":
        h = [("content-type", "application/other" if proto == "unary" else CT_STREAM[proto].replace("proto", "other"))]
    if why == "timeout":
        h.append((TMO_HDR[proto], "soon"))
    if why == "compression":
        h.append((ENC_HDR[proto], "unknown"))
    if why == "decompress":
        h.append((ENC_HDR[proto], "gzip"))
    body = b"request"
    if proto != "unary":
        f = framed(body)
        body = f + f if kind in ("client", "bidi") or why == "surplus" else f
        if why == "cut":
            body = body[:-2]
    pieces = [body[:6], body[6:]] if len(body) < 13 else [body[:6], body[6:12], body[12:]]
    length = None
    if __choose__(2, "the length of the body is known"):
        length = str(len(body) + 4 if why == "length" else len(body))
    started = []
    tr = []
    out = Frames()
    ends = []

    def start(status, headers, exc=None):
        started.append(status)

    def chunk(b):
        if proto != "unary" and started[0].startswith("200"):
            for flag, data in out.feed(b):
                ends.append((flag, data))

    app = wsgi_app(kind, FN[kind], codecs=[DCodec()], compressions=[DComp()], interceptors=[Refuse()], read_max_bytes=3 if why == "size" else None)
    inp = DIn(pieces)
    env = environ_of("PUT" if why == "method" else "POST", "/pkg.Service/Other" if why == "path" else PATH, h, inp=inp, length=length, http=http,
                     trailers=None if why == "trailers" else tr.append)
    try:
        run_wsgi(app, env, start, chunk)
    except Exception as e:
        __violation__("C24.raises", "the application raises instead of answering")
        __prune__()
    failed = not started[0].startswith("200")
    if not failed and proto == "connect":
        failed = "error" in json.loads(ends[-1][1])
    elif not failed and proto == "grpc-web":
        failed = header(parse_web_trailers(ends[-1][1]), "grpc-status") != ["0"]
    elif not failed and proto == "grpc":
        failed = header(tr[0], "grpc-status") != ["0"]
    if not failed:
        __cover__("succeeds")
        return
    if http == "HTTP/2":
        __cover__("fails over HTTP/2")
        if S.failed and S.late or why == "path" and S.reads:
            __violation__("C24.waits", "over HTTP/2, a failed call is answered only after reading on in the request")
    else:
        __cover__("fails over HTTP/1")
        if S.late:
            __cover__("rest read")
        if inp.n < len(inp.pieces):
            __violation__("C24.unread", "a call over HTTP/1 is answered with an error and leaves part of the request body unread")
