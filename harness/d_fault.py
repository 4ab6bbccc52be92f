"""Unexpected failures on both servers: what the caller is told, and what the operator gets to see."""

import json
import struct

from server import *

HOOKS["json"] = few_json
__paths__(400)
TEXT = __opaque__("failure text", "str")
P = [__opaque__("payload 1", "bytes"), __opaque__("payload 2", "bytes")]
BAD = "the fault of the caller"


class Boom(Exception):
    pass


CLASSES = [Boom, ValueError, RuntimeError, KeyError, ConnectionResetError, TimeoutError, NotImplementedError]


class State:
    __identity__ = True

    def __init__(self):
        self.fault = ""
        self.at = 0  # which message the fault concerns
        self.exc = None  # the exception that started the failure
        self.expected = True  # it is a ConnectError
        self.bad = False  # the request could not be read
        self.decoded = 0
        self.encoded = 0
        self.calls = 0
        self.ended = False  # the service function saw a normal end of the request
        self.saw = None  # what it saw instead
        self.seen = 0
        self.body = []


S = State()


def fail(code=False):
    if code:
        S.exc = ConnectError(Code.NOT_FOUND, TEXT)
    else:
        S.expected = False
        S.exc = CLASSES[__choose__(len(CLASSES), "class of exception")](TEXT)
    raise S.exc


class FCodec:
    __identity__ = True

    def name(self):
        return "proto"

    def encode(self, message):
        S.encoded = S.encoded + 1
        if S.fault == "encode" and S.encoded == S.at:
            fail()
        return __fn__("encode", "bytes", message)

    def decode(self, data, message_class):
        S.decoded = S.decoded + 1
        if S.fault == "decode" and S.decoded == S.at:
            S.bad = True
            fail()
        return __fn__("decode", "obj:Msg", data)


class FComp:
    __identity__ = True

    def __init__(self):
        self.n = 0
        self.c = 0

    def name(self):
        return "gzip"

    def compress(self, data):
        self.c = self.c + 1
        if S.fault == "compress" and self.c == S.at:
            fail()
        return __fn__("compress", "bytes", "gzip", data)

    def decompress(self, data):
        self.n = self.n + 1
        if S.fault == "decompress" and self.n == S.at:
            S.bad = True
            fail()
        return __fn__("decompress", "bytes", data)


def called():
    S.calls = S.calls + 1


def service(n):
    """The service function has handed over n messages."""
    if S.fault in ("connect", "other") and n == S.at - 1:
        fail(S.fault == "connect")


async def f_unary(req, ctx):
    called()
    service(0)
    return Res()


async def f_client(reqs, ctx):
    called()
    async for r in reqs:
        S.seen = S.seen + 1
    S.ended = True
    service(0)
    return Res()


async def f_server(req, ctx):
    called()
    service(0)
    yield Res()
    service(1)
    yield Res()
    service(2)


async def f_bidi(reqs, ctx):
    called()
    service(0)
    async for r in reqs:
        S.seen = S.seen + 1
        yield Res()
        service(S.seen)
    S.ended = True


def s_unary(req, ctx):
    called()
    service(0)
    return Res()


def s_client(reqs, ctx):
    called()
    for r in reqs:
        S.seen = S.seen + 1
    S.ended = True
    service(0)
    return Res()


def s_server(req, ctx):
    called()
    service(0)
    yield Res()
    service(1)
    yield Res()
    service(2)


def s_bidi(reqs, ctx):
    called()
    service(0)
    for r in reqs:
        S.seen = S.seen + 1
        yield Res()
        service(S.seen)
    S.ended = True


FN = {"unary": f_unary, "client": f_client, "server": f_server, "bidi": f_bidi}
FN_S = {"unary": s_unary, "client": s_client, "server": s_server, "bidi": s_bidi}


def plan(kind, proto, fault):
    S.fault = fault
    inn, out = 2 if kind in ("client", "bidi") else 1, 2 if kind in ("server", "bidi") else 1
    if fault in ("decode", "decompress"):
        S.at = 1 + __choose__(inn, "message that cannot be read")
    elif fault in ("encode", "compress"):
        S.at = 1 + __choose__(out, "message that cannot be written")
    elif fault in ("connect", "other"):
        S.at = 1 + __choose__(out + 1 if out == 2 else 1, "where the service fails")
    for p in P:
        __assume__(len(p) > 0)
    if proto in ("unary", "get"):
        return [P[0]]
    # every message is sent compressed; both may arrive together
    es = [struct.pack(">BI", 1, len(P[i])) + P[i] for i in range(inn)]
    if inn == 2 and __choose__(2, "messages together"):
        return [es[0] + es[1]]
    return es


def headers(proto):
    if proto == "get":
        return [("accept-encoding", "gzip")]
    return [("content-type", ct_of(proto)), (ENC_HDR[proto], "gzip"), (ACC_HDR[proto], "gzip")]


QUERY = "connect=v1&encoding=proto&message=abc&compression=gzip"


def reported(proto, body, trailers):
    """The error code the caller is told; None for a success."""
    if proto in ("unary", "get"):
        return json.loads(body[0])["code"]
    if proto == "grpc":
        st = header([(text(k), text(v)) for k, v in trailers], "grpc-status")
    else:
        fr = Frames()
        flag, data = fr.feed(body[len(body) - 1])[0]
        data = unframe(flag, data, "gzip")
        if proto == "connect":
            d = json.loads(data)
            return d["error"]["code"] if "error" in d else None
        st = header(parse_web_trailers(data), "grpc-status")
    return "invalid_argument" if len(st) == 1 and st[0] == "3" else "another code"


def judge(kind, proto, status, body, trailers, raised, logged):
    """raised, logged: what the operator's side got (None: nothing)."""
    if S.exc is None:
        if S.fault:
            __violation__("C16.reached", "the failure never happened")
        if raised is not None or logged is not None:
            __violation__("C16.noise", "a call that succeeded is reported to the operator")
        __cover__("fine")
        return
    if S.bad:
        __cover__("unreadable")
        if kind in ("unary", "server"):
            if S.calls:
                __violation__("C29.called", "the service function runs with a request that cannot be read")
        else:
            if S.ended:
                __violation__("C29.end", "the service function sees a normal end of a request that cannot be read")
        if raised is not None or logged is not None:
            __violation__("C29.noise", "a request that cannot be read is reported to the operator as a failure of the server")
        if proto in ("unary", "get") and status != 400:
            __violation__("C29.status", "a request that cannot be read is not answered with status 400")
            return
        if reported(proto, body, trailers) != "invalid_argument":
            __violation__("C29.code", "a request that cannot be read is not reported as invalid_argument")
        return
    if S.expected:
        __cover__("expected")
        if raised is not None or logged is not None:
            __violation__("C16.noise", "an error the service function meant for the caller is reported to the operator")
        return
    __cover__("unexpected")
    if logged is None and raised is None:
        __violation__("C16.silent", "an unexpected failure does not reach the operator")
    elif raised is not None and raised is not S.exc:
        __violation__("C16.other", "the exception raised to the server is not the one that happened")
    elif logged is not None and not __mentions__(logged, TEXT):
        __violation__("C16.text", "what is logged does not tell the failure")


class Out(Send):
    def __init__(self):
        super().__init__()
        self.body = []
        self.trailers = []

    def on_body(self, body, more):
        if not (__isconst__(body) and len(body) == 0):
            self.body.append(body)

    def on_trailers(self, headers):
        self.trailers = headers


class Rx:
    __identity__ = True

    def __init__(self, pieces):
        self.pieces = pieces
        self.n = 0

    async def __call__(self):
        if self.n >= len(self.pieces):
            return {"type": "http.disconnect"}
        self.n = self.n + 1
        return {"type": "http.request", "body": self.pieces[self.n - 1], "more_body": self.n < len(self.pieces)}


async def asgi(kind, proto, fault):
    pieces = plan(kind, proto, fault)
    m = method(IdempotencyLevel.NO_SIDE_EFFECTS) if proto == "get" else method()
    app = asgi_app(kind, FN[kind], m, codecs=[FCodec()], compressions=[FComp()])
    send = Out()
    raised = None
    sc = scope_of("GET", PATH, headers(proto), QUERY.encode()) if proto == "get" else scope_of("POST", PATH, headers(proto))
    try:
        await app(sc, Rx(pieces), send)
    except Exception as e:
        raised = e
    if raised is not None and send.state != "done":
        __violation__("C16.before", "the failure is raised before the caller's response is complete")
        return
    judge(kind, proto, send.status, send.body, send.trailers, raised, None)


class Inp:
    __identity__ = True

    def __init__(self, pieces):
        self.pieces = pieces
        self.n = 0

    def read(self, n=-1):
        self.n = self.n + 1
        return self.pieces[self.n - 1] if self.n <= len(self.pieces) else b""


class Log:
    __identity__ = True

    def __init__(self):
        self.text = None

    def write(self, s):
        self.text = s if self.text is None else self.text + s

    def writelines(self, lines):
        for s in lines:
            self.write(s)

    def flush(self):
        pass


def wsgi(kind, proto, fault):
    pieces = plan(kind, proto, fault)
    m = method(IdempotencyLevel.NO_SIDE_EFFECTS) if proto == "get" else method()
    app = wsgi_app(kind, FN_S[kind], m, codecs=[FCodec()], compressions=[FComp()])
    log, st, sr, body = Log(), SendTrailers(), StartResponse(), []

    def on_chunk(c):
        if not (__isconst__(c) and len(c) == 0):
            body.append(c)

    if proto == "get":
        env = environ_of("GET", PATH, headers(proto), QUERY, Inp([]), log, st)
    else:
        env = environ_of("POST", PATH, headers(proto), "", Inp(pieces), log, st)
    raised = None
    try:
        run_wsgi(app, env, sr, on_chunk)
    except Exception as e:
        raised = e
    if raised is not None:
        __violation__("C16.escaped", "the failure escapes to the WSGI server instead of being answered and logged")
        return
    judge(kind, proto, 400 if text(sr.status).startswith("400") else 0, body, st.headers or [], None, log.text)
