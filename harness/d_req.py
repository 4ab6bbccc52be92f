"""Requests that break off, on both servers: what the service function gets to see."""

import struct

from server import *

__paths__(400)
CFG = {"kind": "", "proto": "", "length": False}
P1 = __opaque__("payload 1", "bytes")
P2 = __opaque__("payload 2", "bytes")
P3 = __opaque__("partial payload", "bytes")


class State:
    __identity__ = True

    def __init__(self):
        self.complete = []  # payloads of the complete messages sent
        self.broken = None  # how the request broke off
        self.last = False  # nothing follows the piece of a plain body that is sent now
        self.whole = False  # the request was sent in full
        self.seen = []  # messages the service function saw
        self.calls = 0
        self.done = False  # the service function saw the normal end of the request


S = State()


class ReqCodec:
    __identity__ = True

    def name(self):
        return "proto"

    def encode(self, message):
        return __fn__("encode", "bytes", message)

    def decode(self, data, message_class):
        return __fn__("decode", "obj:Msg", data)


class ReqComp:
    __identity__ = True

    def name(self):
        return "gzip"

    def compress(self, data):
        return __fn__("compress", "bytes", data)

    def decompress(self, data):
        u = __unfn__(data, "compress")
        return u[0] if u is not None else __fn__("decompress", "bytes", data)


def env(p, c=False):
    p = __fn__("compress", "bytes", p) if c else p
    return struct.pack(">BI", 1 if c else 0, len(p)) + p


def saw(m):
    i = len(S.seen)
    if i >= len(S.complete) or m is not __fn__("decode", "obj:Msg", S.complete[i]):
        __violation__("C05.extra", "the service function sees a message that is not a complete message of the request")
        __prune__()
    S.seen.append(m)


def called():
    S.calls = S.calls + 1


def ended():
    S.done = True
    if S.broken is not None:
        __violation__("C05.complete", f"the service function sees a normal end of a request that broke off ({S.broken})")
    elif not S.whole:
        __violation__("C05.early", "the service function sees the end of a request that is still being sent")
    elif len(S.seen) != len(S.complete):
        __violation__("C05.lost", "the service function sees the end of a request before all its messages")
    __cover__("ended")


def single(m):
    saw(m)
    called()
    if S.broken is not None:
        __violation__("C05.complete", f"the service function runs for a request that broke off ({S.broken})")
    elif not S.whole:
        __violation__("C05.early", "the service function runs for a request that is still being sent")
    elif len(S.complete) != 1:
        __violation__("C05.single", "the service function runs for a request without exactly one message")
    __cover__("ended")


async def f_unary(req, ctx):
    single(req)
    return Res()


async def f_client(reqs, ctx):
    called()
    async for r in reqs:
        saw(r)
    ended()
    return Res()


async def f_server(req, ctx):
    single(req)
    yield Res()


async def f_bidi(reqs, ctx):
    called()
    async for r in reqs:
        saw(r)
    ended()
    yield Res()


def s_unary(req, ctx):
    single(req)
    return Res()


def s_client(reqs, ctx):
    called()
    for r in reqs:
        saw(r)
    ended()
    return Res()


def s_server(req, ctx):
    single(req)
    yield Res()


def s_bidi(reqs, ctx):
    called()
    for r in reqs:
        saw(r)
    ended()
    yield Res()


def script():
    """The pieces of the request body; S says what they amount to."""
    if CFG["proto"] == "unary":
        a, b = b"hello!", b"world"
        S.complete.append(a + b)
        if __choose__(2, "plain body in two pieces"):
            __assume__(len(a) > 0)
            yield a
            __assume__(len(b) > 0)
            S.last = True
            yield b
        else:
            __assume__(len(a) > 0)
            S.last = True
            yield a + b
        return
    for p, c in ((), ((P1, False),), ((P1, False), (P2, True)), ((P1, True), (P2, False)))[__choose__(4, "messages")]:
        S.complete.append(p)
        yield env(p, c)
    t = __choose__(3, "tail")
    if t:
        S.broken = "inside an envelope"
        yield b"\0\0\0" if t == 1 else struct.pack(">BI", 0, len(P3) + 7) + P3


class Rx:
    __identity__ = True

    def __init__(self):
        self.it = script()
        self.state = "body"

    async def __call__(self):
        if self.state == "body":
            c = next(self.it, None)
            if c is not None:
                # the request may break off here: everything sent so far is all there is
                k = __choose__(4, "receive")
                if k == 0:
                    return {"type": "http.request", "body": c, "more_body": True}
                S.broken = ["", "disconnect", "cancelled", "receive fails"][k]
                self.state = "gone"
                if k == 1:
                    return {"type": "http.disconnect"}
                if k == 2:
                    raise CancelledError()
                raise OSError("receive")
            k = __choose__(4, "end of request")
            self.state = "gone"
            if k == 1:
                S.broken = "disconnect"
                return {"type": "http.disconnect"}
            S.whole = True
            if k == 0:
                return {"type": "http.request", "body": b"", "more_body": False}
            if k == 2:
                return {"type": "http.request"}
            return {"type": "http.request", "body": b""}
        return {"type": "http.disconnect"}


async def request(kind, proto):
    CFG["kind"], CFG["proto"] = kind, proto
    fn = {"unary": f_unary, "client": f_client, "server": f_server, "bidi": f_bidi}[kind]
    app = asgi_app(kind, fn, codecs=[ReqCodec()], compressions=[ReqComp()])
    scope = scope_of("POST", PATH, [("content-type", ct_of(proto))] + ([(ENC_HDR[proto], "gzip")] if proto != "unary" else []))
    try:
        await app(scope, Rx(), Send())
    except BaseException as e:
        __cover__("escaped")
    finish()


def finish():
    if S.calls > 1:
        __violation__("C05.calls", "one request runs the service function twice")
    if S.whole and S.broken is None and not S.calls and len(S.complete) == 1:
        __violation__("C05.refused", "a complete request does not reach the service function")


class In:
    """wsgi.input: a read gives at most the size asked for, nothing at the end of what arrived."""

    __identity__ = True

    def __init__(self):
        self.it = script()
        self.gone = False

    def read(self, n=-1):
        if self.gone:
            return b""
        c = next(self.it, None)
        if c is None:
            self.gone = True
            S.whole = True
            return b""
        k = __choose__(3, "read")
        if k == 0:
            if S.last:
                S.whole = True
            return c
        self.gone = True
        if k == 1:
            __assume__(CFG["length"])
            S.broken = "fewer bytes than declared"
            return b""
        S.broken = "read fails"
        raise OSError("read")


def request_s(kind, proto, length=False):
    """length: the request declares its length, which for a plain body tells a broken one from a whole one."""
    CFG["kind"], CFG["proto"], CFG["length"] = kind, proto, length
    fn = {"unary": s_unary, "client": s_client, "server": s_server, "bidi": s_bidi}[kind]
    app = wsgi_app(kind, fn, codecs=[ReqCodec()], compressions=[ReqComp()])
    env = environ_of("POST", PATH, [("content-type", ct_of(proto))] + ([(ENC_HDR[proto], "gzip")] if proto != "unary" else []), "", In(), trailers=SendTrailers(), length="11" if length else None)
    try:
        run_wsgi(app, env, StartResponse())
    except BaseException as e:
        __cover__("escaped")
    finish()


__precise__(script, saw, single, ended, finish, Rx, In, State)
