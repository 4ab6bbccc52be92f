"""Streams that end early: what was held for them is released by the time the call is over."""

import asyncio

from pyqwest import ReadError, StreamError, StreamErrorCode
from server import *

HOOKS["json"] = lambda data: {}
__paths__(600)
CFG = {"kind": "", "proto": "", "sync": False}


class Rec:
    __identity__ = True

    def __init__(self):
        self.entered = 0
        self.exited = 0
        self.end = "ok"  # how the response ends
        self.undecodable = False


R = Rec()


class XCodec:
    __identity__ = True

    def name(self):
        return "proto"

    def encode(self, message):
        return b"x"

    def decode(self, data, message_class):
        if R.undecodable:
            raise ValueError("undecodable")
        return Msg()


def env(p):
    return bytes([0, 0, 0, 0, len(p)]) + p


class Meta:
    __identity__ = True

    async def on_start(self, ctx):
        pass

    async def on_end(self, token, ctx, error):
        pass


# ------------------------------------------------------------------------------------------ the ASGI server
class Srv:
    __identity__ = True

    def __init__(self):
        self.begun = 0  # the service's stream was begun
        self.cleaned = 0  # and cleaned up
        self.inside = 0
        self.pulled = 0  # messages asked for
        self.noticed = None  # how many when the disconnect was noticed
        self.finished = False
        self.last = False
        self.in_sched = False
        self.bad_cleanup = False
        self.faults = 0


S = Srv()


def others():
    """The other tasks of the application may run here."""
    S.in_sched = True
    sched()
    S.in_sched = False


async def pause(where):
    """A point where the service waits."""
    others()
    if S.faults == 0 and __choose__(2, "cancelled " + where):
        S.faults = 1
        raise CancelledError()


def fin():
    S.cleaned = S.cleaned + 1
    if S.cleaned > 1:
        __violation__("C23.cleanup", "the service's stream is cleaned up twice")


async def produce():
    S.begun = S.begun + 1
    try:
        n = __choose__(3, "messages of the service")
        for i in range(n):
            pull()
            await pause("while the service waits")
            yield Res()
        k = __choose__(3, "end of the service")
        if k == 1:
            raise ConnectError(Code.ABORTED, "aborted")
        if k == 2:
            raise KeyError("x")
    finally:
        S.finished = True
        if S.bad_cleanup:
            fin()
            raise ValueError("cleanup")
        await asyncio.sleep(0)
        fin()


def pull():
    S.pulled = S.pulled + 1
    if S.noticed is not None and S.pulled > S.noticed + 1:
        __violation__("C23.disconnect", "the service goes on producing messages although its client is known to be gone")


class Plain:
    """An asynchronous iterator that is no generator."""

    def __init__(self):
        self.n = 0

    def __aiter__(self):
        return self

    async def __anext__(self):
        pull()
        self.n = self.n + 1
        if self.n > 2:
            S.finished = True
            raise StopAsyncIteration
        return Res()


def f_gen(req, ctx):
    return produce()


def f_plain(req, ctx):
    return Plain()


class LeftCodec(XCodec):
    def encode(self, message):
        if S.faults == 0 and __choose__(2, "the response does not encode"):
            S.faults = 1
            raise ValueError("unencodable")
        return b"x"


class LeftRx:
    __identity__ = True

    def __init__(self, body):
        self._body = body

    async def __call__(self):
        b, self._body = self._body, None
        if b is not None:
            return {"type": "http.request", "body": b, "more_body": False}
        if not S.in_sched and S.finished and not S.last:
            __violation__("C23.waits", "the end of the stream waits for the client to disconnect")
        if S.noticed is None:
            S.noticed = S.pulled
            __cover__("disconnect noticed")
        return {"type": "http.disconnect"}


class LeftSend(Send):
    async def __call__(self, msg):
        t = msg["type"]
        if t == "http.response.body" and not msg.get("more_body", False):
            S.last = True
        elif t == "http.response.body":
            if S.noticed is not None and S.pulled > S.noticed:
                __violation__("C23.disconnect", "a message is produced and sent although the client is known to be gone")
            others()
        if S.faults == 0 and not S.last:
            k = __choose__(3, "sending")
            if k:
                S.faults = 1
            if k == 1:
                raise OSError("send")
            if k == 2:
                raise CancelledError()


async def server(kind, proto, what="", icpt=False):
    S.bad_cleanup = what == "bad cleanup"
    app = asgi_app(kind, f_plain if what == "plain" else f_gen, codecs=[LeftCodec()], interceptors=[Meta()] if icpt else [])
    h = [("content-type", ct_of(proto))]
    try:
        await app(scope_of("POST", PATH, h), LeftRx(env(b"x")), LeftSend())
    except Exception as e:
        __note__("raised: " + str(type(e)))
    except CancelledError:
        pass
    if S.cleaned < S.begun:
        __violation__("C23.cleanup", "the request is over but the service's stream was not cleaned up")
    for t in TASKS:
        if t._state == "pending" and not t._cancel:
            __violation__("C23.task", "the request is over but a background task of it is still running")
    __cover__("server over")


# ------------------------------------------------------------------------------------------ clients
END = {"connect": bytes([2, 0, 0, 0, 2]) + b"{}", "grpc": b"", "grpc-web": bytes([128, 0, 0, 0, 16]) + b"grpc-status: 0\r\n"}
ENDS = ["ok", "too many messages", "no message", "cut off", "undecodable message", "bad frame", "reset", "read error", "timeout", "refused", "other content type", "unknown encoding", "no connection"]
ASYNC_ENDS = [*ENDS, "cancelled"]


class CM:
    """The response of the HTTP client: it holds its connection until it is exited."""

    def __init__(self, proto, content):
        self._proto, self._content = proto, content

    def _resp(self, body):
        R.entered = R.entered + 1
        proto = self._proto
        ct = "text/html" if R.end == "other content type" else CT_STREAM[proto]
        h = [("content-type", ct)]
        if R.end == "unknown encoding":
            h.append((ENC_HDR[proto], "mystery"))
        return Resp(500 if R.end == "refused" else 200, h, body, [("grpc-status", "0")] if proto == "grpc" and R.end != "cut off" else [])

    def pieces(self):
        k = R.end
        if k == "refused" or k == "other content type":
            yield b"x"
            return
        if k != "no message":
            R.undecodable = k == "undecodable message"
            yield env(b"x")
        if k == "too many messages" or CFG["kind"] in ("server", "bidi"):
            yield env(b"x")
        if k == "bad frame":
            yield bytes([255, 0, 0, 0, 1]) + b"x"
        if k == "reset":
            raise StreamError("reset", StreamErrorCode.CANCEL)
        if k == "read error":
            raise ReadError("broken")
        if k == "timeout":
            raise TimeoutError("timeout")
        if k == "cancelled":
            raise CancelledError()
        if k != "cut off":
            yield END[self._proto]

    def used(self):
        if R.exited:
            __violation__("C23.used", "a response is read after it was released")

    async def abody(self):
        for c in self.pieces():
            self.used()
            yield c

    def sbody(self):
        for c in self.pieces():
            self.used()
            yield c

    async def __aenter__(self):
        if R.end == "no connection":
            raise OSError("no connection")
        return self._resp(self.abody())

    async def __aexit__(self, *a):
        R.exited = R.exited + 1

    def __enter__(self):
        if R.end == "no connection":
            raise OSError("no connection")
        return self._resp(self.sbody())

    def __exit__(self, *a):
        R.exited = R.exited + 1


async def areq():
    yield Req()


def sreq():
    yield Req()


def leave():
    return __choose__(2, "the caller leaves the stream") == 1


def judge():
    if R.entered > 1:
        __violation__("C23.once", "a call opens more than one response")
    if R.exited < R.entered:
        __violation__("C23.response", f"the call is over but its response is still open ({R.end})")
    if R.exited > R.entered:
        __violation__("C23.response", f"a response is released twice ({R.end})")
    __cover__("client over")


async def client(kind, proto, icpt=False):
    CFG["kind"], CFG["proto"] = kind, proto
    R.end = ASYNC_ENDS[__choose__(len(ASYNC_ENDS), "how the response ends")]
    cl = ConnectClient("http://h", http_client=Http(None, lambda m, u, h, c: CM(proto, c)), codec=XCodec(), protocol=PROTO[proto], interceptors=[Meta()] if icpt else [], send_compression=None)
    try:
        if kind == "unary":
            await cl.execute_unary(request=Req(), method=method())
        elif kind == "client":
            await cl.execute_client_stream(request=areq(), method=method())
        else:
            s = cl.execute_server_stream(request=Req(), method=method()) if kind == "server" else cl.execute_bidi_stream(request=areq(), method=method())
            left = False
            async for m in s:
                if leave():
                    left = True
                    break
            if left:
                await s.aclose()
    except Exception as e:
        __note__("raised: " + str(type(e)))
    except CancelledError as e:
        pass
    judge()


def client_s(kind, proto):
    CFG["kind"], CFG["proto"], CFG["sync"] = kind, proto, True
    R.end = ENDS[__choose__(len(ENDS), "how the response ends")]
    cl = ConnectClientSync("http://h", http_client=HttpSync(None, lambda m, u, h, c: CM(proto, c)), codec=XCodec(), protocol=PROTO[proto], send_compression=None)
    try:
        if kind == "unary":
            cl.execute_unary(request=Req(), method=method())
        elif kind == "client":
            cl.execute_client_stream(request=sreq(), method=method())
        else:
            s = cl.execute_server_stream(request=Req(), method=method()) if kind == "server" else cl.execute_bidi_stream(request=sreq(), method=method())
            left = False
            for m in s:
                if leave():
                    left = True
                    break
            if left:
                s.close()
    except Exception as e:
        __note__("raised: " + str(type(e)))
    judge()


__precise__(judge, leave, Rec, CM, Srv, pull, fin)
