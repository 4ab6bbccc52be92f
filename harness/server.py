"""Server-side world: service functions with every outcome, and a monitor of what goes out on the wire."""

from env import *


class World:
    """What the service did; the monitors compare the response against it."""

    __identity__ = True

    def __init__(self):
        self.reset()

    def reset(self):
        self.calls = 0  # times the service function was entered
        self.outcome = "pending"  # pending, ok, connect, other, cancel, closed, encode
        self.error = None
        self.sent = 0  # messages handed over for sending
        self.got = 0  # messages seen on the wire
        self.disconnected = False
        self.cancelled = False
        self.meta = False  # response metadata was set before the response started
        self.req_end = False  # the service saw the end of the request stream
        self.read_fault = False


W = World()


class Out(Msg):
    __identity__ = True

    def __init__(self, n):
        self.n = n


RES = [Out(0), Out(1), Out(2)]
ERR_MSG = __opaque__("error message", "str")
HV = __lacks__(__opaque__("response header value", "str"), " \t\r\n")
TV = __lacks__(__opaque__("response trailer value", "str"), " \t\r\n")
META = [False]  # True: response headers and trailers; "status": also a trailer named grpc-status
TASKS = []


def sched():
    """Other tasks of the application may run here."""
    for t in TASKS:
        if t._state == "pending" and __choose__(2, "another task runs"):
            t._run()


HOOKS["new_task"] = TASKS.append
FAULTS = ["ok", "connect", "other", "cancel"]


def outcome():
    k = FAULTS[__choose__(len(FAULTS), "service outcome")]
    __note__("service: " + k)
    W.outcome = k
    if k == "connect":
        W.error = ConnectError(Code.NOT_FOUND, ERR_MSG)
        raise W.error
    if k == "other":
        W.error = ValueError(ERR_MSG)
        raise W.error
    if k == "cancel":
        W.cancelled = True
        raise CancelledError()


def meta(ctx):
    if META[0]:
        ctx.response_headers["x-head"] = HV
        ctx.response_headers.add("x-head", HV)
        ctx.response_trailers["x-trail"] = TV
        ctx.response_trailers.add("x-trail", TV)
        if META[0] == "status":
            ctx.response_trailers["grpc-status"] = "0"
        W.meta = True


def saw(r):
    pass


async def h_unary(req, ctx):
    W.calls = W.calls + 1
    meta(ctx)
    outcome()
    W.sent = 1
    return RES[0]


async def h_client(reqs, ctx):
    W.calls = W.calls + 1
    meta(ctx)
    async for r in reqs:
        saw(r)
    W.req_end = True
    outcome()
    W.sent = 1
    return RES[0]


async def h_server(req, ctx):
    W.calls = W.calls + 1
    meta(ctx)
    n = __choose__(3, "responses")
    try:
        for i in range(n):
            W.sent = i + 1
            yield RES[i]
    except GeneratorExit:
        W.outcome = "closed"
        raise
    outcome()


async def h_bidi(reqs, ctx):
    W.calls = W.calls + 1
    meta(ctx)
    try:
        async for r in reqs:
            saw(r)
            if W.sent < 2:
                W.sent = W.sent + 1
                yield RES[W.sent - 1]
    except GeneratorExit:
        W.outcome = "closed"
        raise
    W.req_end = True
    outcome()


def h_unary_s(req, ctx):
    W.calls = W.calls + 1
    meta(ctx)
    outcome()
    W.sent = 1
    return RES[0]


def h_client_s(reqs, ctx):
    W.calls = W.calls + 1
    meta(ctx)
    for r in reqs:
        saw(r)
    W.req_end = True
    outcome()
    W.sent = 1
    return RES[0]


def h_server_s(req, ctx):
    W.calls = W.calls + 1
    meta(ctx)
    n = __choose__(3, "responses")
    try:
        for i in range(n):
            W.sent = i + 1
            yield RES[i]
    except GeneratorExit:
        W.outcome = "closed"
        raise
    outcome()


def h_bidi_s(reqs, ctx):
    W.calls = W.calls + 1
    meta(ctx)
    try:
        for r in reqs:
            saw(r)
            if W.sent < 2:
                W.sent = W.sent + 1
                yield RES[W.sent - 1]
    except GeneratorExit:
        W.outcome = "closed"
        raise
    W.req_end = True
    outcome()


H = {"unary": h_unary, "client": h_client, "server": h_server, "bidi": h_bidi}
H_S = {"unary": h_unary_s, "client": h_client_s, "server": h_server_s, "bidi": h_bidi_s}


class SrvCodec(Codec):
    """Encoding may fail; decoding gives unknown messages."""

    __identity__ = True

    def __init__(self, name="proto", enc_fail=False, dec_fail=False):
        super().__init__(name, None, dec_fail)
        self._enc_fail = enc_fail

    def encode(self, message):
        if self._enc_fail and __choose__(2, "response does not encode"):
            W.outcome = "encode"
            raise ValueError(__event_value__("encode error", "str"))
        return __fn__("encode", "bytes", self._n, message)


# ------------------------------------------------------------------------------------------ wire monitor
class Frames:
    """Splits a byte stream into envelopes."""

    __identity__ = True

    def __init__(self):
        self.buf = b""

    def feed(self, data):
        self.buf = self.buf + data
        out = []
        while len(self.buf) >= 5:
            n = int.from_bytes(self.buf[1:5], "big")
            if len(self.buf) < 5 + n:
                break
            out.append((self.buf[0], self.buf[5:5 + n]))
            self.buf = self.buf[5 + n:]
        return out


def header(headers, name):
    r = []
    for k, v in headers:
        if k.lower() == name:
            r.append(v)
    return r


def text(x):
    return x.decode() if __kindof__(x) == "bytes" else x


def unframe(flag, data, encoding):
    """The payload of an envelope; None when flag and declared encoding do not allow reading it."""
    if flag & 1:
        u = __unfn__(data, "compress")
        if u is None or not (u[0] == encoding):
            return None
        return u[1]
    return data


def message_index(payload):
    """Which of our messages a payload encodes."""
    u = __unfn__(payload, "encode")
    if u is None:
        return None
    for i in range(len(RES)):
        if u[1] is RES[i]:
            return i
    return None


def parse_web_trailers(data):
    r = []
    for line in data.decode().split("\r\n"):
        if line:
            k, _, v = line.partition(":")
            r.append((k.strip(), v.strip()))
    return r


class Wire:
    """Watches one response in terms of the protocol: start, bytes, finish."""

    __identity__ = True

    def __init__(self, proto, kind):
        self.proto, self.kind = proto, kind
        self.frames = Frames()
        self.ended = False  # the end-of-stream marker went out
        self.failed = None  # it reported an error
        self.encoding = None
        self.status = None
        self.headers = []
        self.started = False
        self.unary = proto == "unary"
        self.end_meta = []
        self.end_error = None
        self.bytes_out = False

    def start(self, status, headers):
        self.started = True
        self.status = status
        self.headers = [(text(k), text(v)) for k, v in headers]
        enc = header(self.headers, ENC_HDR[self.proto])
        if self.unary and not (status == 200):
            return
        if len(enc) != 1:
            __violation__("C11.encoding-header", "a response does not declare its encoding exactly once")
        else:
            self.encoding = enc[0]

    def data(self, body):
        if self.unary:
            if not (self.status == 200):
                return
            self.bytes_out = True
            return
        if __isconst__(body) and len(body) == 0:
            return
        for flag, data in self.frames.feed(body):
            self.frame(flag, data)
        if not (__isconst__(self.frames.buf) and len(self.frames.buf) == 0):
            __violation__("C26.framing", "the response body is not a sequence of whole envelopes")

    def frame(self, flag, data):
        if self.ended:
            __violation__("C04.after-end", "an envelope follows the end of the stream")
        compressed = flag & 1
        if self.encoding == "identity" and compressed:
            __violation__("C11.flag", "an envelope is marked compressed on a response declared identity")
        payload = unframe(flag, data, self.encoding)
        if payload is None:
            __violation__("C11.flag", "an envelope is marked compressed but not compressed with the declared encoding")
            __prune__()
        if not compressed and __unfn__(data, "compress") is not None:
            __violation__("C11.flag", "a compressed envelope is not marked as compressed")
        end_bit = {"connect": 2, "grpc-web": 128, "grpc": 0}[self.proto]
        if flag & ~(1 | end_bit):
            __violation__("C26.flags", "an envelope carries a flag the protocol does not define")
        if end_bit and flag & end_bit:
            self.ended = True
            if self.proto == "connect":
                self.end_connect(payload)
            else:
                self.end_grpc(parse_web_trailers(payload))
            return
        i = message_index(payload)
        if i is None:
            __violation__("C04.payload", "an envelope does not carry a message of the service")
        elif i != W.got:
            __violation__("C04.order", "messages of the service are lost, repeated or reordered on the wire")
        W.got = W.got + 1
        __cover__("message frame")

    def end_connect(self, payload):
        d = json.loads(payload)
        self.failed = "error" in d
        if self.failed:
            self.end_error = d["error"]
        for k, vs in d.get("metadata", {}).items():
            for v in vs:
                self.end_meta.append((k, v))
        self.verdict()

    def end_grpc(self, trailers):
        st = header(trailers, "grpc-status")
        if len(st) != 1:
            __violation__("C04.status", "the trailers do not carry grpc-status exactly once")
            __prune__()
        self.failed = not (st[0] == "0")
        self.end_error = trailers
        self.end_meta = trailers
        self.verdict()

    def verdict(self):
        __cover__("stream end", self.failed)
        if not self.failed:
            if W.outcome != "ok":
                __violation__("C04.success-end", f"the stream ends as a success although the call did not succeed ({W.outcome})")
            if W.got != W.sent:
                __violation__("C04.lost", "the stream ends as a success before every message of the service was sent")
        elif W.outcome == "ok" and not W.disconnected and not W.cancelled and not W.read_fault:
            __violation__("C04.error-end", "the stream ends with an error although the service succeeded")

    def finish(self, trailers):
        """The body is complete; trailers are given where the transport carries them."""
        if self.unary:
            return
        if self.proto == "grpc":
            if self.ended:
                __violation__("C04.twice", "the stream ends twice")
            if trailers is None:
                __violation__("C04.no-end", "the response completes without its trailers")
            self.ended = True
            self.end_grpc([(text(k), text(v)) for k, v in trailers])
        elif not self.ended:
            __violation__("C04.no-end", "the response completes without an end-of-stream envelope")
        elif trailers is not None:
            __violation__("C04.twice", "trailers follow an end-of-stream envelope")


class WatchSend(Send):
    """ASGI event order plus the wire monitor."""

    def __init__(self, wire, cancel=False):
        super().__init__()
        self.wire = wire
        self._cancel = cancel

    async def __call__(self, msg):
        t = msg["type"]
        if t == "http.response.start":
            if self.state != "none":
                __violation__("C02.start-twice", "http.response.start is sent twice")
            if __kindof__(msg["status"]) != "int":
                __violation__("C02.status", "the status is not a number")
            for k, v in msg.get("headers", ()):
                if __kindof__(k) != "bytes" or __kindof__(v) != "bytes":
                    __violation__("C02.headers", "a header name or value is not a byte string")
        elif t == "http.response.body":
            if self.state != "started":
                __violation__("C02.body", f"http.response.body is sent in state '{self.state}'")
        elif t == "http.response.trailers":
            if self.state != "body done":
                __violation__("C02.trailers", f"http.response.trailers is sent in state '{self.state}'")
        else:
            __violation__("C02.event", "an unknown event is sent")
        sched()
        if self._cancel and not W.cancelled and msg.get("more_body", False) and __choose__(2, "cancelled while sending"):
            W.cancelled = True
            raise CancelledError()
        await super().__call__(msg)

    def on_start(self, msg):
        self.wire.start(msg["status"], msg.get("headers", ()))

    def on_body(self, body, more):
        self.wire.data(body)
        if self.state == "done":
            self.wire.finish(None)

    def on_trailers(self, headers):
        if self.state == "done":
            self.wire.finish(headers)


class WatchReceive(Receive):
    async def __call__(self):
        r = None
        try:
            r = await super().__call__()
        except CancelledError:
            W.cancelled = True
            raise
        if r["type"] == "http.disconnect":
            W.disconnected = True
        return r


class OneMessage:
    """A receive() whose body is exactly one well-formed envelope (or a plain message), then optionally a disconnect."""

    __identity__ = True

    def __init__(self, proto, flag=0, data=b"hello"):
        self.body = data if proto == "unary" else bytes([flag]) + len(data).to_bytes(4, "big") + data
        self.state = "open"

    async def __call__(self):
        if self.state == "open":
            self.state = "ended"
            return {"type": "http.request", "body": self.body, "more_body": False}
        W.disconnected = True
        return {"type": "http.disconnect"}


__precise__(header, text, unframe, message_index, parse_web_trailers, Frames, Wire)
