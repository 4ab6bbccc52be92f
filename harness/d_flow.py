"""Streams flow: what was produced or has arrived is passed on before anybody waits for more."""

from server import *

HOOKS["json"] = lambda data: {}
__paths__(600)
PAY = [b"1", b"", b"333"]


class State:
    __identity__ = True

    def __init__(self):
        self.arrived = 0  # messages that have arrived completely
        self.given = 0  # messages that the consumer got
        self.asking = False  # the consumer waits for a message
        self.out = b""  # what was passed on of them
        self.pulling = False  # the transport asks the client for more of the request


S = State()


class FCodec:
    __identity__ = True

    def name(self):
        return "proto"

    def encode(self, message):
        return PAY[message.n - 10]

    def decode(self, data, message_class):
        return Out(len(data))


class FOut(Msg):
    __identity__ = True

    def __init__(self, n):
        self.n = n


MSGS = [FOut(10), FOut(11), FOut(12)]


def env(p, flag=0):
    return bytes([flag, 0, 0, 0, len(p)]) + p


BODY = env(PAY[0]) + env(PAY[1]) + env(PAY[2])
BOUNDS = [6, 11, 19]


def pieces(tail=b""):
    """The body cut anywhere; S.arrived counts what is there."""
    body = BODY + tail
    cuts = [(), (6, 11), (3,), (6,), (8,), (11,), (13,), (3, 8), (6, 13), (8, 18), (1, 2, 7, 12)][__choose__(11, "how the body is cut")]
    at = 0
    for c in cuts + (len(body),):
        n = 0
        for b in BOUNDS:
            if b <= c:
                n += 1
        piece = body[at:c]
        at = c
        yield n, piece


def late():
    __violation__("C30.held", "the next message of a stream is asked for although the one before has not been passed on")


def got(m):
    S.given = S.given + 1
    S.asking = False


def awaited(who):
    """More of the incoming stream is awaited."""
    if not S.asking:
        __violation__("C30.blocks", f"{who} waits for more of a stream although nobody asks for a message")
    elif S.given < S.arrived:
        __violation__("C30.late", f"{who} waits for more of a stream although a message that has arrived was not delivered")
    __cover__("awaited")


class Passing:
    """The service's own messages, each passed on before the next one is asked for."""

    __identity__ = True

    def __init__(self):
        self.n = 0
        self.whole = b""
        self.total = 0

    def next(self):
        if not self.total:
            self.total = __choose__(3, "messages of the producer") + 1
        if S.out != self.whole:
            late()
        if self.n:
            __cover__("passed on")
        S.out = b""
        if self.n >= self.total:
            self.whole = b""
            return None
        m = MSGS[self.n]
        self.whole = env(PAY[self.n])
        self.n = self.n + 1
        return m


P = Passing()


async def f_client(reqs, ctx):
    S.asking = True
    async for r in reqs:
        got(r)
        S.asking = True
    return MSGS[0]


async def f_server(req, ctx):
    while (m := P.next()) is not None:
        yield m


async def f_bidi(reqs, ctx):
    S.asking = True
    async for r in reqs:
        got(r)
        if (m := P.next()) is not None:
            yield m
        S.asking = True
    while (m := P.next()) is not None:
        yield m


def s_client(reqs, ctx):
    S.asking = True
    for r in reqs:
        got(r)
        S.asking = True
    return MSGS[0]


def s_server(req, ctx):
    while (m := P.next()) is not None:
        yield m


def s_bidi(reqs, ctx):
    S.asking = True
    for r in reqs:
        got(r)
        if (m := P.next()) is not None:
            yield m
        S.asking = True
    while (m := P.next()) is not None:
        yield m


class Meta:
    __identity__ = True

    async def on_start(self, ctx):
        pass

    async def on_end(self, token, ctx, error):
        pass

    def on_start_sync(self, ctx):
        pass

    def on_end_sync(self, token, ctx, error):
        pass


class FRx:
    __identity__ = True

    def __init__(self, kind):
        self.kind = kind
        self.it = pieces() if kind != "server" else iter([(1, env(PAY[0]))])
        self.over = False

    async def __call__(self):
        if self.kind != "server":
            awaited("the server")
        nxt = next(self.it, None)
        if nxt is None:
            if self.over:
                return {"type": "http.disconnect"}
            self.over = True
            return {"type": "http.request", "body": b"", "more_body": False}
        S.arrived = nxt[0]
        return {"type": "http.request", "body": nxt[1], "more_body": True}


class FTx(Send):
    async def __call__(self, msg):
        if msg["type"] == "http.response.body":
            S.out = S.out + msg["body"]


async def server(kind, proto, icpt=False):
    fn = {"client": f_client, "server": f_server, "bidi": f_bidi}[kind]
    app = asgi_app(kind, fn, codecs=[FCodec()], compressions=[], interceptors=[Meta()] if icpt else [])
    try:
        await app(scope_of("POST", PATH, [("content-type", ct_of(proto))]), FRx(kind), FTx())
    except Exception as e:
        __violation__("C30.fails", f"a call without any fault fails: {e}")
    __cover__("over")


class FIn:
    __identity__ = True

    def __init__(self, kind):
        self.kind = kind
        self.it = pieces() if kind != "server" else iter([(1, env(PAY[0]))])

    def read(self, n=-1):
        if self.kind != "server":
            awaited("the server")
        nxt = next(self.it, None)
        if nxt is None:
            return b""
        S.arrived = nxt[0]
        return nxt[1]


def server_s(kind, proto, icpt=False):
    fn = {"client": s_client, "server": s_server, "bidi": s_bidi}[kind]
    app = wsgi_app(kind, fn, codecs=[FCodec()], compressions=[], interceptors=[Meta()] if icpt else [])
    tr = []

    def start(status, headers, exc=None):
        pass

    def chunk(b):
        S.out = S.out + b

    try:
        run_wsgi(app, environ_of("POST", PATH, [("content-type", ct_of(proto))], inp=FIn(kind), trailers=tr.append), start, chunk)
    except Exception as e:
        __violation__("C30.fails", f"a call without any fault fails: {e}")
    __cover__("over")


# ------------------------------------------------------------------------------------------ clients
END = {"connect": bytes([2, 0, 0, 0, 2]) + b"{}", "grpc": b"", "grpc-web": bytes([128, 0, 0, 0, 16]) + b"grpc-status: 0\r\n"}


def asked():
    if not S.pulling:
        __violation__("C30.ahead", "the client takes a message of the caller that the transport has not asked for")


async def areq():
    asked()
    while (m := P.next()) is not None:
        yield m
        asked()


def sreq():
    asked()
    while (m := P.next()) is not None:
        yield m
        asked()


class FCM:
    def __init__(self, kind, proto, content):
        self.kind, self.proto, self.content = kind, proto, content

    def resp(self, body):
        return Resp(200, [("content-type", CT_STREAM[self.proto])], body, [("grpc-status", "0")] if self.proto == "grpc" else [])

    def script(self):
        """Pieces of the response; None: the transport asks for more of the request first."""
        one = self.kind in ("unary", "client")
        if one:
            S.pulling = True
            yield None
        first = True
        for n, piece in [(1, env(PAY[0]) + END[self.proto])] if one else pieces(END[self.proto]):
            if not one and not first:
                awaited("the client")
            if not one and (first or self.kind == "bidi"):
                S.pulling = True
                yield None
            first = False
            S.arrived = n
            yield piece
        if not one:
            awaited("the client")

    async def abody(self):
        over = False
        for p in self.script():
            if p is not None:
                yield p
                continue
            while not over:
                try:
                    c = await self.content.__anext__()
                    S.out = S.out + c
                except StopAsyncIteration:
                    over = True
                if self.kind == "bidi" and __choose__(2, "the response goes on"):
                    break
            S.pulling = False

    def sbody(self):
        over = False
        it = iter(self.content)
        for p in self.script():
            if p is not None:
                yield p
                continue
            while not over:
                c = next(it, None)
                if c is None:
                    over = True
                else:
                    S.out = S.out + c
                if self.kind == "bidi" and __choose__(2, "the response goes on"):
                    break
            S.pulling = False

    async def __aenter__(self):
        return self.resp(self.abody())

    async def __aexit__(self, *a):
        pass

    def __enter__(self):
        return self.resp(self.sbody())

    def __exit__(self, *a):
        pass


async def client(kind, proto, icpt=False):
    cl = ConnectClient("http://h", http_client=Http(None, lambda m, u, h, c: FCM(kind, proto, c)), codec=FCodec(), protocol=PROTO[proto], interceptors=[Meta()] if icpt else [], send_compression=None)
    try:
        if kind == "client":
            await cl.execute_client_stream(request=areq(), method=method())
        else:
            s = cl.execute_server_stream(request=MSGS[0], method=method()) if kind == "server" else cl.execute_bidi_stream(request=areq(), method=method())
            S.asking = True
            async for m in s:
                got(m)
                S.asking = True
    except Exception as e:
        __violation__("C30.fails", f"a call without any fault fails: {e}")
    __cover__("over")


def client_s(kind, proto, icpt=False):
    cl = ConnectClientSync("http://h", http_client=HttpSync(None, lambda m, u, h, c: FCM(kind, proto, c)), codec=FCodec(), protocol=PROTO[proto], interceptors=[Meta()] if icpt else [], send_compression=None)
    try:
        if kind == "client":
            cl.execute_client_stream(request=sreq(), method=method())
        else:
            s = cl.execute_server_stream(request=MSGS[0], method=method()) if kind == "server" else cl.execute_bidi_stream(request=sreq(), method=method())
            S.asking = True
            for m in s:
                got(m)
                S.asking = True
    except Exception as e:
        __violation__("C30.fails", f"a call without any fault fails: {e}")
    __cover__("over")


__precise__(State, Passing, pieces, FCM, got, awaited)
