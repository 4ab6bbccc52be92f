"""The options of clients and applications mean what their documentation says, unset, empty or given."""

import struct

from server import *

__paths__(600)
HOOKS["json"] = lambda data: {"code": "internal", "message": "m"} if S.broken else {}

HUGE = __opaque__("payload of any length", "bytes")
ENC = {"unary": "content-encoding", "connect": "connect-content-encoding", "grpc": "grpc-encoding", "grpc-web": "grpc-encoding"}
ACC = {"unary": "accept-encoding", "connect": "connect-accept-encoding", "grpc": "grpc-accept-encoding", "grpc-web": "grpc-accept-encoding"}
CT = {"unary": "application/", "connect": "application/connect+", "grpc": "application/grpc+", "grpc-web": "application/grpc-web+"}


class State:
    __identity__ = True

    def __init__(self):
        self.broken = False
        self.headers = None
        self.body = None
        self.ran = 0
        self.status = None


S = State()


class OMsg:
    """A message of the library's own runtime that says nothing or something huge."""

    def __init__(self, via=None):
        self.via = via

    def to_binary(self):
        return b"B"

    def to_json(self, *, registry=None, **kw):
        return "J"

    @classmethod
    def from_binary(cls, data, **kw):
        return cls("binary")

    @classmethod
    def from_json(cls, data, **kw):
        return cls("json")


class OCodec:
    __identity__ = True

    def name(self):
        return "own"

    def encode(self, message):
        return b"O"

    def decode(self, data, message_class):
        return OMsg("own")


class OComp:
    __identity__ = True

    def name(self):
        return "br"

    def compress(self, data):
        return __fn__("br", "bytes", data)

    def decompress(self, data):
        return HUGE


def as_container(items):
    """The three ways of giving several things."""
    k = __choose__(3, "container")
    return [list, tuple, iter][k](items)


OMETHOD = MethodInfo(name="Method", service_name="pkg.Service", input=OMsg, output=OMsg, idempotency_level=IdempotencyLevel.UNKNOWN)


# ---------------------------------------------------------------- clients
def sent(headers, body):
    lines = {}
    for k, v in headers.items():
        lines.setdefault(k.lower(), []).append(v)
    S.headers = lines
    S.body = body


def response(p):
    """A response whose message is of any length."""
    ct = S.headers.get("content-type", ["application/proto"])[0]
    if p == "unary":
        return pyqwest.FullResponse(status=200, headers=pyqwest.Headers([("content-type", ct)]), content=HUGE, trailers=pyqwest.Headers())
    chunks = [struct.pack(">BI", 0, len(HUGE)) + HUGE]
    if p == "connect":
        chunks.append(struct.pack(">BI", 2, 2) + b"{}")
    elif p == "grpc-web":
        chunks.append(struct.pack(">BI", 128, 16) + b"grpc-status: 0\r\n")
    return ct, chunks, [("grpc-status", "0")] if p == "grpc" else []


class Chunks:
    def __init__(self, items):
        self.items = items

    def __iter__(self):
        return self

    def __next__(self):
        if not self.items:
            raise StopIteration
        return self.items.pop(0)

    def __aiter__(self):
        return self

    async def __anext__(self):
        if not self.items:
            raise StopAsyncIteration
        return self.items.pop(0)


class Stream:
    def __init__(self, headers, content):
        self.headers = headers
        self.content = content

    def _make(self):
        ct, chunks, trailers = response(S.p)
        return Resp(200, [("content-type", ct)], Chunks(chunks), trailers)

    async def __aenter__(self):
        parts = []
        async for x in self.content:
            parts.append(x)
        sent(self.headers, parts)
        return self._make()

    async def __aexit__(self, *a):
        return None

    def __enter__(self):
        parts = []
        for x in self.content:
            parts.append(x)
        sent(self.headers, parts)
        return self._make()

    def __exit__(self, *a):
        return None


class OHttp(pyqwest.Client):
    __identity__ = True

    def __init__(self):
        pass

    async def post(self, url, headers=None, content=None, timeout=None, **kw):
        S.timeout = timeout
        sent(headers, [content])
        return response("unary")

    def stream(self, method, url, headers=None, content=None, timeout=None, **kw):
        S.timeout = timeout
        return Stream(headers, content)


class OHttpSync(pyqwest.SyncClient):
    __identity__ = True

    def __init__(self):
        pass

    def post(self, url, headers=None, content=None, timeout=None, **kw):
        S.timeout = timeout
        sent(headers, [content])
        return response("unary")

    def stream(self, method, url, headers=None, content=None, timeout=None, **kw):
        S.timeout = timeout
        return Stream(headers, content)


def client_options(kind, proto):
    """Options for a client; says what is to be seen of them."""
    S.p = "unary" if kind == "unary" and proto == "connect" else proto
    kw = {}
    S.accepted = ["gzip"]
    a = __choose__(3, "accepted compressions: unset, empty, given")
    if a == 1:
        kw["accept_compression"] = as_container([])
        S.accepted = []
    elif a == 2:
        kw["accept_compression"] = as_container([OComp()])
        S.accepted = ["br"]
    S.used = "gzip"
    b = __choose__(3, "sent compression: unset, none, given")
    if b == 1:
        kw["send_compression"] = None
        S.used = None
    elif b == 2:
        kw["send_compression"] = OComp()
        S.used = "br"
    S.codec = "proto"
    c = __choose__(3, "codec: unset, none, given")
    if c == 1:
        kw["codec"] = None
    elif c == 2:
        kw["codec"] = OCodec()
        S.codec = "own"
    kw["protocol"] = PROTO[proto]
    if proto == "connect" and __choose__(2, "protocol: unset"):
        del kw["protocol"]
    return kw


def judge_client(error, message):
    if S.headers is None:
        __violation__("C36.call", "a call with legal options is not sent:", error)
        return
    h = S.headers
    if h.get("content-type") != [CT[S.p] + S.codec]:
        __violation__("C36.codec", f"the request is not of the codec {S.codec}:", h.get("content-type"))
    tokens = [t.strip() for v in h.get(ACC[S.p], []) for t in v.split(",")]
    tokens = [t for t in tokens if t and t != "identity"]
    if tokens != S.accepted:
        __violation__("C36.accept", "the accepted compressions are", tokens, "instead of", S.accepted)
    encoding = [v for v in h.get(ENC[S.p], []) if v != "identity"]
    if encoding != ([S.used] if S.used else []):
        __violation__("C36.send", "the request is declared to be compressed with", encoding, "instead of", S.used)
    plain = b"O" if S.codec == "own" else b"B"
    for name in ("gzip", "br"):
        there = False
        for x in S.body:
            if __mentions__(x, __fn__(name, "bytes", plain)):
                there = True
        if there != (name == S.used):
            __violation__("C36.send", f"the request is {'' if there else 'not '}compressed with {name}")
    if S.timeout is not None or "grpc-timeout" in h or "connect-timeout-ms" in h:
        __violation__("C36.unlimited", "a call of a client without a timeout has one")
    if error is not None:
        __violation__("C36.unlimited", "without a limit a response is refused:", error)
    elif message.via != ("own" if S.codec == "own" else "binary"):
        __violation__("C36.codec", f"the response is not read with the codec {S.codec}")
    __cover__("called")


async def areq():
    yield OMsg()


def sreq():
    yield OMsg()


async def client(kind, proto):
    kw = client_options(kind, proto)
    error = r = None
    try:
        cl = ConnectClient("http://h", http_client=OHttp(), **kw)
        if kind == "unary":
            r = await cl.execute_unary(request=OMsg(), method=OMETHOD)
        elif kind == "client":
            r = await cl.execute_client_stream(request=areq(), method=OMETHOD)
        elif kind == "server":
            async for x in cl.execute_server_stream(request=OMsg(), method=OMETHOD):
                r = x
        else:
            async for x in cl.execute_bidi_stream(request=areq(), method=OMETHOD):
                r = x
    except Exception as e:
        error = e
    judge_client(error, r)


def client_s(kind, proto):
    kw = client_options(kind, proto)
    error = r = None
    try:
        cl = ConnectClientSync("http://h", http_client=OHttpSync(), **kw)
        if kind == "unary":
            r = cl.execute_unary(request=OMsg(), method=OMETHOD)
        elif kind == "client":
            r = cl.execute_client_stream(request=sreq(), method=OMETHOD)
        elif kind == "server":
            for x in cl.execute_server_stream(request=OMsg(), method=OMETHOD):
                r = x
        else:
            for x in cl.execute_bidi_stream(request=sreq(), method=OMETHOD):
                r = x
    except Exception as e:
        error = e
    judge_client(error, r)


# ---------------------------------------------------------------- applications
def served(req):
    S.ran = S.ran + 1
    S.via = req.via if req is not None else None


async def f_unary(req, ctx):
    served(req)
    return OMsg()


async def f_client(reqs, ctx):
    m = None
    async for x in reqs:
        m = x
    served(m)
    return OMsg()


async def f_server(req, ctx):
    served(req)
    yield OMsg()


async def f_bidi(reqs, ctx):
    m = None
    async for x in reqs:
        m = x
    served(m)
    yield OMsg()


def s_unary(req, ctx):
    served(req)
    return OMsg()


def s_client(reqs, ctx):
    m = None
    for x in reqs:
        m = x
    served(m)
    return OMsg()


def s_server(req, ctx):
    served(req)
    yield OMsg()


def s_bidi(reqs, ctx):
    m = None
    for x in reqs:
        m = x
    served(m)
    yield OMsg()


FN = {"unary": f_unary, "client": f_client, "server": f_server, "bidi": f_bidi}
FN_S = {"unary": s_unary, "client": s_client, "server": s_server, "bidi": s_bidi}
ENCODINGS = [None, "gzip", "br"]
CODECS = ["proto", "json", "own"]


class Whole:
    __identity__ = True

    def __init__(self, data):
        self.data = data

    async def __call__(self):
        return {"type": "http.request", "body": self.data, "more_body": False}


class Pieces:
    __identity__ = True

    def __init__(self, data):
        self.data = data

    def read(self, n=-1):
        d = self.data
        self.data = b""
        return d


class Watch:
    """What the response says and holds."""

    __identity__ = True

    def __init__(self):
        self.status = None
        self.headers = {}
        self.parts = []

    async def __call__(self, message):
        if message["type"] == "http.response.start":
            self.status = message["status"]
            for k, v in message["headers"]:
                self.headers[k.decode()] = v.decode()
        elif message["type"] == "http.response.body":
            self.parts.append(message.get("body", b""))

    def start(self, status, headers, exc_info=None):
        self.status = int(status.split(" ")[0])
        for k, v in headers:
            self.headers[k.lower()] = v

    def chunk(self, data):
        self.parts.append(data)


def server_options(kind, proto):
    """Options for an application, a request, and what is to become of it."""
    p = S.p = "unary" if kind == "unary" and proto == "connect" else proto
    kw = {}
    known, codecs = ["gzip"], ["proto", "json"]
    a = __choose__(3, "compressions: unset, empty, given")
    if a == 1:
        kw["compressions"] = as_container([])
        known = []
    elif a == 2:
        kw["compressions"] = as_container([OComp()])
        known = ["br"]
    b = __choose__(3, "codecs: unset, none, given")
    if b == 1:
        kw["codecs"] = None
    elif b == 2:
        kw["codecs"] = as_container([OCodec()])
        codecs = ["own"]
    codec = CODECS[__choose__(3, "codec of the request")]
    encoding = ENCODINGS[__choose__(3, "encoding of the request")]
    accept = ENCODINGS[__choose__(3, "encoding accepted")]
    headers = [("content-type", CT[p] + codec)]
    if encoding:
        headers.append((ENC[p], encoding))
    if accept:
        headers.append((ACC[p], accept))
    if encoding == "gzip":
        data = __fn__("gzip", "bytes", HUGE)
    elif encoding == "br":
        data = __fn__("br", "bytes", HUGE)
    else:
        data = HUGE
    body = data if p == "unary" else struct.pack(">BI", 1 if encoding else 0, len(data)) + data
    S.codec_ok = codec in codecs
    S.encoding_ok = encoding is None or encoding in known
    S.codec = codec
    S.answer = accept if accept in known else None
    return kw, headers, body


def judge_server(w, error):
    if error is not None:
        __violation__("C36.call", "the application fails:", error)
    fine = S.codec_ok and S.encoding_ok
    if S.ran and not S.encoding_ok:
        __violation__("C36.compressions", "a request in a compression that the application does not have is served")
    if S.ran and not S.codec_ok:
        __violation__("C36.codecs", "a request in a codec that the application does not have is served")
    if fine and not S.ran:
        __violation__("C36.refused", "a request is refused although its codec and compression are supported and no limit is set; status", w.status)
    if not fine or not S.ran:
        __cover__("refused")
        return
    if S.via != {"proto": "binary", "json": "json", "own": "own"}[S.codec]:
        __violation__("C36.codecs", f"a request in the codec {S.codec} is read with another")
    encoding = w.headers.get(ENC[S.p])
    if encoding == "identity":
        encoding = None
    if encoding != S.answer:
        __violation__("C36.compressions", "the response is compressed with", encoding, "instead of", S.answer)
    plain = {"proto": b"B", "json": b"J", "own": b"O"}[S.codec]
    for name in ("gzip", "br"):
        there = False
        for x in w.parts:
            if __mentions__(x, __fn__(name, "bytes", plain)):
                there = True
        if there != (name == S.answer):
            __violation__("C36.compressions", f"the response is {'' if there else 'not '}compressed with {name}")
    __cover__("served")


async def server(kind, proto):
    kw, headers, body = server_options(kind, proto)
    w = Watch()
    error = None
    try:
        app = asgi_app(kind, FN[kind], OMETHOD, **kw)
        await app(scope_of("POST", PATH, headers, b""), Whole(body), w)
    except Exception as e:
        error = e
    judge_server(w, error)


def server_s(kind, proto):
    kw, headers, body = server_options(kind, proto)
    w = Watch()
    error = None
    try:
        app = wsgi_app(kind, FN_S[kind], OMETHOD, **kw)
        run_wsgi(app, environ_of("POST", PATH, headers, "", Pieces(body), trailers=SendTrailers()), w.start, on_chunk=w.chunk)
    except Exception as e:
        error = e
    judge_server(w, error)


__precise__(as_container, sent, response, client_options, judge_client, served, server_options, judge_server, State, OMsg, OCodec, OComp, Chunks, Stream, OHttp, OHttpSync, Watch)
