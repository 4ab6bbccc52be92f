"""Both servers give the same answer to the same request."""

import struct

from server import *

__paths__(3000)
HOOKS["json"] = lambda data: {}

MESSAGE = __opaque__("message of the error", "str")
VALUE = __opaque__("value of a header", "str")
REPLY = __opaque__("encoded response", "bytes")
ENC = {"unary": "content-encoding", "connect": "connect-content-encoding", "grpc": "grpc-encoding", "grpc-web": "grpc-encoding"}
ACC = {"unary": "accept-encoding", "connect": "connect-accept-encoding", "grpc": "grpc-accept-encoding", "grpc-web": "grpc-accept-encoding"}


class State:
    __identity__ = True

    def __init__(self):
        self.saw = []
        self.behaviour = "fine"


S = State()


class DCodec:
    __identity__ = True

    def __init__(self, name):
        self._name = name

    def name(self):
        return self._name

    def encode(self, message):
        if S.behaviour == "response cannot be encoded":
            raise ValueError("encode")
        return REPLY

    def decode(self, data, message_class):
        if b"bad" in bytes(data):
            raise ValueError("decode")
        return Req2(bytes(data))


class DComp:
    __identity__ = True

    def name(self):
        return "gzip"

    def compress(self, data):
        return __fn__("gzip", "bytes", data)

    def decompress(self, data):
        if b"Z" not in bytes(data):
            raise ValueError("decompress")
        return bytes(data)[1:]


class Req2:
    def __init__(self, text):
        self.text = text


def body_of_service(ctx, messages):
    S.saw.append([m.text for m in messages])
    S.saw.append([ctx.timeout_ms is not None, ctx.http_method])
    ctx.response_headers.add("x-head", VALUE)
    ctx.response_trailers.add("x-trail", VALUE)
    if S.behaviour == "error":
        raise ConnectError(Code.ABORTED, MESSAGE)
    if S.behaviour == "exception":
        raise ValueError("boom")


def many():
    return 0 if S.behaviour == "no message" else 2 if S.behaviour == "two messages" else 1


async def f_unary(req, ctx):
    body_of_service(ctx, [req])
    return Res()


async def f_client(reqs, ctx):
    body_of_service(ctx, [x async for x in reqs])
    return Res()


async def f_server(req, ctx):
    if S.behaviour == "error after a message":
        yield Res()
        raise ConnectError(Code.ABORTED, MESSAGE)
    body_of_service(ctx, [req])
    for i in range(many()):
        yield Res()


async def f_bidi(reqs, ctx):
    if S.behaviour == "error after a message":
        yield Res()
        raise ConnectError(Code.ABORTED, MESSAGE)
    body_of_service(ctx, [x async for x in reqs])
    for i in range(many()):
        yield Res()


def s_unary(req, ctx):
    body_of_service(ctx, [req])
    return Res()


def s_client(reqs, ctx):
    body_of_service(ctx, [x for x in reqs])
    return Res()


def s_server(req, ctx):
    if S.behaviour == "error after a message":
        yield Res()
        raise ConnectError(Code.ABORTED, MESSAGE)
    body_of_service(ctx, [req])
    for i in range(many()):
        yield Res()


def s_bidi(reqs, ctx):
    if S.behaviour == "error after a message":
        yield Res()
        raise ConnectError(Code.ABORTED, MESSAGE)
    body_of_service(ctx, [x for x in reqs])
    for i in range(many()):
        yield Res()


FN = {"unary": f_unary, "client": f_client, "server": f_server, "bidi": f_bidi}
FN_S = {"unary": s_unary, "client": s_client, "server": s_server, "bidi": s_bidi}


class Whole:
    __identity__ = True

    def __init__(self, data):
        self.parts = [data[:3], data[3:]] if len(data) > 3 else [data]

    async def __call__(self):
        if self.parts:
            d = self.parts.pop(0)
            return {"type": "http.request", "body": d, "more_body": len(self.parts) > 0}
        return {"type": "http.disconnect"}


class Pieces:
    __identity__ = True

    def __init__(self, data):
        self.parts = [data[:3], data[3:]] if len(data) > 3 else [data]

    def read(self, n=-1):
        if self.parts and n is not None and n < 0:
            d = b"".join(self.parts)
            self.parts = []
            return d
        return self.parts.pop(0) if self.parts else b""


class Watch:
    __identity__ = True

    def __init__(self):
        self.status = None
        self.headers = []
        self.parts = []
        self.trailers = []

    async def __call__(self, message):
        if message["type"] == "http.response.start":
            self.status = message["status"]
            self.headers = [(k.decode().lower(), v.decode()) for k, v in message["headers"]]
        elif message["type"] == "http.response.body":
            self.parts.append(message.get("body", b""))
        elif message["type"] == "http.response.trailers":
            self.trailers = [(k.decode().lower(), v.decode()) for k, v in message["headers"]]

    def start(self, status, headers, exc_info=None):
        self.status = int(status.split(" ")[0])
        self.headers = [(k.lower(), v) for k, v in headers]

    def chunk(self, data):
        self.parts.append(data)

    def trailing(self, headers):
        self.trailers = [(k.lower(), v) for k, v in headers]


def frame(data, flag=0):
    return struct.pack(">BI", flag, len(data)) + data


def choices(kind, p):
    """What may differ from an ordinary request, by aspect."""
    c = {
        "method": ["GET", "PUT", "OPTIONS", "HEAD"],
        "content type": ["application/json", "application/nonsense", "text/plain", "application/" + "; charset=utf-8", None, "application/connect+proto" if p == "unary" else "application/proto", "application/grpc", "APPLICATION/PROTO"],
        "encoding": ["gzip", "br", "identity", "GZIP", ""],
        "accept": ["gzip", "br, gzip", "identity", "*"],
        "timeout": ["1000" if p in ("unary", "connect") else "1000m", "soon", "-1", "", "99999999999999"],
        "version": [None, "2"],
        "behaviour": ["error", "exception", "response cannot be encoded", *(["no message", "two messages", "error after a message"] if kind in ("server", "bidi") else [])],
        "level": ["free of side effects"],
        "path": ["/pkg.Service/Other", "/", "/x/pkg.Service/Method"],
    }
    if p == "unary":
        c["body"] = [b"", b"bad", b"Zgood"]
    else:
        c["body"] = [b"", frame(b"bad"), frame(b"Zgood", 1), frame(b"good", 1), frame(b""), frame(b"", 1), frame(b"good") + frame(b"good"), frame(b"good") + b"\0", frame(b"good")[:7], frame(b"good", 2), frame(b"good", 128)]
    return c


PAIRED = [("encoding", "body"), ("encoding", "accept"), ("accept", "behaviour"), ("behaviour", "body"), ("content type", "encoding"), ("content type", "accept"), ("method", "level")]
QUERIES = ["", "message=good&encoding=proto&connect=v1", "message=&encoding=proto&connect=v1", "encoding=proto&connect=v1", "message=good&connect=v1", "message=good&encoding=nonsense&connect=v1",
           "message=good&encoding=proto&compression=br&connect=v1", "message=Zgood&encoding=proto&compression=gzip&connect=v1", "message=Zgood&encoding=proto&compression=GZIP&connect=v1", "message=&encoding=proto&compression=gzip&connect=v1", "message=good&encoding=proto&compression=&connect=v1", "message=good&encoding=proto&compression=gzip&connect=v1",
           "message=bad&encoding=proto&connect=v1", "message=good&encoding=proto", "message=good&encoding=proto&connect=v2", "message=Z29vZA&encoding=proto&base64=1&connect=v1", "message=!!&encoding=proto&base64=1&connect=v1"]


def pick(kind, proto):
    p = "unary" if kind == "unary" and proto == "connect" else proto
    c = choices(kind, p)
    names = list(c)
    r = {"method": "POST", "content type": ct_of(p), "encoding": None, "accept": None, "timeout": None, "version": "1", "behaviour": "fine", "level": None, "path": PATH, "body": b"good" if p == "unary" else frame(b"good"), "query": ""}
    n = __choose__(len(names) + 1, "what is special")
    if n < len(names):
        a = names[n]
        r[a] = c[a][__choose__(len(c[a]), a)]
        more = [b for b in names[n + 1 :] if (a, b) in PAIRED]
        k = __choose__(len(more) + 1, "what else is special")
        if k > 0:
            b = more[k - 1]
            r[b] = c[b][__choose__(len(c[b]), b)]
    if p == "unary" and r["method"] == "GET":
        r["query"] = QUERIES[__choose__(len(QUERIES), "query")]
    hs = []
    if r["content type"] is not None:
        hs.append(("content-type", r["content type"]))
    if r["encoding"] is not None:
        hs.append((ENC[p], r["encoding"]))
    if r["accept"] is not None:
        hs.append((ACC[p], r["accept"]))
    if r["timeout"] is not None:
        hs.append(("connect-timeout-ms" if p in ("unary", "connect") else "grpc-timeout", r["timeout"]))
    if r["version"] is not None:
        hs.append(("connect-protocol-version", r["version"]))
    return r, hs


def normal(headers):
    """Header lines in the order of their names, those of one name as they come; a length says nothing new."""
    out = {}
    for k, v in headers:
        if k != "content-length":
            out.setdefault(k, []).append(v)
    return out


def judge(r, a, b, saw_a, saw_b):
    if a.status != b.status:
        __violation__("C37.status", f"the same request is answered with {a.status} by the ASGI and {b.status} by the WSGI application")
        return
    if saw_a != saw_b:
        __violation__("C37.service", "the services of the two applications do not see the same:", saw_a, "and", saw_b)
    ha, hb = normal(a.headers), normal(b.headers)
    for k in {**ha, **hb}:
        # The advice of what else to send (Accept-Post) names other forms of the same types.
        if k != "accept-post" and ha.get(k) != hb.get(k):
            __violation__("C37.headers", f"the header {k} of the two answers differs:", ha.get(k), "and", hb.get(k))
    ta, tb = normal(a.trailers), normal(b.trailers)
    for k in {**ta, **tb}:
        if ta.get(k) != tb.get(k):
            __violation__("C37.headers", f"the trailer {k} of the two answers differs:", ta.get(k), "and", tb.get(k))
    # The text of an error is for people to read: only the code (as the status) counts there.
    if (a.status == 200 or saw_a) and b"".join(a.parts) != b"".join(b.parts):
        __violation__("C37.body", "the bodies of the two answers differ:", b"".join(a.parts), "and", b"".join(b.parts))
    __cover__(f"compared {a.status}")


async def same(kind, proto):
    r, hs = pick(kind, proto)
    S.behaviour = r["behaviour"]
    m = method(IdempotencyLevel.NO_SIDE_EFFECTS if r["level"] else IdempotencyLevel.UNKNOWN)
    a, b = Watch(), Watch()
    codecs = [DCodec("proto"), DCodec("json")]
    try:
        app = asgi_app(kind, FN[kind], m, codecs=codecs, compressions=[DComp()])
        await app(scope_of(r["method"], r["path"], hs, r["query"].encode()), Whole(r["body"]), a)
    except Exception as e:
        __note__("raised", e)
    saw_a, S.saw = S.saw, []
    try:
        app = wsgi_app(kind, FN_S[kind], m, codecs=codecs, compressions=[DComp()])
        run_wsgi(app, environ_of(r["method"], r["path"], hs, r["query"], Pieces(r["body"]), trailers=b.trailing, length=str(len(r["body"]))), b.start, on_chunk=b.chunk)
    except Exception as e:
        __note__("raised", e)
    judge(r, a, b, saw_a, S.saw)


__precise__(body_of_service, many, frame, choices, pick, normal, judge, same, State, DCodec, DComp, Whole, Pieces, Watch)
