"""Calls that share an application or a client: each must go as it would alone."""

import asyncio

from __prelude__ import CONTEXTVARS, _Token
from connectrpc.client import ResponseMetadata
from connectrpc.compression import Compression
from connectrpc.errors import ConnectError
from server import *

HOOKS["json"] = lambda data: {}
HOOKS["clock"] = lambda: 0
__paths__(800)
CFG = {"kind": "", "sync": False}


class ICodec:
    __identity__ = True

    def __init__(self, name):
        self._n = name

    def name(self):
        return self._n

    def encode(self, message):
        return self._n.encode() + b":" + message.text

    def decode(self, data, message_class):
        m = Msg()
        m.text = data
        return m


class IComp:
    __identity__ = True

    def __init__(self, name, mark):
        self._n, self._mark = name, mark

    def name(self):
        return self._n

    def compress(self, data):
        return self._mark + data

    def decompress(self, data):
        if not data.startswith(self._mark):
            raise ValueError("not compressed")
        return data[1:]


CODECS = [ICodec("proto"), ICodec("alt")]


def comps():
    return [IComp("gzip", b"Z"), IComp("own", b"Y")]


class Call:
    """One call: what it is made with, and everything that can be observed of it."""

    __identity__ = True

    def __init__(self, tag, proto, codec, comp, fails, timeout, get=False):
        self.tag, self.proto, self.codec, self.comp, self.fails, self.timeout, self.get = tag, proto, codec, comp, fails, timeout, get
        self.reset()

    def reset(self):
        self.seen = []
        self.out = []
        self.other = None  # the call that may run in between
        self.leaves = False  # its client disconnects at some time
        self.host = None


class Now:
    __identity__ = True

    def __init__(self):
        self.calls = []
        self.current = None  # the innermost call that is running
        self.tasks = []  # background tasks of calls whose client disconnects


N = Now()


def new_task(t):
    if N.current is not None and N.current.leaves:
        N.tasks.append(t)


HOOKS["new_task"] = new_task


def variants(kind, proto):
    """The first call, and what the second one may be."""
    a = Call("a", proto, "proto", "gzip", False, 1000)
    k = __choose__(4 if kind == "unary" else 3, "the other call")
    other = "grpc" if proto in ("unary", "connect") else "unary" if kind == "unary" else "connect"
    if k == 0:
        b = Call("b", proto, "alt", "own", False, 2000)
    elif k == 1:
        b = Call("b", other, "proto", None, True, None)
    elif k == 2:
        b = Call("b", proto, "proto", None, True, 2000)
    else:
        b = Call("b", "unary", "alt", None, False, 2000, True)
    if k == 2:
        a, b = b, a
    return a, b


def save():
    saved = [v._value for v in CONTEXTVARS]
    for v in CONTEXTVARS:
        v._value = _Token
    return saved


def restore(saved):
    for i in range(len(CONTEXTVARS)):
        CONTEXTVARS[i]._value = saved[i]


async def turn(q):
    """A point where the other call may run, in a task of its own."""
    for t in N.tasks:
        if t._state == "pending" and __choose__(2, "another task runs"):
            t._run()
    o = q.other
    if o is not None and __choose__(2, "the other call runs") == 1:
        q.other = None
        saved = save()
        await q.host(o)
        restore(saved)


def turn_s(q):
    o = q.other
    if o is not None and __choose__(2, "the other call runs") == 1:
        q.other = None
        saved = save()
        q.host(o)
        restore(saved)


def call_of(ctx):
    tag = ctx.request_headers.get("x-id")
    for q in N.calls:
        if q.tag == tag:
            return q
    __violation__("C22.mixed", "a service function gets the headers of no call that is running")
    __prune__()


def enter(q, ctx):
    q.seen.append(("headers", tuple(sorted([(k, v) for k, v in ctx.request_headers.allitems() if k.startswith("x-")]))))
    q.seen.append(("timeout", ctx.timeout_ms))
    q.seen.append(("method", ctx.method.name, ctx.http_method))
    ctx.response_headers["x-head"] = q.tag
    ctx.response_trailers["x-trail"] = q.tag


def message(text):
    m = Res()
    m.text = text
    return m


def leave(q):
    if q.fails:
        raise ConnectError(Code.ABORTED, "failed " + q.tag)


def saw(q, m):
    q.seen.append(("message", m.text))


async def f_unary(req, ctx):
    q = call_of(ctx)
    enter(q, ctx)
    saw(q, req)
    await turn(q)
    leave(q)
    return message(b"1" + q.tag.encode())


async def f_client(reqs, ctx):
    q = call_of(ctx)
    enter(q, ctx)
    async for r in reqs:
        saw(q, r)
        await turn(q)
    leave(q)
    return message(b"1" + q.tag.encode())


async def f_server(req, ctx):
    q = call_of(ctx)
    enter(q, ctx)
    saw(q, req)
    yield message(b"1" + q.tag.encode())
    await turn(q)
    leave(q)
    yield message(b"2" + q.tag.encode())


async def f_bidi(reqs, ctx):
    q = call_of(ctx)
    enter(q, ctx)
    async for r in reqs:
        saw(q, r)
        await turn(q)
        yield message(b"1" + q.tag.encode())
    leave(q)


def s_unary(req, ctx):
    q = call_of(ctx)
    enter(q, ctx)
    saw(q, req)
    turn_s(q)
    leave(q)
    return message(b"1" + q.tag.encode())


def s_client(reqs, ctx):
    q = call_of(ctx)
    enter(q, ctx)
    for r in reqs:
        saw(q, r)
        turn_s(q)
    leave(q)
    return message(b"1" + q.tag.encode())


def s_server(req, ctx):
    q = call_of(ctx)
    enter(q, ctx)
    saw(q, req)
    yield message(b"1" + q.tag.encode())
    turn_s(q)
    leave(q)
    yield message(b"2" + q.tag.encode())


def s_bidi(reqs, ctx):
    q = call_of(ctx)
    enter(q, ctx)
    for r in reqs:
        saw(q, r)
        turn_s(q)
        yield message(b"1" + q.tag.encode())
    leave(q)


ASYNC = {"unary": f_unary, "client": f_client, "server": f_server, "bidi": f_bidi}
SYNC = {"unary": s_unary, "client": s_client, "server": s_server, "bidi": s_bidi}


class Meta:
    """An interceptor whose token and view of the call must not get mixed up either."""

    __identity__ = True

    async def on_start(self, ctx):
        return self.on_start_sync(ctx)

    async def on_end(self, token, ctx, error):
        self.on_end_sync(token, ctx, error)

    def on_start_sync(self, ctx):
        q = call_of(ctx)
        q.seen.append(("start", ctx.method.name))
        return q.tag

    def on_end_sync(self, token, ctx, error):
        q = call_of(ctx)
        q.seen.append(("end", token, "" if error is None else error.message))


# ------------------------------------------------------------------------------------------ servers
def frame(p, flag=0):
    return bytes([flag]) + len(p).to_bytes(4, "big") + p


def content_type(q):
    if q.proto == "unary":
        return "application/" + q.codec
    return CT_STREAM[q.proto].replace("proto", q.codec)


MARK = {"gzip": b"Z", "own": b"Y"}
TMO = {"connect": lambda ms: str(ms), "unary": lambda ms: str(ms), "grpc": lambda ms: str(ms) + "m", "grpc-web": lambda ms: str(ms) + "m"}


def packed(q, p):
    return p if q.comp is None else MARK[q.comp] + p


def request(q):
    """Headers, pieces of the body and query of a call."""
    h = [("content-type", content_type(q)), ("x-id", q.tag), ("x-only-" + q.tag, "1")]
    if q.timeout is not None:
        h.append((TMO_HDR[q.proto], TMO[q.proto](q.timeout)))
    if q.comp is not None:
        h.append((ENC_HDR[q.proto], q.comp))
        h.append((ACC_HDR[q.proto], q.comp))
    text = b"req-" + q.tag.encode()
    if q.get:
        return [("x-id", q.tag), ("x-only-" + q.tag, "1"), (TMO_HDR[q.proto], TMO[q.proto](q.timeout))], [], b"connect=v1&encoding=" + q.codec.encode() + b"&message=" + text
    if q.proto == "unary":
        p = packed(q, text)
        return h, [p[:3], p[3:]], b""
    f = frame(packed(q, text), 0 if q.comp is None else 1)
    pieces = [f[:7], f[7:]]
    if CFG["kind"] in ("client", "bidi"):
        pieces.append(f)
    return h, pieces, b""


class IRx:
    __identity__ = True

    def __init__(self, q, pieces):
        self.q, self.pieces, self.n = q, pieces, 0

    async def __call__(self):
        await turn(self.q)
        self.n = self.n + 1
        if self.n > len(self.pieces):
            if not self.pieces and self.n == 1:
                return {"type": "http.request", "body": b"", "more_body": False}
            if not self.q.leaves:
                __prune__()  # waits for ever
            return {"type": "http.disconnect"}
        return {"type": "http.request", "body": self.pieces[self.n - 1], "more_body": self.n < len(self.pieces)}


class ITx:
    __identity__ = True

    def __init__(self, q):
        self.q = q

    async def __call__(self, msg):
        t = msg["type"]
        if t == "http.response.body":
            self.q.out.append(("body", msg["body"], msg.get("more_body", False)))
        elif t == "http.response.start":
            self.q.out.append(("start", msg["status"], tuple(sorted(msg["headers"]))))
        else:
            self.q.out.append(("trailers", tuple(sorted(msg["headers"]))))
        await turn(self.q)


class IIn:
    __identity__ = True

    def __init__(self, q, pieces):
        self.q, self.pieces, self.n = q, pieces, 0

    def read(self, n=-1):
        turn_s(self.q)
        self.n = self.n + 1
        return self.pieces[self.n - 1] if self.n <= len(self.pieces) else b""


def method_of(kind):
    return method(IdempotencyLevel.NO_SIDE_EFFECTS if kind == "unary" else IdempotencyLevel.UNKNOWN)


async def serve(app, q):
    h, pieces, query = request(q)
    outer, N.current = N.current, q
    try:
        await app(scope_of("GET" if q.get else "POST", PATH, h, query=query), IRx(q, pieces), ITx(q))
        q.out.append(("returned",))
    except Exception as e:
        q.out.append(("raised", str(e)))
    N.current = outer


def serve_s(app, q):
    h, pieces, query = request(q)

    def start(status, headers, exc=None):
        q.out.append(("start", status, tuple(sorted(headers))))
        turn_s(q)

    def trailers(headers):
        q.out.append(("trailers", tuple(sorted(headers))))

    def chunk(b):
        q.out.append(("body", b))
        turn_s(q)

    try:
        run_wsgi(app, environ_of("GET" if q.get else "POST", PATH, h, query.decode(), IIn(q, pieces), trailers=trailers), start, chunk)
        q.out.append(("returned",))
    except Exception as e:
        q.out.append(("raised", str(e)))


def compare(q, alone, role):
    for x in alone[0]:
        if x[0] in ("message", "sent"):
            __cover__("served")
    if tuple(q.seen) != alone[0]:
        __violation__("C22.service", f"the service side of a call is another one when a call runs {role} it on the same application or client")
    if tuple(q.out) != alone[1]:
        __violation__("C22.caller", f"the outcome of a call is another one when a call runs {role} it on the same application or client")


async def server(kind, proto):
    CFG["kind"] = kind

    def make():
        return asgi_app(kind, ASYNC[kind], method_of(kind), codecs=CODECS, compressions=comps(), interceptors=[Meta()])

    a, b = variants(kind, proto)
    N.calls = [a, b]
    alone = []
    for q in (a, b):
        mark = __mark__()
        await serve(make(), q)
        alone.append(__rewind__(mark, (tuple(q.seen), tuple(q.out))))
    app = make()
    a.other = b

    async def host(o):
        await serve(app, o)
        __cover__("between")

    a.host = host
    await serve(app, a)
    if a.other is not None:
        a.other = None
        await serve(app, b)
        __cover__("one after the other")
    compare(a, alone[0], "within")
    compare(b, alone[1], "around")


async def gone(kind, proto):
    """The client of one of the calls disconnects: nothing happens to the other call."""
    CFG["kind"] = kind

    def make():
        return asgi_app(kind, ASYNC[kind], method_of(kind), codecs=CODECS, compressions=comps(), interceptors=[Meta()])

    a = Call("a", proto, "proto", "gzip", False, 1000)
    b = Call("b", proto, "alt", None, False, 2000)
    N.calls = [a, b]
    mark = __mark__()
    await serve(make(), b)
    alone = __rewind__(mark, (tuple(b.seen), tuple(b.out)))
    app = make()
    a.leaves = True
    first, then = (a, b) if __choose__(2, "which call runs within which") else (b, a)
    first.other = then

    async def host(o):
        await serve(app, o)
        __cover__("between")

    first.host = host
    await serve(app, first)
    if first.other is None:
        compare(b, alone, "around" if b is then else "within")


def server_s(kind, proto):
    CFG["kind"], CFG["sync"] = kind, True

    def make():
        return wsgi_app(kind, SYNC[kind], method_of(kind), codecs=CODECS, compressions=comps(), interceptors=[Meta()])

    a, b = variants(kind, proto)
    N.calls = [a, b]
    alone = []
    for q in (a, b):
        mark = __mark__()
        serve_s(make(), q)
        alone.append(__rewind__(mark, (tuple(q.seen), tuple(q.out))))
    app = make()
    a.other = b

    def host(o):
        serve_s(app, o)
        __cover__("between")

    a.host = host
    serve_s(app, a)
    if a.other is not None:
        a.other = None
        serve_s(app, b)
        __cover__("one after the other")
    compare(a, alone[0], "within")
    compare(b, alone[1], "around")


# ------------------------------------------------------------------------------------------ clients
def find(headers):
    tag = headers.get("x-id")
    for q in N.calls:
        if q.tag == tag:
            return q
    __violation__("C22.mixed", "a request has the headers of no call that is running")
    __prune__()


def answer(q):
    h = [("content-type", content_type(q)), ("x-head", q.tag), ("x-only-" + q.tag, "1")]
    if q.comp is not None:
        h.append((ENC_HDR[q.proto], q.comp))
    return h


def bodies(q):
    """The pieces of a streamed response."""
    text = packed(q, b"res-" + q.tag.encode())
    f = frame(text, 0 if q.comp is None else 1)
    out = [f[:7], f[7:]]
    if CFG["kind"] in ("server", "bidi"):
        out.append(f)
    if q.proto == "connect":
        end = b"{}"
        out.append(frame(end, 2))
    elif q.proto == "grpc-web":
        out.append(frame(b"x-trail: " + q.tag.encode() + (b"\r\ngrpc-status: 10\r\ngrpc-message: failed-" + q.tag.encode() if q.fails else b"\r\ngrpc-status: 0") + b"\r\n", 128))
    return out


def trailers_of(q):
    if q.proto != "grpc":
        return []
    return [("x-trail", q.tag), ("grpc-status", "10" if q.fails else "0")] + ([("grpc-message", "failed-" + q.tag)] if q.fails else [])


class ICM:
    def __init__(self, q, content):
        self._q, self._content = q, content

    async def abody(self):
        async for c in self._content:
            self._q.seen.append(("sent", c))
            await turn(self._q)
        for c in bodies(self._q):
            await turn(self._q)
            yield c

    def sbody(self):
        for c in self._content:
            self._q.seen.append(("sent", c))
            turn_s(self._q)
        for c in bodies(self._q):
            turn_s(self._q)
            yield c

    async def __aenter__(self):
        await turn(self._q)
        return Resp(200, answer(self._q), self.abody(), trailers_of(self._q))

    async def __aexit__(self, *a):
        pass

    def __enter__(self):
        turn_s(self._q)
        return Resp(200, answer(self._q), self.sbody(), trailers_of(self._q))

    def __exit__(self, *a):
        pass


def requested(q, m, u, h):
    q.seen.append(("request", m, u, tuple(sorted(h.items()))))


def on_stream(m, u, h, c):
    q = find(h)
    requested(q, m, u, h)
    return ICM(q, c)


def plain_answer(q):
    if q.fails:
        return pyqwest.FullResponse(status=503, headers=pyqwest.Headers([("content-type", "text/plain"), ("x-head", q.tag)]), content=b"failed", trailers=pyqwest.Headers([]))
    return pyqwest.FullResponse(status=200, headers=pyqwest.Headers(answer(q)), content=b"res-" + q.tag.encode(), trailers=pyqwest.Headers([]))


class IHttp(pyqwest.Client):
    __identity__ = True

    def __init__(self):
        pass

    async def get(self, url, headers=None, **kw):
        q = find(headers)
        requested(q, "GET", url, headers)
        await turn(q)
        return plain_answer(q)

    async def post(self, url, headers=None, content=None, **kw):
        q = find(headers)
        requested(q, "POST", url, headers)
        q.seen.append(("sent", content))
        await turn(q)
        return plain_answer(q)

    def stream(self, method, url, headers=None, content=None, **kw):
        return on_stream(method, url, headers, content)


class IHttpSync(pyqwest.SyncClient):
    __identity__ = True

    def __init__(self):
        self.timeout = None

    def get(self, url, headers=None, **kw):
        q = find(headers)
        requested(q, "GET", url, headers)
        turn_s(q)
        return plain_answer(q)

    def post(self, url, headers=None, content=None, **kw):
        q = find(headers)
        requested(q, "POST", url, headers)
        q.seen.append(("sent", content))
        turn_s(q)
        return plain_answer(q)

    def stream(self, method, url, headers=None, content=None, **kw):
        return on_stream(method, url, headers, content)


async def ireq(q):
    yield message(b"1" + q.tag.encode())
    await turn(q)
    yield message(b"2" + q.tag.encode())


def ireq_s(q):
    yield message(b"1" + q.tag.encode())
    turn_s(q)
    yield message(b"2" + q.tag.encode())


def told(q, md, error):
    q.out.append(("headers", tuple(sorted(md.headers.allitems()))))
    q.out.append(("trailers", tuple(sorted(md.trailers.allitems()))))
    if error is None:
        q.out.append(("ok",))
    elif isinstance(error, ConnectError):
        q.out.append(("error", error.code.name, error.message))
    else:
        q.out.append(("raised", str(type(error))))


def call_kw(q):
    return {"headers": {"x-id": q.tag, "x-only-" + q.tag: "1"}, "timeout_ms": q.timeout}


async def make_call(cl, kind, q):
    m = method_of(kind)
    error = None
    with ResponseMetadata() as md:
        try:
            if kind == "unary":
                r = await cl.execute_unary(request=message(b"1" + q.tag.encode()), method=m, use_get=q.get, **call_kw(q))
                q.out.append(("message", r.text))
            elif kind == "client":
                r = await cl.execute_client_stream(request=ireq(q), method=m, **call_kw(q))
                q.out.append(("message", r.text))
            else:
                s = cl.execute_server_stream(request=message(b"1" + q.tag.encode()), method=m, **call_kw(q)) if kind == "server" else cl.execute_bidi_stream(request=ireq(q), method=m, **call_kw(q))
                async for r in s:
                    q.out.append(("message", r.text))
                    await turn(q)
        except Exception as e:
            error = e
        told(q, md, error)


def make_call_s(cl, kind, q):
    m = method_of(kind)
    error = None
    with ResponseMetadata() as md:
        try:
            if kind == "unary":
                r = cl.execute_unary(request=message(b"1" + q.tag.encode()), method=m, use_get=q.get, **call_kw(q))
                q.out.append(("message", r.text))
            elif kind == "client":
                r = cl.execute_client_stream(request=ireq_s(q), method=m, **call_kw(q))
                q.out.append(("message", r.text))
            else:
                s = cl.execute_server_stream(request=message(b"1" + q.tag.encode()), method=m, **call_kw(q)) if kind == "server" else cl.execute_bidi_stream(request=ireq_s(q), method=m, **call_kw(q))
                for r in s:
                    q.out.append(("message", r.text))
                    turn_s(q)
        except Exception as e:
            error = e
        told(q, md, error)


class CMeta(Meta):
    def on_start_sync(self, ctx):
        q = call_of(ctx)
        q.seen.append(("start", ctx.method.name, ctx.http_method))
        ctx.request_headers["x-token"] = q.tag
        return q.tag


def client_calls(kind, proto):
    CFG["kind"] = kind
    a = Call("a", proto, "proto", "gzip" if proto != "unary" else None, False, 1000)
    k = __choose__(3, "the other call")
    b = Call("b", proto, "proto", None, k > 0, None if k == 1 else 2000, kind == "unary" and proto == "unary" and k != 1)
    if k == 2:
        a, b = b, a
    N.calls = [a, b]
    return a, b


async def client(kind, proto):
    a, b = client_calls(kind, proto)

    def make():
        return ConnectClient("http://h", http_client=IHttp(), codec=CODECS[0], protocol=PROTO[proto], interceptors=[CMeta()], send_compression=comps()[1], timeout_ms=5000, accept_compression=comps())

    alone = []
    for q in (a, b):
        mark = __mark__()
        await make_call(make(), kind, q)
        alone.append(__rewind__(mark, (tuple(q.seen), tuple(q.out))))
    cl = make()
    a.other = b

    async def host(o):
        await make_call(cl, kind, o)
        __cover__("between")

    a.host = host
    await make_call(cl, kind, a)
    if a.other is not None:
        a.other = None
        await make_call(cl, kind, b)
        __cover__("one after the other")
    compare(a, alone[0], "within")
    compare(b, alone[1], "around")


def client_s(kind, proto):
    a, b = client_calls(kind, proto)

    def make():
        return ConnectClientSync("http://h", http_client=IHttpSync(), codec=CODECS[0], protocol=PROTO[proto], interceptors=[CMeta()], send_compression=comps()[1], timeout_ms=5000, accept_compression=comps())

    alone = []
    for q in (a, b):
        mark = __mark__()
        make_call_s(make(), kind, q)
        alone.append(__rewind__(mark, (tuple(q.seen), tuple(q.out))))
    cl = make()
    a.other = b

    def host(o):
        make_call_s(cl, kind, o)
        __cover__("between")

    a.host = host
    make_call_s(cl, kind, a)
    if a.other is not None:
        a.other = None
        make_call_s(cl, kind, b)
        __cover__("one after the other")
    compare(a, alone[0], "within")
    compare(b, alone[1], "around")
