"""Interceptors on both servers and both clients: each is applied once, in order, whatever the call does."""

from server import *

HOOKS["json"] = lambda data: {}
__paths__(400)
CFG = {"kind": "", "side": "", "sync": False, "cut": ""}
HOW = ["ok", "connect", "other"]


class Rec:
    __identity__ = True

    def __init__(self):
        self.reset()

    def reset(self):
        self.log = []  # what happened, in order
        self.inner_in = None  # the message (or stream item) the service or network saw last
        self.out = None
        self.how = "ok"  # how the service or network ends the call
        self.error = None  # its error
        self.short = False  # an interceptor answered the call itself
        self.left = False  # the consumer left the stream early
        self.starts = []
        self.ends = []
        self.closed = False


R = Rec()


class Mark:
    """A message that an interceptor passed on."""

    __identity__ = True

    def __init__(self, who, inner):
        self.who = who
        self.inner = inner


def path_of(m):
    r = []
    while isinstance(m, Mark):
        r.append(m.who)
        m = m.inner
    return r


def log(x):
    R.log.append(x)


# -------------------------------------------------------------------- interceptors of every kind, which mark every message
class UnaryI:
    def __init__(self, n):
        self.n = n

    async def intercept_unary(self, call_next, request, ctx):
        log("in " + self.n)
        try:
            if short(self.n):
                return Mark("B", Res())
            return Mark(self.n, await call_next(Mark(self.n, request), ctx))
        finally:
            log("out " + self.n)


class ClientI:
    def __init__(self, n):
        self.n = n

    async def intercept_client_stream(self, call_next, request, ctx):
        log("in " + self.n)
        try:
            if short(self.n):
                return Mark("B", Res())
            return Mark(self.n, await call_next(amark(self.n, request), ctx))
        finally:
            log("out " + self.n)


class ServerI:
    def __init__(self, n):
        self.n = n

    async def intercept_server_stream(self, call_next, request, ctx):
        log("in " + self.n)
        if short(self.n):
            yield Mark("B", Res())
            log("out " + self.n)
            return
        s = call_next(Mark(self.n, request), ctx)
        try:
            async for m in s:
                yield Mark(self.n, m)
        finally:
            await s.aclose()
            log("out " + self.n)


class BidiI:
    def __init__(self, n):
        self.n = n

    async def intercept_bidi_stream(self, call_next, request, ctx):
        log("in " + self.n)
        if short(self.n):
            yield Mark("B", Res())
            log("out " + self.n)
            return
        s = call_next(amark(self.n, request), ctx)
        try:
            async for m in s:
                yield Mark(self.n, m)
        finally:
            await s.aclose()
            log("out " + self.n)


async def amark(n, it):
    async for m in it:
        yield Mark(n, m)


class UnaryS:
    def __init__(self, n):
        self.n = n

    def intercept_unary_sync(self, call_next, request, ctx):
        log("in " + self.n)
        try:
            if short(self.n):
                return Mark("B", Res())
            return Mark(self.n, call_next(Mark(self.n, request), ctx))
        finally:
            log("out " + self.n)


class ClientS:
    def __init__(self, n):
        self.n = n

    def intercept_client_stream_sync(self, call_next, request, ctx):
        log("in " + self.n)
        try:
            if short(self.n):
                return Mark("B", Res())
            return Mark(self.n, call_next(smark(self.n, request), ctx))
        finally:
            log("out " + self.n)


class ServerS:
    def __init__(self, n):
        self.n = n

    def intercept_server_stream_sync(self, call_next, request, ctx):
        log("in " + self.n)
        if short(self.n):
            yield Mark("B", Res())
            log("out " + self.n)
            return
        s = call_next(Mark(self.n, request), ctx)
        try:
            for m in s:
                yield Mark(self.n, m)
        finally:
            s.close()
            log("out " + self.n)


class BidiS:
    def __init__(self, n):
        self.n = n

    def intercept_bidi_stream_sync(self, call_next, request, ctx):
        log("in " + self.n)
        if short(self.n):
            yield Mark("B", Res())
            log("out " + self.n)
            return
        s = call_next(smark(self.n, request), ctx)
        try:
            for m in s:
                yield Mark(self.n, m)
        finally:
            s.close()
            log("out " + self.n)


def smark(n, it):
    for m in it:
        yield Mark(n, m)


def short(n):
    """Interceptor B may answer the call itself."""
    return CFG["cut"] == "short" and n == "B"


class Token:
    __identity__ = True


class Meta:
    def __init__(self, n):
        self.n = n

    async def on_start(self, ctx):
        return started(self.n, ctx)

    async def on_end(self, token, ctx, error):
        ended(self.n, token, ctx, error)


class MetaS:
    def __init__(self, n):
        self.n = n

    def on_start_sync(self, ctx):
        return started(self.n, ctx)

    def on_end_sync(self, token, ctx, error):
        ended(self.n, token, ctx, error)


def started(n, ctx):
    log("in " + n)
    if CFG["cut"] == "start" and n == "N":
        R.how = "connect"
        R.error = ConnectError(Code.ABORTED, "on_start")
        raise R.error
    t = Token()
    R.starts.append((n, t, ctx))
    return t


def ended(n, token, ctx, error):
    log("out " + n)
    for m, t, x in R.starts:
        if m == n and (t is not token or x is not ctx):
            __violation__("C15.token", "on_end is called with another token or context than on_start")
    R.ends.append(n)
    if R.left:
        if not R.closed and not CFG["sync"]:
            __violation__("C15.open", "on_end is called while the call it belongs to is still open")
        __cover__("left early")
    elif error is None:
        if R.how != "ok":
            __violation__("C15.error", "on_end is told that a failed call succeeded")
    elif R.how == "ok":
        __violation__("C15.error", "on_end is told that a successful call failed")
    elif CFG["side"] == "server" and error is not R.error or not isinstance(error, Exception):
        __violation__("C15.error", "on_end is told another error than the one the call failed with")


ALL_I = {"unary": UnaryI, "client": ClientI, "server": ServerI, "bidi": BidiI}
ALL_S = {"unary": UnaryS, "client": ClientS, "server": ServerS, "bidi": BidiS}
NEXT = {"unary": "client", "client": "server", "server": "bidi", "bidi": "unary"}


def interceptors():
    """A list, tuple or one-shot iterable with two interceptors of the call's kind, one of another, and two for metadata."""
    k, sync = CFG["kind"], CFG["sync"]
    t = ALL_S if sync else ALL_I
    m = MetaS if sync else Meta
    items = [t[k]("A"), m("M"), t[NEXT[k]]("X"), t[k]("B"), m("N")]
    c = __choose__(3, "how the interceptors are given")
    return items if c == 0 else tuple(items) if c == 1 else iter(items)


ORDER = ["in A", "in M", "in B", "in N", "call"]


def done():
    R.closed = True
    log("end")


# -------------------------------------------------------------------- what the innermost interceptor wraps
def reached(request):
    log("call")
    if request is not None and path_of(request) != ["B", "A"]:
        __violation__("C14.request", "a request message that an interceptor replaced does not reach the next one")


def fail():
    """How the call goes on inside."""
    R.how = HOW[__choose__(len(HOW), "outcome")]
    if R.how == "connect":
        R.error = ConnectError(Code.ABORTED, "aborted")
        raise R.error
    if R.how == "other":
        R.error = KeyError("x")
        raise R.error


async def f_unary(req, ctx):
    reached(req)
    try:
        fail()
        return Res()
    finally:
        done()


async def f_client(reqs, ctx):
    reached(None)
    try:
        async for r in reqs:
            if path_of(r) != ["B", "A"]:
                __violation__("C14.request", "a request message that an interceptor replaced does not reach the next one")
        fail()
        return Res()
    finally:
        done()


async def f_server(req, ctx):
    reached(req)
    try:
        yield Res()
        fail()
        yield Res()
    finally:
        done()


async def f_bidi(reqs, ctx):
    reached(None)
    try:
        async for r in reqs:
            if path_of(r) != ["B", "A"]:
                __violation__("C14.request", "a request message that an interceptor replaced does not reach the next one")
            yield Res()
        fail()
        yield Res()
    finally:
        done()


def s_unary(req, ctx):
    reached(req)
    try:
        fail()
        return Res()
    finally:
        done()


def s_client(reqs, ctx):
    reached(None)
    try:
        for r in reqs:
            if path_of(r) != ["B", "A"]:
                __violation__("C14.request", "a request message that an interceptor replaced does not reach the next one")
        fail()
        return Res()
    finally:
        done()


def s_server(req, ctx):
    reached(req)
    try:
        yield Res()
        fail()
        yield Res()
    finally:
        done()


def s_bidi(reqs, ctx):
    reached(None)
    try:
        for r in reqs:
            if path_of(r) != ["B", "A"]:
                __violation__("C14.request", "a request message that an interceptor replaced does not reach the next one")
            yield Res()
        fail()
        yield Res()
    finally:
        done()


ASYNC = {"unary": f_unary, "client": f_client, "server": f_server, "bidi": f_bidi}
SYNC = {"unary": s_unary, "client": s_client, "server": s_server, "bidi": s_bidi}


class IcptCodec:
    """On the server, messages out of the interceptors are encoded; on the client, messages into the network are."""

    __identity__ = True

    def name(self):
        return "proto"

    def encode(self, message):
        if CFG["side"] == "server":
            if path_of(message) != ["A", "B"]:
                __violation__("C14.response", "a response message that an interceptor replaced does not reach the next one")
        elif path_of(message) != ["B", "A"]:
            __violation__("C14.request", "a request message that an interceptor replaced does not reach the next one")
        return b"x"

    def decode(self, data, message_class):
        return Msg()


def judge():
    ins = [x for x in R.log if x[:2] != "ou" and x != "end"]
    if ins != {"": ORDER, "short": ORDER[:3], "start": ORDER[:4]}[CFG["cut"]]:
        __violation__("C14.order", f"a call runs its interceptors as {ins}, which is not each once, the first given outermost")
    if CFG["sync"] and R.left:
        # what a metadata interceptor wraps is closed explicitly or when it is no longer referenced
        if len([x for x in R.ends if x == "M"]) != 1:
            __violation__("C15.pairs", "on_end is not called once for a stream that the caller leaves early")
        __cover__("left early")
        return
    outs = [x for x in R.log if x[:4] == "out "]
    for n in ("M", "N"):
        k = len([x for x in R.ends if x == n])
        if k != len([x for x in R.starts if x[0] == n]):
            __violation__("C15.pairs", f"on_end is called {k} times for one on_start")
    if outs != (["out N"] if CFG["cut"] == "" else []) + ["out B", "out M", "out A"]:
        __violation__("C14.nesting", f"the interceptors of a call end as {outs}, which is not innermost first")
    __cover__(R.how)


def env(p):
    return bytes([0, 0, 0, 0, len(p)]) + p


class Rx:
    def __init__(self, body):
        self._body = body

    async def __call__(self):
        b, self._body = self._body, None
        if b is None:
            return {"type": "http.disconnect"}
        return {"type": "http.request", "body": b, "more_body": False}


class In:
    def __init__(self, body):
        self._body = body

    def read(self, n=-1):
        b, self._body = self._body, b""
        return b


def body_of(proto):
    return b"x" if proto == "unary" else env(b"x")


class FailSend(Send):
    """Sending may fail after the first message, as when the client is gone."""

    def __init__(self):
        super().__init__()
        self.n = 0

    async def __call__(self, msg):
        if msg["type"] == "http.response.body" and msg["body"] and CFG["cut"] == "" and CFG["kind"] in ("server", "bidi") and R.how == "ok" and not R.closed:
            if __choose__(2, "sending fails"):
                R.left = True
                raise OSError("send")
        return None


async def server(kind, proto, cut=""):
    CFG["cut"] = cut
    CFG["kind"], CFG["side"], CFG["sync"] = kind, "server", False
    fn = ASYNC[kind]
    m = method()
    app = AsgiApp(service=None, endpoints=lambda svc: {"/pkg.Service/Other": endpoint(kind, fn, m), PATH: endpoint(kind, fn, m)}, codecs=[IcptCodec()], interceptors=interceptors())
    for i in range(2):
        R.reset()
        try:
            await app(scope_of("POST", PATH, [("content-type", ct_of(proto))]), Rx(body_of(proto)), FailSend())
        except BaseException as e:
            pass
        judge()


def server_s(kind, proto, cut=""):
    CFG["cut"] = cut
    CFG["kind"], CFG["side"], CFG["sync"] = kind, "server", True
    fn = SYNC[kind]
    m = method()
    app = WsgiApp(endpoints={"/pkg.Service/Other": endpoint_s(kind, fn, m), PATH: endpoint_s(kind, fn, m)}, codecs=[IcptCodec()], interceptors=interceptors())
    for i in range(2):
        R.reset()
        e = environ_of("POST", PATH, [("content-type", ct_of(proto))], "", In(body_of(proto)), trailers=lambda t: None)
        try:
            run_wsgi(app, e, lambda status, headers, exc=None: None)
        except BaseException as ex:
            pass
        judge()


# -------------------------------------------------------------------- clients
def ok_response():
    return pyqwest.FullResponse(status=200, headers=pyqwest.Headers([("content-type", "application/proto")]), content=b"x", trailers=pyqwest.Headers([]))


END = {"connect": bytes([2, 0, 0, 0, 2]) + b"{}", "grpc": b"", "grpc-web": bytes([128, 0, 0, 0, 16]) + b"grpc-status: 0\r\n"}


def fail_net():
    R.how = HOW[__choose__(len(HOW), "outcome")]
    if R.how == "connect":
        raise TimeoutError("t")
    if R.how == "other":
        raise OSError("x")


class CM:
    def __init__(self, proto, content):
        self._proto, self._content = proto, content
        R.closed = False

    def _resp(self, body):
        log("call")
        return Resp(200, [("content-type", CT_STREAM[self._proto])], body, [("grpc-status", "0")] if self._proto == "grpc" else [])

    async def abody(self):
        async for c in self._content:
            pass
        for c in self.body():
            yield c

    def body(self):
        yield env(b"x")
        fail_net()
        if CFG["kind"] in ("server", "bidi"):
            yield env(b"x")
        yield END[self._proto]

    def sbody(self):
        for c in self._content:
            pass
        for c in self.body():
            yield c

    async def __aenter__(self):
        return self._resp(self.abody())

    async def __aexit__(self, *a):
        done()

    def __enter__(self):
        return self._resp(self.sbody())

    def __exit__(self, *a):
        done()


def unary_net(m, u, h, c):
    log("call")
    fail_net()
    done()
    return ok_response()


def got(m):
    if path_of(m) != ["A", "B"]:
        __violation__("C14.response", "a response message that an interceptor replaced does not reach the next one")


def leave():
    if CFG["cut"] == "" and __choose__(2, "the caller leaves the stream early"):
        R.left = True
        return True
    return False


async def client(kind, proto, cut=""):
    CFG["cut"] = cut
    CFG["kind"], CFG["side"], CFG["sync"] = kind, "client", False
    p = "connect" if proto == "unary" else proto
    cl = ConnectClient("http://h", http_client=Http(unary_net, lambda m, u, h, c: CM(p, c)), codec=IcptCodec(), protocol=PROTO[proto], interceptors=interceptors(), send_compression=None)
    try:
        if kind == "unary":
            got(await cl.execute_unary(request=Req(), method=method()))
        elif kind == "client":
            got(await cl.execute_client_stream(request=areq(), method=method()))
        else:
            s = cl.execute_server_stream(request=Req(), method=method()) if kind == "server" else cl.execute_bidi_stream(request=areq(), method=method())
            async for m in s:
                got(m)
                if leave():
                    break
            await s.aclose()
    except BaseException as e:
        pass
    judge()


def client_s(kind, proto, cut=""):
    CFG["cut"] = cut
    CFG["kind"], CFG["side"], CFG["sync"] = kind, "client", True
    p = "connect" if proto == "unary" else proto
    cl = ConnectClientSync("http://h", http_client=HttpSync(unary_net, lambda m, u, h, c: CM(p, c)), codec=IcptCodec(), protocol=PROTO[proto], interceptors=interceptors(), send_compression=None)
    try:
        if kind == "unary":
            got(cl.execute_unary(request=Req(), method=method()))
        elif kind == "client":
            got(cl.execute_client_stream(request=sreq(), method=method()))
        else:
            s = cl.execute_server_stream(request=Req(), method=method()) if kind == "server" else cl.execute_bidi_stream(request=sreq(), method=method())
            for m in s:
                got(m)
                if leave():
                    break
            s.close()
    except BaseException as e:
        pass
    judge()


__precise__(reached, started, ended, judge, log, done, path_of, Mark, Rec)
