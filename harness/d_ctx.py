"""What the context of a call says about the call, to interceptors and service functions, on servers and clients."""

import struct

from server import *

__paths__(400)

NAME = __opaque__("host name", "str")
__lacks__(NAME, ":[]/@?#")
PEER = __opaque__("peer address", "str")
PORT = __opaque__("peer port", "int")


class State:
    __identity__ = True

    def __init__(self):
        self.due = {}  # what the context is to say
        self.seen = []  # who looked at it
        self.kind = ""


S = State()


def look(who, ctx):
    S.seen.append(who)
    d = S.due
    if ctx.method is not d["method"]:
        __violation__("C32.method", f"the context {who} sees is that of another method")
    if ctx.http_method != d["http_method"]:
        __violation__("C32.http_method", f"the context {who} sees names another HTTP method than the one that is used:", ctx.http_method)
    if not same(ctx.server_address, d["server"]):
        __violation__("C32.server", f"the context {who} sees names another server address:", ctx.server_address, "instead of", d["server"])
    if not same(ctx.client_address, d["client"]):
        __violation__("C32.client", f"the context {who} sees names another client address:", ctx.client_address, "instead of", d["client"])
    __cover__(who)


def same(a, b):
    if a is None or b is None:
        return a is None and b is None
    return a == b


class Watch:
    async def on_start(self, ctx):
        look("an interceptor", ctx)

    async def on_end(self, token, ctx, error):
        look("an interceptor at the end", ctx)


class WatchSync:
    def on_start_sync(self, ctx):
        look("an interceptor", ctx)

    def on_end_sync(self, token, ctx, error):
        look("an interceptor at the end", ctx)


WHO = "the service function"


async def f_unary(req, ctx):
    look(WHO, ctx)
    return Res()


async def f_client(reqs, ctx):
    look(WHO, ctx)
    return Res()


async def f_server(req, ctx):
    look(WHO, ctx)
    yield Res()


async def f_bidi(reqs, ctx):
    look(WHO, ctx)
    yield Res()


def s_unary(req, ctx):
    look(WHO, ctx)
    return Res()


def s_client(reqs, ctx):
    look(WHO, ctx)
    return Res()


def s_server(req, ctx):
    look(WHO, ctx)
    yield Res()


def s_bidi(reqs, ctx):
    look(WHO, ctx)
    yield Res()


FN = {"unary": f_unary, "client": f_client, "server": f_server, "bidi": f_bidi}
FN_S = {"unary": s_unary, "client": s_client, "server": s_server, "bidi": s_bidi}


class CCodec:
    __identity__ = True

    def name(self):
        return "proto"

    def encode(self, message):
        return b"m"

    def decode(self, data, message_class):
        return Msg()


def hosts():
    """An authority, whether it has a port, and how to write it with one."""
    k = __choose__(6, "host")
    if k == 0:
        return NAME, False
    if k == 1:
        return NAME + ":81", True
    if k == 2:
        return "[::1]", False
    if k == 3:
        return "[2001:db8::1:80]:8080", True
    if k == 4:
        return "127.0.0.1", False
    return "example.com:443", True


def with_port(host, has, scheme):
    return host if has else host + (":443" if scheme == "https" else ":80")


def request(get):
    """The request's scheme, host, peer and what the context is to say about them."""
    scheme = ["http", "https"][__choose__(2, "scheme")]
    headers = []
    S.due = {"server": None, "client": None, "http_method": "GET" if get else "POST"}
    if __choose__(2, "host header"):
        h, has = hosts()
        headers.append(("host", h))
        S.due["server"] = with_port(h, has, scheme)
    peer = __choose__(3, "peer")
    if peer == 1:
        S.due["client"] = PEER + ":" + str(PORT)
        __assume__(len(PEER) > 0)
    if peer == 2:
        S.due["client"] = "::1:5"
    return scheme, headers, peer


def due_method(safe):
    S.due["method"] = method(IdempotencyLevel.NO_SIDE_EFFECTS if safe else IdempotencyLevel.UNKNOWN)
    return S.due["method"]


def body(proto):
    return b"m" if proto == "unary" else struct.pack(">BI", 0, 1) + b"m"


class Whole:
    __identity__ = True

    def __init__(self, data):
        self.data = data

    async def __call__(self):
        return {"type": "http.request", "body": self.data, "more_body": False}


def judge(kind):
    if WHO not in S.seen or "an interceptor" not in S.seen:
        __violation__("C32.called", "the call does not reach the interceptor and the service function")


QUERY = "connect=v1&encoding=proto&message=m"


async def server(kind, proto):
    get = proto == "get"
    scheme, headers, peer = request(get)
    m = due_method(get or __choose__(2, "safe method") == 1 and kind == "unary")
    app = asgi_app(kind, FN[kind], m, codecs=[CCodec()], interceptors=[Watch()])
    if get:
        sc = scope_of("GET", PATH, headers, QUERY.encode())
    else:
        sc = scope_of("POST", PATH, [("content-type", ct_of(proto))] + headers, b"")
    if scheme == "https" or __choose__(2, "scheme given"):
        sc["scheme"] = scheme
    if peer:
        sc["client"] = (PEER, PORT) if peer == 1 else ("::1", 5)
    elif __choose__(2, "peer unknown"):
        sc["client"] = None
    try:
        await app(sc, Whole(body(proto)), Send())
    except Exception:
        __cover__("escaped")
    judge(kind)


class Pieces:
    __identity__ = True

    def __init__(self, data):
        self.data = data
        self.n = 0

    def read(self, n=-1):
        self.n = 1 if self.n == 0 else 2
        return self.data if self.n == 1 else b""


def server_s(kind, proto):
    get = proto == "get"
    scheme, headers, peer = request(get)
    m = due_method(get or __choose__(2, "safe method") == 1 and kind == "unary")
    app = wsgi_app(kind, FN_S[kind], m, codecs=[CCodec()], interceptors=[WatchSync()])
    if get:
        env = environ_of("GET", PATH, headers, QUERY, Pieces(b""))
    else:
        env = environ_of("POST", PATH, [("content-type", ct_of(proto))] + headers, "", Pieces(body(proto)), trailers=SendTrailers())
    env["wsgi.url_scheme"] = scheme
    if peer:
        env["REMOTE_ADDR"] = PEER if peer == 1 else "::1"
        env["REMOTE_PORT"] = str(PORT) if peer == 1 else "5"
    try:
        run_wsgi(app, env, StartResponse())
    except Exception:
        __cover__("escaped")
    judge(kind)


# ---------------------------------------------------------------------------------------- clients
def sent(m, url):
    S.seen.append("sent")
    if m != S.due["http_method"]:
        __violation__("C32.http_method", f"the request uses {m}, the context says {S.due['http_method']}")


def address():
    scheme = ["http", "https"][__choose__(2, "scheme")]
    h, has = hosts()
    S.due = {"server": with_port(h, has, scheme), "client": None}
    user = "user:secret@" if __choose__(2, "credentials") else ""
    base = "/base/x:1" if __choose__(2, "base path") else ""
    return scheme + "://" + user + h + base


class CHttp(pyqwest.Client):
    __identity__ = True

    def __init__(self):
        pass

    async def get(self, url, headers=None, **kw):
        sent("GET", url)
        raise OSError("down")

    async def post(self, url, headers=None, content=None, **kw):
        sent("POST", url)
        raise OSError("down")

    def stream(self, method, url, headers=None, content=None, **kw):
        sent(method, url)
        raise OSError("down")


class CHttpSync(pyqwest.SyncClient):
    __identity__ = True

    def __init__(self):
        pass

    def get(self, url, headers=None, **kw):
        sent("GET", url)
        raise OSError("down")

    def post(self, url, headers=None, content=None, **kw):
        sent("POST", url)
        raise OSError("down")

    def stream(self, method, url, headers=None, content=None, **kw):
        sent(method, url)
        raise OSError("down")


class WatchClient:
    """Looks at the context when the call is over, when the HTTP method that was used is known."""

    async def on_start(self, ctx):
        S.first = ctx
        S.due["http_method"] = ctx.http_method
        look("an interceptor", ctx)

    async def on_end(self, token, ctx, error):
        look("an interceptor at the end", ctx)


class WatchClientSync:
    def on_start_sync(self, ctx):
        S.due["http_method"] = ctx.http_method
        look("an interceptor", ctx)

    def on_end_sync(self, token, ctx, error):
        look("an interceptor at the end", ctx)


async def areq():
    yield Msg()


def sreq():
    yield Msg()


def over():
    if "sent" not in S.seen or "an interceptor at the end" not in S.seen:
        __violation__("C32.called", "the call does not reach the interceptor and the HTTP client")


async def client(kind, proto):
    get = kind == "unary" and __choose__(2, "GET") == 1
    url = address()
    m = due_method(get)
    cl = ConnectClient(url, http_client=CHttp(), codec=CCodec(), protocol=PROTO[proto], interceptors=[WatchClient()])
    try:
        if kind == "unary":
            await cl.execute_unary(request=Msg(), method=m, use_get=get)
        elif kind == "client":
            await cl.execute_client_stream(request=areq(), method=m)
        elif kind == "server":
            async for x in cl.execute_server_stream(request=Msg(), method=m):
                pass
        else:
            async for x in cl.execute_bidi_stream(request=areq(), method=m):
                pass
    except ConnectError:
        pass
    over()


def client_s(kind, proto):
    get = kind == "unary" and __choose__(2, "GET") == 1
    url = address()
    m = due_method(get)
    cl = ConnectClientSync(url, http_client=CHttpSync(), codec=CCodec(), protocol=PROTO[proto], interceptors=[WatchClientSync()])
    try:
        if kind == "unary":
            cl.execute_unary(request=Msg(), method=m, use_get=get)
        elif kind == "client":
            cl.execute_client_stream(request=sreq(), method=m)
        elif kind == "server":
            for x in cl.execute_server_stream(request=Msg(), method=m):
                pass
        else:
            for x in cl.execute_bidi_stream(request=sreq(), method=m):
                pass
    except ConnectError:
        pass
    over()


__precise__(look, same, hosts, with_port, request, judge, State, Watch, WatchSync, WatchClient, WatchClientSync, sent, over, address)
