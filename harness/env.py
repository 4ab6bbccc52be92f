"""Environment models: ASGI and WSGI servers, HTTP client transports, service functions."""

import json
from asyncio import CancelledError

from __prelude__ import HOOKS
import pyqwest
from base import *
from connectrpc.client import ConnectClient, ConnectClientSync
from connectrpc.code import Code
from connectrpc.errors import ConnectError
from connectrpc.protocol import ProtocolType
from connectrpc.server import ConnectASGIApplication, ConnectWSGIApplication, Endpoint, EndpointSync

PATH = "/pkg.Service/Method"

# content types by short name
CT_STREAM = {"connect": "application/connect+proto", "grpc": "application/grpc+proto", "grpc-web": "application/grpc-web+proto"}
ENC_HDR = {"connect": "connect-content-encoding", "grpc": "grpc-encoding", "grpc-web": "grpc-encoding", "unary": "content-encoding"}
ACC_HDR = {"connect": "connect-accept-encoding", "grpc": "grpc-accept-encoding", "grpc-web": "grpc-accept-encoding", "unary": "accept-encoding"}
TMO_HDR = {"connect": "connect-timeout-ms", "grpc": "grpc-timeout", "grpc-web": "grpc-timeout", "unary": "connect-timeout-ms"}
PROTO = {"connect": ProtocolType.CONNECT, "grpc": ProtocolType.GRPC, "grpc-web": ProtocolType.GRPC_WEB, "unary": ProtocolType.CONNECT}


def ct_of(proto):
    return "application/proto" if proto == "unary" else CT_STREAM[proto]


# ------------------------------------------------------------------------------------------ ASGI
class AsgiApp(ConnectASGIApplication):
    @property
    def path(self):
        return "/pkg.Service"


class WsgiApp(ConnectWSGIApplication):
    @property
    def path(self):
        return "/pkg.Service"


class Receive:
    """The server's receive(): request chunks of unknown size, then the end or a disconnect."""

    __identity__ = True

    def __init__(self, abort=True, cancel=False, chunks=True, sparse=False, end=True):
        self.state = "open"
        self._abort, self._cancel, self._chunks, self._sparse, self._end = abort, cancel, chunks, sparse, end
        self.calls = 0

    async def __call__(self):
        if self.state == "open":
            acts = []
            if self._end:
                acts.append("last chunk")
            if self._chunks:
                acts.append("chunk")
            if self._abort:
                acts.append("disconnect")
            if self._cancel:
                acts.append("cancelled")
            if self._sparse:
                acts.append("sparse last message")
            a = acts[__choose__(len(acts), "receive()")]
            __note__("receive: " + a)
            if a == "chunk":
                return {"type": "http.request", "body": __event_value__("chunk", "bytes"), "more_body": True}
            if a == "last chunk":
                self.state = "ended"
                return {"type": "http.request", "body": __event_value__("chunk", "bytes"), "more_body": False}
            if a == "sparse last message":
                self.state = "ended"
                return {"type": "http.request"}
            if a == "disconnect":
                self.state = "gone"
                return {"type": "http.disconnect"}
            self.state = "cancelled"
            raise CancelledError()
        self.state = "gone" if self.state != "cancelled" else "cancelled"
        return {"type": "http.disconnect"}


class Send:
    """The server's send(): keeps what was sent; subclasses check."""

    __identity__ = True

    def __init__(self):
        self.state = "none"
        self.status = None
        self.headers = None
        self.announced = False

    async def __call__(self, msg):
        t = msg["type"]
        if t == "http.response.start":
            self.state = "started"
            self.status = msg["status"]
            self.headers = msg.get("headers", ())
            self.announced = msg.get("trailers", False)
            self.on_start(msg)
        elif t == "http.response.body":
            more = msg.get("more_body", False)
            if not more:
                self.state = "body done" if self.announced else "done"
            self.on_body(msg.get("body", b""), more)
        elif t == "http.response.trailers":
            if not msg.get("more_trailers", False):
                self.state = "done"
            self.on_trailers(msg.get("headers", ()))
        else:
            self.on_other(msg)

    def on_start(self, msg):
        pass

    def on_body(self, body, more):
        pass

    def on_trailers(self, headers):
        pass

    def on_other(self, msg):
        pass


def scope_of(http_method="POST", path=PATH, headers=(), query=None, trailers=True, root_path=""):
    s = {"type": "http", "path": path, "root_path": root_path, "method": http_method, "headers": [(k.encode(), v if __kindof__(v) == "bytes" else v.encode()) for k, v in headers]}
    if trailers:
        s["extensions"] = {"http.response.trailers": {}}
    if query is not None:
        s["query_string"] = query
    return s


# ------------------------------------------------------------------------------------------ WSGI
class Input:
    """wsgi.input: chunks of unknown size up to what was asked for, then end of file forever."""

    __identity__ = True

    def __init__(self, fail=False, chunks=True):
        self.state = "open"
        self._fail = fail
        self._chunks = chunks

    def read(self, n=-1):
        if self.state == "eof":
            return b""
        k = __choose__(3 if self._fail else 2, "wsgi.input.read()")
        if k == 0:
            self.state = "eof"
            return b""
        if k == 2:
            self.state = "failed"
            raise OSError(__event_value__("input error", "str"))
        d = __event_value__("chunk", "bytes")
        __assume__(len(d) > 0)
        if n is not None and n != -1:
            __assume__(len(d) <= n)
        if not self._chunks:
            self.state = "eof"
        return d


class Errors:
    __identity__ = True

    def __init__(self):
        self.n = 0
        self.text = None

    def write(self, s):
        self.n = 1
        self.text = s

    def writelines(self, l):
        self.n = 1

    def flush(self):
        pass


class StartResponse:
    __identity__ = True

    def __init__(self):
        self.n = 0
        self.status = None
        self.headers = None

    def __call__(self, status, headers, exc_info=None):
        self.n = self.n + 1
        self.status = status
        self.headers = headers
        self.on_start(status, headers)

    def on_start(self, status, headers):
        pass


class SendTrailers:
    __identity__ = True

    def __init__(self):
        self.n = 0
        self.headers = None

    def __call__(self, headers):
        self.n = self.n + 1
        self.headers = headers
        self.on_trailers(headers)

    def on_trailers(self, headers):
        pass


def environ_of(http_method="POST", path=PATH, headers=(), query="", inp=None, errors=None, trailers=None, length=None, http="HTTP/2", script=""):
    e = {"REQUEST_METHOD": http_method, "PATH_INFO": path, "SCRIPT_NAME": script, "QUERY_STRING": query, "wsgi.url_scheme": "http",
         "wsgi.input": inp or Input(), "wsgi.errors": errors or Errors(), "SERVER_PROTOCOL": http}
    for k, v in headers:
        if k == "content-type":
            e["CONTENT_TYPE"] = v
        else:
            e["HTTP_" + k.upper().replace("-", "_")] = v
    if length is not None:
        e["CONTENT_LENGTH"] = length
    if trailers is not None:
        e["wsgi.ext.http.send_trailers"] = trailers
    return e


# ------------------------------------------------------------------------------------------ services
async def ok_unary(req, ctx):
    return Res()


async def ok_client(reqs, ctx):
    async for r in reqs:
        pass
    return Res()


async def ok_server(req, ctx):
    yield Res()
    if __choose__(2, "second response"):
        yield Res()


async def ok_bidi(reqs, ctx):
    async for r in reqs:
        yield Res()


def ok_unary_s(req, ctx):
    return Res()


def ok_client_s(reqs, ctx):
    for r in reqs:
        pass
    return Res()


def ok_server_s(req, ctx):
    yield Res()
    if __choose__(2, "second response"):
        yield Res()


def ok_bidi_s(reqs, ctx):
    for r in reqs:
        yield Res()


OK = {"unary": ok_unary, "client": ok_client, "server": ok_server, "bidi": ok_bidi}
OK_S = {"unary": ok_unary_s, "client": ok_client_s, "server": ok_server_s, "bidi": ok_bidi_s}


def endpoint(kind, fn, m=None):
    m = m or method()
    if kind == "unary":
        return Endpoint.unary(method=m, function=fn)
    if kind == "client":
        return Endpoint.client_stream(method=m, function=fn)
    if kind == "server":
        return Endpoint.server_stream(method=m, function=fn)
    return Endpoint.bidi_stream(method=m, function=fn)


def endpoint_s(kind, fn, m=None):
    m = m or method()
    if kind == "unary":
        return EndpointSync.unary(method=m, function=fn)
    if kind == "client":
        return EndpointSync.client_stream(method=m, function=fn)
    if kind == "server":
        return EndpointSync.server_stream(method=m, function=fn)
    return EndpointSync.bidi_stream(method=m, function=fn)


def asgi_app(kind, fn, m=None, **kw):
    ep = endpoint(kind, fn, m)
    return AsgiApp(service=None, endpoints=lambda svc: {PATH: ep}, **kw)


def wsgi_app(kind, fn, m=None, **kw):
    return WsgiApp(endpoints={PATH: endpoint_s(kind, fn, m)}, **kw)


def run_wsgi(app, environ, sr, on_chunk=None, abandon=False):
    """Plays the WSGI server: iterates the body (possibly abandoning it) and closes it."""
    body = app(environ, sr)
    try:
        for chunk in body:
            if on_chunk is not None:
                on_chunk(chunk)
            if abandon and __choose__(2, "client goes away"):
                return False
    finally:
        close = getattr(body, "close", None)
        if close is not None:
            close()
    return True


# ------------------------------------------------------------------------------------------ client transports
class Resp:
    """A response as the HTTP client shows it."""

    __identity__ = True

    def __init__(self, status, headers, content, trailers=()):
        self.status = status
        self.headers = pyqwest.Headers(headers)
        self.content = content
        self.trailers = pyqwest.Headers(trailers)


class StreamCM:
    def __init__(self, resp, on_enter=None):
        self._resp = resp
        self._on_enter = on_enter

    async def __aenter__(self):
        if self._on_enter is not None:
            self._on_enter()
        return self._resp

    async def __aexit__(self, *a):
        return None


class StreamCMSync:
    def __init__(self, resp, on_enter=None):
        self._resp = resp
        self._on_enter = on_enter

    def __enter__(self):
        if self._on_enter is not None:
            self._on_enter()
        return self._resp

    def __exit__(self, *a):
        return None


class Http(pyqwest.Client):
    """An asynchronous HTTP client whose answers come from the callbacks."""

    __identity__ = True

    def __init__(self, unary=None, stream=None):
        self._unary, self._stream = unary, stream

    async def get(self, url, headers=None, **kw):
        return self._unary("GET", url, headers, None)

    async def post(self, url, headers=None, content=None, **kw):
        return self._unary("POST", url, headers, content)

    def stream(self, method, url, headers=None, content=None, **kw):
        return self._stream(method, url, headers, content)


class HttpSync(pyqwest.SyncClient):
    __identity__ = True

    def __init__(self, unary=None, stream=None):
        self._unary, self._stream = unary, stream
        self.timeout = None

    def get(self, url, headers=None, timeout=None, **kw):
        self.timeout = timeout
        return self._unary("GET", url, headers, None)

    def post(self, url, headers=None, content=None, timeout=None, **kw):
        self.timeout = timeout
        return self._unary("POST", url, headers, content)

    def stream(self, method, url, headers=None, content=None, timeout=None, **kw):
        self.timeout = timeout
        return self._stream(method, url, headers, content)


async def achunks(it):
    for c in it:
        yield c


def chunks(on_item=None):
    """A response body of unknown many chunks of unknown content."""
    while __choose__(2, "response chunk or end of stream"):
        yield __event_value__("chunk", "bytes")


async def areq(n=1):
    for i in range(n):
        yield Req()


def sreq(n=1):
    for i in range(n):
        yield Req()


# ------------------------------------------------------------------------------------------ JSON texts from the network
def utf8(data):
    """Assumes that the bytes are UTF-8, as those of a JSON text are."""
    try:
        data.decode()
    except UnicodeDecodeError:
        __prune__()
    return data


def few_json(data):
    """A small family of JSON texts: not JSON, an empty object, an error object."""
    k = __choose__(3, "JSON text")
    if k == 0:
        raise json.JSONDecodeError("not JSON", "", 0)
    if k == 1:
        return {}
    return {"error": {"code": "internal", "message": "m"}, "metadata": {}, "code": "internal", "message": "m"}
