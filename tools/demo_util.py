"""Small in-process ASGI, WSGI and HTTP-client stand-ins for the demonstrations."""
import asyncio
import os
import struct
import sys

for p in ("src", "connectrpc-otel", "."):
    sys.path.insert(0, os.path.join(os.getcwd(), p))

from connectrpc.client import ConnectClient, ConnectClientSync  # noqa: E402,F401
from connectrpc.code import Code  # noqa: E402,F401
from connectrpc.errors import ConnectError  # noqa: E402,F401
from connectrpc.method import IdempotencyLevel, MethodInfo  # noqa: E402
from connectrpc.protocol import ProtocolType  # noqa: E402,F401
from connectrpc.server import ConnectASGIApplication, ConnectWSGIApplication, Endpoint, EndpointSync  # noqa: E402

PATH = "/pkg.Service/Method"


class Text:
    """A message that is its text."""

    def __init__(self, text=""):
        self.text = text

    def __eq__(self, other):
        return isinstance(other, Text) and other.text == self.text

    def __repr__(self):
        return f"Text({self.text!r})"


class TextCodec:
    def __init__(self, name="proto"):
        self._name = name

    def name(self):
        return self._name

    def encode(self, message):
        return message.text.encode()

    def decode(self, data, message_class):
        return Text(bytes(data).decode())


class XorCompression:
    """Reversible, changes every byte and the length."""

    def __init__(self, name="xor"):
        self._name = name

    def name(self):
        return self._name

    def compress(self, data):
        return b"X" + bytes(b ^ 0x55 for b in data)

    def decompress(self, data):
        data = bytes(data)
        assert data[:1] == b"X", "not compressed"
        return bytes(b ^ 0x55 for b in data[1:])


def method(idempotency=IdempotencyLevel.UNKNOWN, name="Method"):
    return MethodInfo(name=name, service_name="pkg.Service", input=Text, output=Text, idempotency_level=idempotency)


class AsgiApp(ConnectASGIApplication):
    path = "/pkg.Service"


class WsgiApp(ConnectWSGIApplication):
    path = "/pkg.Service"


MAKE = {"unary": "unary", "client": "client_stream", "server": "server_stream", "bidi": "bidi_stream"}


def asgi_app(kind, fn, m=None, **kw):
    kw.setdefault("codecs", [TextCodec()])
    ep = getattr(Endpoint, MAKE[kind])(method=m or method(), function=fn)
    return AsgiApp(service=None, endpoints=lambda s: {PATH: ep}, **kw)


def wsgi_app(kind, fn, m=None, **kw):
    kw.setdefault("codecs", [TextCodec()])
    ep = getattr(EndpointSync, MAKE[kind])(method=m or method(), function=fn)
    return WsgiApp(endpoints={PATH: ep}, **kw)


def frame(data, flag=0):
    return struct.pack(">BI", flag, len(data)) + data


def frames(body):
    out = []
    while body:
        flag, n = struct.unpack(">BI", body[:5])
        assert len(body) >= 5 + n, "truncated envelope"
        out.append((flag, body[5:5 + n]))
        body = body[5 + n:]
    return out


async def asgi(app, headers, chunks, path=PATH, http_method="POST", query=b"", events=None, trailers=True, client=None, hold=False):
    """Runs one request; returns (events sent, exception or None)."""
    sent = []
    todo = list(events) if events is not None else [
        {"type": "http.request", "body": c, "more_body": i < len(chunks) - 1} for i, c in enumerate(chunks)]

    async def receive():
        await asyncio.sleep(0)
        if todo:
            e = todo.pop(0)
            if isinstance(e, BaseException):
                raise e
            return e
        if hold:
            await asyncio.sleep(3600)
        return {"type": "http.disconnect"}

    async def send(event):
        sent.append(event)
        await asyncio.sleep(0)

    scope = {"type": "http", "path": path, "root_path": "", "method": http_method, "scheme": "http",
             "headers": [(k.encode(), v.encode()) for k, v in headers], "query_string": query,
             "extensions": {"http.response.trailers": {}} if trailers else {}, "client": client}
    try:
        await app(scope, receive, send)
    except BaseException as e:
        return sent, e
    return sent, None


def body_of(sent):
    return b"".join(e.get("body", b"") for e in sent if e["type"] == "http.response.body")


class Input:
    def __init__(self, chunks):
        self.chunks = list(chunks)
        self.reads = 0
        self.eof = False

    def read(self, n=-1):
        self.reads += 1
        if not self.chunks:
            self.eof = True
            return b""
        c = self.chunks.pop(0)
        if n is not None and 0 <= n < len(c):
            self.chunks.insert(0, c[n:])
            c = c[:n]
        return c


def wsgi(app, headers, chunks, path=PATH, http_method="POST", query="", length=None, inp=None, http="HTTP/2", errors=None, extra=None):
    """Runs one request; returns dict(starts, body, chunks, trailers, error, errors)."""
    import io

    r = {"starts": [], "chunks": [], "trailers": [], "error": None, "errors": errors or io.StringIO()}
    env = {"REQUEST_METHOD": http_method, "PATH_INFO": path, "SCRIPT_NAME": "", "QUERY_STRING": query, "wsgi.url_scheme": "http",
           "wsgi.input": inp or Input(chunks), "wsgi.errors": r["errors"], "SERVER_PROTOCOL": http,
           "wsgi.ext.http.send_trailers": r["trailers"].append}
    for k, v in headers:
        if k == "content-type":
            env["CONTENT_TYPE"] = v
        else:
            env["HTTP_" + k.upper().replace("-", "_")] = v
    if length is not None:
        env["CONTENT_LENGTH"] = str(length)
    env.update(extra or {})
    try:
        it = app(env, lambda s, h, e=None: r["starts"].append((s, h)))
        try:
            for c in it:
                r["chunks"].append(c)
        finally:
            if hasattr(it, "close"):
                it.close()
    except BaseException as e:
        r["error"] = e
    r["body"] = b"".join(r["chunks"])
    return r


class Result:
    def __init__(self):
        self.messages = []
        self.error = None
        self.headers = None
        self.trailers = None


def _execute(client, kind, m, msgs, headers, timeout_ms, use_get):
    kw = dict(method=m, headers=headers, timeout_ms=timeout_ms)
    if kind == "unary":
        return client.execute_unary(request=msgs[0], use_get=use_get, **kw)
    if kind == "server":
        return client.execute_server_stream(request=msgs[0], **kw)
    return getattr(client, "execute_client_stream" if kind == "client" else "execute_bidi_stream")(request=msgs, **kw)


def call(app, kind, msgs, protocol=ProtocolType.CONNECT, m=None, headers=None, timeout_ms=None, use_get=False, transport=None, **kw):
    """Calls the application through the client of its kind (sync for WSGI); returns a Result."""
    from connectrpc.client import ResponseMetadata
    from pyqwest import Client, SyncClient
    from pyqwest.testing import ASGITransport, WSGITransport

    kw.setdefault("codec", TextCodec())
    kw.setdefault("send_compression", None)
    m = m or method()
    r = Result()
    if isinstance(app, ConnectWSGIApplication):
        with ResponseMetadata() as meta, ConnectClientSync("http://localhost", protocol=protocol, http_client=SyncClient(transport=(transport or WSGITransport)(app)), **kw) as c:
            try:
                got = _execute(c, kind, m, iter(msgs) if kind in ("client", "bidi") else msgs, headers, timeout_ms, use_get)
                if kind in ("unary", "client"):
                    r.messages.append(got)
                else:
                    for x in got:
                        r.messages.append(x)
            except Exception as e:
                r.error = e
            r.headers, r.trailers = meta.headers, meta.trailers
        return r

    async def main():
        async def feed():
            for x in msgs:
                yield x

        with ResponseMetadata() as meta:
            async with ConnectClient("http://localhost", protocol=protocol, http_client=Client(transport=(transport or ASGITransport)(app)), **kw) as c:
                try:
                    got = _execute(c, kind, m, feed() if kind in ("client", "bidi") else msgs, headers, timeout_ms, use_get)
                    if kind in ("unary", "client"):
                        r.messages.append(await got)
                    else:
                        async for x in got:
                            r.messages.append(x)
                except Exception as e:
                    r.error = e
            r.headers, r.trailers = meta.headers, meta.trailers

    asyncio.run(main())
    return r


def check(cond, msg):
    if not cond:
        print("BROKEN:", msg)
        sys.exit(1)
