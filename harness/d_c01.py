"""C01: the configured message size limit stands between the network and the codec, everywhere."""

from env import *

MAX = __opaque__("read_max_bytes", "int")
CE = __opaque__("request encoding name", "str")
LEN = __opaque__("content-length", "str")
QUERY = __opaque__("query string", "str")
ENC = __opaque__("response encoding name", "str")
HOOKS["json"] = few_json


def check(data, cls):
    __cover__("a message is decoded")
    if len(data) > MAX:
        __violation__("C01.over-limit", "a message larger than read_max_bytes reaches the codec")


LAST = {"code": None}


class CheckSend(Send):
    pass


def codecs():
    return [Codec("proto", check)]


def limit_error(e):
    """An error raised because of size must mean that something was over the limit (checked where sizes are in reach)."""
    return isinstance(e, ConnectError) and e.code == Code.RESOURCE_EXHAUSTED


async def asgi_post():
    app = asgi_app("unary", ok_unary, read_max_bytes=MAX, codecs=codecs(), compressions=[Comp("gzip")])
    await app(scope_of(headers=[("content-type", "application/proto"), ("content-encoding", CE)]), Receive(), Send())


async def asgi_get():
    m = method(IdempotencyLevel.NO_SIDE_EFFECTS)
    app = asgi_app("unary", ok_unary, m, read_max_bytes=MAX, codecs=codecs(), compressions=[Comp("gzip")])
    await app(scope_of("GET", query=QUERY.encode()), Receive(), Send())


async def asgi_stream(kind, proto):
    app = asgi_app(kind, OK[kind], read_max_bytes=MAX, codecs=codecs(), compressions=[Comp("gzip")])
    await app(scope_of(headers=[("content-type", CT_STREAM[proto]), (ENC_HDR[proto], CE)]), Receive(), Send())


def wsgi_post(with_length):
    app = wsgi_app("unary", ok_unary_s, read_max_bytes=MAX, codecs=codecs(), compressions=[Comp("gzip")])
    run_wsgi(app, environ_of(headers=[("content-type", "application/proto"), ("content-encoding", CE)], length=LEN if with_length else None), StartResponse())


def wsgi_get():
    m = method(IdempotencyLevel.NO_SIDE_EFFECTS)
    app = wsgi_app("unary", ok_unary_s, m, read_max_bytes=MAX, codecs=codecs(), compressions=[Comp("gzip")])
    run_wsgi(app, environ_of("GET", query=QUERY), StartResponse())


def wsgi_stream(kind, proto):
    app = wsgi_app(kind, OK_S[kind], read_max_bytes=MAX, codecs=codecs(), compressions=[Comp("gzip")])
    run_wsgi(app, environ_of(headers=[("content-type", CT_STREAM[proto]), (ENC_HDR[proto], CE)], trailers=SendTrailers()), StartResponse())


def unary_resp(*a):
    return Resp(__event_value__("status", "int"), [("content-type", __event_value__("response content type", "str")), ("content-encoding", ENC)], __event_value__("response body", "bytes"))


def stream_headers(proto):
    return [("content-type", CT_STREAM[proto]), (ENC_HDR[proto], ENC)]


async def client_unary(get):
    cl = ConnectClient("http://h", codec=Codec("proto", check), accept_compression=[Comp("gzip")], send_compression=None, read_max_bytes=MAX, http_client=Http(unary_resp))
    await cl.execute_unary(request=Req(), method=method(IdempotencyLevel.NO_SIDE_EFFECTS), use_get=get)


async def client_stream(kind, proto):
    def answer(*a):
        return StreamCM(Resp(200, stream_headers(proto), achunks(chunks()), [("grpc-status", "0")]))

    cl = ConnectClient("http://h", codec=Codec("proto", check), protocol=PROTO[proto], accept_compression=[Comp("gzip")], send_compression=None, read_max_bytes=MAX, http_client=Http(unary_resp, answer))
    if kind == "unary":
        await cl.execute_unary(request=Req(), method=method())
    elif kind == "client":
        await cl.execute_client_stream(request=areq(), method=method())
    elif kind == "server":
        async for m in cl.execute_server_stream(request=Req(), method=method()):
            pass
    else:
        async for m in cl.execute_bidi_stream(request=areq(), method=method()):
            pass


def client_unary_s(get):
    cl = ConnectClientSync("http://h", codec=Codec("proto", check), accept_compression=[Comp("gzip")], send_compression=None, read_max_bytes=MAX, http_client=HttpSync(unary_resp))
    cl.execute_unary(request=Req(), method=method(IdempotencyLevel.NO_SIDE_EFFECTS), use_get=get)


def client_stream_s(kind, proto):
    def answer(*a):
        return StreamCMSync(Resp(200, stream_headers(proto), chunks(), [("grpc-status", "0")]))

    cl = ConnectClientSync("http://h", codec=Codec("proto", check), protocol=PROTO[proto], accept_compression=[Comp("gzip")], send_compression=None, read_max_bytes=MAX, http_client=HttpSync(unary_resp, answer))
    if kind == "unary":
        cl.execute_unary(request=Req(), method=method())
    elif kind == "client":
        cl.execute_client_stream(request=sreq(), method=method())
    elif kind == "server":
        for m in cl.execute_server_stream(request=Req(), method=method()):
            pass
    else:
        for m in cl.execute_bidi_stream(request=sreq(), method=method()):
            pass
