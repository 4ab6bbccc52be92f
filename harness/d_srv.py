"""Both servers, every kind and protocol, with a service that ends in every way."""

from server import *

HOOKS["json"] = few_json
CE = __opaque__("request encoding name", "str")
AE = __opaque__("accepted encodings", "str")
LEN = __opaque__("content-length", "str")


def hdrs(proto, enc=True, accept=None):
    h = [("content-type", ct_of(proto))]
    if enc:
        h.append((ENC_HDR[proto], CE))
    if accept is not None:
        h.append((ACC_HDR[proto], accept))
    return h


def after(wire, done, raised):
    """What must hold when the application returns or raises."""
    w = W.outcome
    if raised is None:
        __cover__("returned", w)
    else:
        __cover__("raised", w)


async def asgi(kind, proto, req, accept, enc_fail=False, meta=False):
    META[0] = meta
    wire = Wire(proto, kind)
    send = WatchSend(wire, req == "cancel")
    app = asgi_app(kind, H[kind], codecs=[SrvCodec("proto", enc_fail)], compressions=[Comp("gzip")])
    receive = OneMessage(proto) if req == "one" else WatchReceive(cancel=req == "cancel")
    raised = None
    try:
        await app(scope_of(headers=hdrs(proto, req != "one", accept)), receive, send)
    except BaseException as e:
        raised = e
    if raised is None or not (W.cancelled or isinstance(raised, CancelledError)):
        if send.state != "done":
            __violation__("C02.incomplete", f"the application is finished but the response is in state '{send.state}'")
    elif send.state not in ("none", "done"):
        __violation__("C02.incomplete", f"the application is cancelled leaving the response in state '{send.state}'")
    after(wire, send.state, raised)


def wsgi(kind, proto, req, accept, enc_fail=False, meta=False, abandon=False):
    META[0] = meta
    wire = Wire(proto, kind)

    class SR(StartResponse):
        def on_start(self, status, headers):
            if self.n > 1:
                __violation__("C03.start-twice", "start_response is called twice")
            wire.start(200 if status.startswith("200") else 500, headers)

    class ST(SendTrailers):
        def on_trailers(self, headers):
            if self.n > 1:
                __violation__("C03.trailers-twice", "trailers are sent twice")

    sr, st = SR(), ST()

    def on_chunk(chunk):
        if sr.n == 0:
            __violation__("C03.body-first", "body bytes come before start_response")
        if __kindof__(chunk) != "bytes":
            __violation__("C03.chunk", "a body chunk is not a byte string")
        wire.data(chunk)

    app = wsgi_app(kind, H_S[kind], codecs=[SrvCodec("proto", enc_fail)], compressions=[Comp("gzip")])
    inp = OneInput(proto) if req == "one" else Input()
    env = environ_of(headers=hdrs(proto, req != "one", accept), trailers=st, inp=inp, length=LEN if req == "length" else None)
    raised = None
    whole = False
    try:
        whole = run_wsgi(app, env, sr, on_chunk, abandon)
    except BaseException as e:
        raised = e
    if raised is None:
        if sr.n == 0:
            __violation__("C03.no-start", "the application returns a body without calling start_response")
        if whole:
            wire.finish(st.headers)
    elif not isinstance(raised, CancelledError):
        __violation__("C03.raises", "the application lets an exception escape to the server")
    after(wire, sr.n, raised)


class OneInput:
    """wsgi.input with one well-formed message."""

    __identity__ = True

    def __init__(self, proto, flag=0, data=b"hello"):
        self.body = data if proto == "unary" else bytes([flag]) + len(data).to_bytes(4, "big") + data
        self.n = 0

    def read(self, n=-1):
        self.n = self.n + 1
        return self.body if self.n == 1 else b""
