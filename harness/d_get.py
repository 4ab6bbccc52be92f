"""GET requests of unary methods: what the query says is what the service function gets."""

import base64
import json

from urllib.parse import parse_qs, urlencode

from server import *

__paths__(600)

BIN = __opaque__("binary message", "bytes")
TXT = __opaque__("text message", "str")

# query, message, codec: what is to reach the service function
FINE = [
    ("connect=v1&encoding=json&message=%7B%22a%22%3A1%7D", b'{"a":1}', "json"),
    ("connect=v1&encoding=json&message={}", b"{}", "json"),
    ("encoding=json&message=a+b%2Bc%26d%3D%25", b"a b+c&d=%", "json"),
    ("message=%E2%82%AC&encoding=json&connect=v1", b"\xe2\x82\xac", "json"),
    ("connect=v1&encoding=json&message=%E2%82%AC&base64=0", b"\xe2\x82\xac", "json"),
    ("connect=v1&encoding=proto&message=%08%96%01", b"\x08\x96\x01", "proto"),
    ("connect=v1&encoding=proto&message=%00%C3%28%FF%ED%A0%80", b"\x00\xc3\x28\xff\xed\xa0\x80", "proto"),
    ("connect=v1&encoding=proto&message=aGVsbG8", b"aGVsbG8", "proto"),
    ("connect=v1&encoding=proto&message=", b"", "proto"),
    ("connect=v1&encoding=proto&base64=1&message=", b"", "proto"),
    ("connect=v1&encoding=proto&base64=1&message=AQ", b"\x01", "proto"),
    ("connect=v1&encoding=proto&base64=1&message=AQ%3D%3D", b"\x01", "proto"),
    ("connect=v1&encoding=proto&base64=1&message=AQ==", b"\x01", "proto"),
    ("connect=v1&encoding=proto&base64=1&message=AQI", b"\x01\x02", "proto"),
    ("connect=v1&encoding=proto&base64=1&message=AQI%3D", b"\x01\x02", "proto"),
    ("base64=1&connect=v1&message=AQID&encoding=proto", b"\x01\x02\x03", "proto"),
    ("connect=v1&encoding=proto&base64=1&message=AQIDBA", b"\x01\x02\x03\x04", "proto"),
    ("connect=v1&base64=1&encoding=proto&message=-__--w", b"\xfb\xff\xfe\xfb", "proto"),
    ("connect=v1&base64=1&encoding=json&message=-__--w%3D%3D", b"\xfb\xff\xfe\xfb", "json"),
    ("connect=v1&base64=1&encoding=json&message=_-8", b"\xff\xef", "json"),
    ("connect=v1&base64=1&compression=identity&encoding=json&message=_-8", b"\xff\xef", "json"),
    ("connect=v1&base64=1&compression=flip&encoding=proto&message=AQID", b"\x03\x02\x01", "proto"),
    ("connect=v1&base64=1&compression=flip&encoding=proto&message=AQI", b"\x02\x01", "proto"),
    ("connect=v1&compression=flip&encoding=proto&message=%ff%00", b"\x00\xff", "proto"),
    ("connect=v1&compression=turn&encoding=json&message=abcd", b"bcda", "json"),
    ("message=abcd&encoding=json&compression=turn&extra=1&connect=v1", b"bcda", "json"),
]
# query, how it is to be refused: a Connect error code, or None for any refusal
REFUSED = [
    ("connect=v1&encoding=proto&base64=1&message=a", "invalid_argument"),
    ("connect=v1&encoding=proto&base64=1&message=aGVsb", "invalid_argument"),
    ("connect=v1&encoding=proto&base64=1&message=aGVs!bG8", "invalid_argument"),
    ("connect=v1&encoding=proto&base64=1&message=@@@@", "invalid_argument"),
    ("connect=v1&encoding=proto&base64=1&message=%20%20%20%20", "invalid_argument"),
    ("connect=v1&encoding=proto&base64=1&message=aG%0AVs", "invalid_argument"),
    ("connect=v1&encoding=proto&base64=1&message=A%3D%3D%3D", "invalid_argument"),
    ("connect=v1&encoding=proto&base64=1&message=%E2%82%AC%E2%82%AC", "invalid_argument"),
    ("connect=v1&encoding=proto&base64=1&message=%FF%FF%FF%FF", "invalid_argument"),
    ("connect=v1&encoding=proto&base64=1", "invalid_argument"),
    ("connect=v1&encoding=json", "invalid_argument"),
    ("connect=v1&encoding=json&Message=%7B%7D", "invalid_argument"),
    ("connect=v1&encoding=json&compression=other&message=%7B%7D", "unimplemented"),
    ("connect=v1&encoding=proto&base64=1&compression=other&message=AQ", "unimplemented"),
    ("connect=v1&encoding=proto&compression=other&message=", "unimplemented"),
    ("connect=v1&encoding=text&message=%7B%7D", None),
    ("connect=v1&message=%7B%7D", None),
    ("", None),
]


class State:
    __identity__ = True

    def __init__(self):
        self.due = None  # (message, codec) that is to reach the service function
        self.query = ""
        self.calls = 0


S = State()
RES = Res()


class GCodec:
    __identity__ = True

    def __init__(self, name):
        self._name = name

    def name(self):
        return self._name

    def encode(self, message):
        return __fn__("encode", "bytes", message, self._name)

    def decode(self, data, message_class):
        if __kindof__(data) != "bytes":
            data = bytes(data)
        return __fn__("decode", "obj:Msg", data, self._name)


class Flip:
    __identity__ = True

    def name(self):
        return "flip"

    def compress(self, data):
        return __fn__("flip", "bytes", data)

    def decompress(self, data):
        if __isconst__(data):
            return data[::-1]
        u = __unfn__(data, "flip")
        return u[0] if u is not None else __fn__("unflip", "bytes", data)


class Turn:
    __identity__ = True

    def name(self):
        return "turn"

    def compress(self, data):
        return __fn__("turn", "bytes", data)

    def decompress(self, data):
        if __isconst__(data):
            return data[1:] + data[:1]
        u = __unfn__(data, "turn")
        return u[0] if u is not None else __fn__("unturn", "bytes", data)


def served(req):
    S.calls = S.calls + 1
    if S.due is None:
        __violation__("C31.ran", "the service function runs for a query that is to be refused:", S.query)
    elif req is not __fn__("decode", "obj:Msg", S.due[0], S.due[1]):
        __violation__("C31.message", "the service function gets another message than the query carries:", S.query)


async def f_unary(req, ctx):
    served(req)
    return RES


def s_unary(req, ctx):
    served(req)
    return RES


def symbolic():
    """Queries with any message, any binary one included: the parameters, the message, the codec."""
    k = __choose__(6, "parameters")
    plain = [("connect", "v1"), ("encoding", "proto")]
    if k == 0:
        return plain + [("message", BIN)], BIN
    if k == 1:
        return plain + [("message", TXT)], TXT.encode()
    if k == 2:
        return plain + [("base64", "1"), ("message", base64.urlsafe_b64encode(BIN).decode())], BIN
    if k == 3:
        return plain + [("base64", "1"), ("message", base64.urlsafe_b64encode(BIN).decode().rstrip("="))], BIN
    c = __fn__("flip", "bytes", BIN)
    __assume__(len(c) > 0)
    if k == 4:
        return plain + [("base64", "1"), ("compression", "flip"), ("message", base64.urlsafe_b64encode(c).decode().rstrip("="))], BIN
    return [("message", c), ("compression", "flip")] + plain, BIN


def question(what):
    if what == "fine":
        q, m, c = FINE[__choose__(len(FINE), "query")]
        S.query, S.due = q, (m, c)
        return q, "ok"
    if what == "refused":
        q, code = REFUSED[__choose__(len(REFUSED), "query")]
        S.query = q
        return q, code
    pairs, m = symbolic()
    S.query = str([p[0] for p in pairs])
    S.due = (m, "proto")
    return urlencode(pairs), "ok"


def verdict(code, status, body, headers):
    if status is None:
        __violation__("C31.answer", "no response to the query", S.query)
        __prune__()
    if code == "ok":
        __cover__("ok")
        if S.calls != 1:
            __violation__("C31.served", "the service function does not run for the query", S.query)
            __prune__()
        if status != 200:
            __violation__("C31.served", f"the answer to a served query has status {status}:", S.query)
            __prune__()
        types = [text(v) for k, v in headers if text(k).lower() == "content-type"]
        if types != ["application/" + S.due[1]] or body is not __fn__("encode", "bytes", RES, S.due[1]):
            __violation__("C31.served", "the answer is not in the codec the query names:", S.query)
        return
    __cover__("refused")
    if S.calls:
        __prune__()
    if code is None:
        if status < 400:
            __violation__("C31.refused", f"status {status} for a query that is to be refused:", S.query)
        return
    want = 400 if code == "invalid_argument" else 501
    if status != want:
        __violation__("C31.refused", f"status {status} instead of {want} for the query", S.query)
        __prune__()
    if json.loads(body)["code"] != code:
        __violation__("C31.refused", f"the query is not answered with the error {code}:", S.query)


class Out(Send):
    __identity__ = True

    def __init__(self):
        super().__init__()
        self.got = []

    def on_body(self, body, more):
        self.got.append(body)


class NoBody:
    __identity__ = True

    async def __call__(self):
        return {"type": "http.request", "body": b"", "more_body": False}


OPTS = {"codecs": None}


async def server(what):
    q, code = question(what)
    app = asgi_app("unary", f_unary, method(IdempotencyLevel.NO_SIDE_EFFECTS), codecs=[GCodec("proto"), GCodec("json")], compressions=[Flip(), Turn()])
    send = Out()
    try:
        await app(scope_of("GET", PATH, [], q.encode()), NoBody(), send)
    except Exception:
        __violation__("C31.answer", "an exception instead of an answer to the query", S.query)
        __prune__()
    verdict(code, send.status, b"".join(send.got), send.headers)


class Nothing:
    __identity__ = True

    def read(self, n=-1):
        return b""


def server_s(what):
    q, code = question(what)
    app = wsgi_app("unary", s_unary, method(IdempotencyLevel.NO_SIDE_EFFECTS), codecs=[GCodec("proto"), GCodec("json")], compressions=[Flip(), Turn()])
    sr, got = StartResponse(), []
    try:
        run_wsgi(app, environ_of("GET", PATH, [], q, Nothing()), sr, got.append)
    except Exception:
        __violation__("C31.answer", "an exception instead of an answer to the query", S.query)
        __prune__()
    status = None
    if sr.status is not None:
        status = int(sr.status[:3])
    verdict(code, status, b"".join(got), sr.headers)


# ---------------------------------------------------------------------------------------- clients
MSG = Msg()


def requested(packed):
    def unary(m, url, headers, content):
        S.calls = S.calls + 1
        if m != "GET":
            __violation__("C31.sent", "a call that is to use GET sends", m)
            __prune__()
        path, mark, query = url.partition("?")
        if path != "http://h" + PATH:
            __violation__("C31.sent", "the request does not go to the method's address")
        if content is not None:
            __violation__("C31.sent", "a GET request has a body")
        ps = parse_qs(query, keep_blank_values=True, errors="surrogateescape")
        if "connect" not in ps or "encoding" not in ps or "message" not in ps or packed and "compression" not in ps:
            __violation__("C31.sent", f"the query has the parameters {sorted(ps)}")
            __prune__()
        for k in ps:
            if len(ps[k]) != 1:
                __violation__("C31.sent", f"the query gives {k} twice")
        if ps["connect"][0] != "v1" or ps["encoding"][0] != "proto" or "compression" in ps and ps["compression"][0] != ("flip" if packed else "identity"):
            __violation__("C31.sent", "the query names another version, codec or compression than the request uses")
        data = ps["message"][0]
        if "base64" in ps and ps["base64"][0] == "1":
            try:
                data = base64.urlsafe_b64decode(data + "==")
            except ValueError:
                __violation__("C31.sent", "the message of the query is not URL-safe base64")
                __prune__()
        else:
            data = data.encode("utf-8", "surrogateescape")
        due = __fn__("encode", "bytes", MSG, "proto")
        if packed:
            due = __fn__("flip", "bytes", due)
        if data is not due:
            __violation__("C31.sent", "the query does not carry the message of the call")
        names = [k.lower() for k in headers]
        if "content-encoding" in names:
            __violation__("C31.sent", "a GET request without a body has a content-encoding")
        __cover__("sent")
        return pyqwest.FullResponse(status=200, headers=pyqwest.Headers([("content-type", "application/proto")]), content=b"r", trailers=pyqwest.Headers([]))
    return unary


def opts(packed):
    return {"send_compression": Flip() if packed else None, "accept_compression": [Flip(), Turn()], "codec": GCodec("proto")}


async def client(packed):
    cl = ConnectClient("http://h", http_client=Http(requested(packed)), **opts(packed))
    try:
        await cl.execute_unary(request=MSG, method=method(IdempotencyLevel.NO_SIDE_EFFECTS), use_get=True)
    except ConnectError:
        __violation__("C31.sent", "a call that uses GET fails")
        __prune__()
    if S.calls != 1:
        __violation__("C31.sent", "a call that uses GET does not send one request")


def client_s(packed):
    cl = ConnectClientSync("http://h", http_client=HttpSync(requested(packed)), **opts(packed))
    try:
        cl.execute_unary(request=MSG, method=method(IdempotencyLevel.NO_SIDE_EFFECTS), use_get=True)
    except ConnectError:
        __violation__("C31.sent", "a call that uses GET fails")
        __prune__()
    if S.calls != 1:
        __violation__("C31.sent", "a call that uses GET does not send one request")


__precise__(served, question, verdict, symbolic, State, GCodec, Flip, Turn, Out, requested)
