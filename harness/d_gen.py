"""Generated code: what the plugin prints for a service is loaded and explored together with the library."""

from connectrpc.method import IdempotencyLevel
import protoc_gen_connectrpc
from protobuf.plugin import RUN, File
from protobuf.wkt import MethodOptions
from server import *

HOOKS["json"] = lambda data: {}
HOOKS["clock"] = lambda: 0
__paths__(600)
UNK, NSE, IDEM = MethodOptions.IdempotencyLevel.IDEMPOTENCY_UNKNOWN, MethodOptions.IdempotencyLevel.NO_SIDE_EFFECTS, MethodOptions.IdempotencyLevel.IDEMPOTENT
LEVEL = {"IDEMPOTENCY_UNKNOWN": IdempotencyLevel.UNKNOWN, "NO_SIDE_EFFECTS": IdempotencyLevel.NO_SIDE_EFFECTS, "IDEMPOTENT": IdempotencyLevel.IDEMPOTENT}
U, C, SV, B = "unary", "client_streaming", "server_streaming", "bidi_streaming"
KIND = {U: "unary", C: "client", SV: "server", B: "bidi"}
# name of the RPC, kind, idempotency, request and response (own: 0, nested: 1, of another file: 2), function on a service, method of a client
RPCS = [
    ("GetThing", U, NSE, 0, 1, "get_thing", "get_thing"),
    ("PutThing", U, UNK, 1, 0, "put_thing", "put_thing"),
    ("DropThing", U, IDEM, 2, 2, "drop_thing", "drop_thing"),
    ("HTTPGet", U, NSE, 2, 0, "http_get", "http_get"),
    ("import", U, UNK, 0, 2, "import_", "import_"),
    ("lowerName", U, UNK, 0, 0, "lower_name", "lower_name"),
    ("Upload", C, UNK, 0, 2, "upload", "upload"),
    ("UploadSafe", C, NSE, 1, 1, "upload_safe", "upload_safe"),
    ("List", SV, NSE, 2, 1, "list", "list"),
    ("Watch", SV, IDEM, 1, 0, "watch", "watch"),
    ("Chat", B, UNK, 1, 2, "chat", "chat"),
    ("GetThings", B, NSE, 0, 0, "get_things", "get_things"),
    ("Close", U, UNK, 0, 0, "close", "close_"),
    ("ExecuteUnary", U, UNK, 0, 0, "execute_unary", "execute_unary_"),
    ("ExecuteBidiStream", B, UNK, 0, 0, "execute_bidi_stream", "execute_bidi_stream_"),
]
METHODS = {"Things": RPCS, "More": [RPCS[0], RPCS[1], RPCS[8]]}
PY_CLASS = """
SEEN = []


class {0}:
    @classmethod
    def from_binary(cls, data):
        m = cls()
        m.data = data
        return m

    def to_binary(self):
        return b"{0}"
"""
GOOGLE_CLASS = """
class {0}:
    @classmethod
    def FromString(cls, data):
        m = cls()
        m.data = data
        return m

    def SerializeToString(self):
        return b"{0}"
"""
NEST = """

class Outer:
    class Mid:
        class Inner({0}):
            def {1}(self):
                return b"Inner"
"""


class DFile:
    def __init__(self, name):
        self.name = name
        self.services = []


class DMessage:
    def __init__(self, name, file, parent=None):
        self.name, self.file, self.parent = name, file, parent
        self.qualname = name if parent is None else parent.qualname + "." + name
        self.type_name = "things.v1." + self.qualname


class DMethod:
    def __init__(self, service, rpc, messages):
        self.parent = service
        self.name, self.method_kind, self.idempotency = rpc[0], rpc[1], rpc[2]
        self.input, self.output = messages[rpc[3]], messages[rpc[4]]
        self.deprecated = False


class DService:
    def __init__(self, file, name):
        self.file, self.name = file, name
        self.type_name = "things.v1." + name
        self.methods = []


class DSchema:
    def __init__(self, options, files):
        self.options, self.files_to_generate, self.files = options, files, []

    def generate_file(self, desc, suffix):
        f = File()
        self.files.append((desc, suffix, f))
        return f


class Lib:
    __identity__ = True

    def __init__(self):
        self.mod = None
        self.classes = None
        self.calls = []
        self.sent = []
        self.starts = 0


L = Lib()


def wrong(what):
    __violation__("C28.loads", what)
    __prune__()


def generated(protobuf, io):
    """The module for one file with two services."""
    google = protobuf == "google"
    own, other = DFile("things/v1/thing.proto"), DFile("other/dir-x/shared.proto" if google else "other/dirx/shared.proto")
    messages = [DMessage("Thing", own), DMessage("Inner", own, DMessage("Mid", own, DMessage("Outer", own))), DMessage("Shared", other)]
    for name in ("Things", "More"):
        s = DService(own, name)
        s.methods = [DMethod(s, r, messages) for r in METHODS[name]]
        own.services.append(s)
    template, enc = (GOOGLE_CLASS, "SerializeToString") if google else (PY_CLASS, "to_binary")
    mine, theirs = ("thing_pb2", "other.dir_x.shared_pb2") if google else ("things.v1.thing_pb", "other.dirx.shared_pb")
    __load__(template.format("Thing") + NEST.format("Thing", enc), mine)
    __load__(template.format("Shared"), theirs)
    m, t = __module__(mine), __module__(theirs)
    L.classes = [m.Thing, m.Outer.Mid.Inner, t.Shared]
    protoc_gen_connectrpc.main()
    options = RUN[0][0]()
    options.protobuf = [x for x in type(options.protobuf) if x.value == protobuf][0]
    if io is not None:
        options.io = [x for x in protoc_gen_connectrpc._IOOption if x.value == io][0]
    sch = DSchema(options, [own, DFile("empty.proto")])
    RUN[0][1](sch)
    if len(sch.files) != 1 or sch.files[0][0] is not own or sch.files[0][1] != "_connect.py":
        wrong("code is not generated for exactly the files with services")
    f = sch.files[0][2]
    bad = __load__(f.text(), "generated_" + protobuf + "_" + str(io))
    if bad is not None:
        wrong("the generated module is broken: " + bad)
    L.mod = __module__("generated_" + protobuf + "_" + str(io))


def has(name, what):
    if not hasattr(L.mod, name):
        wrong(f"the generated module lacks {what} {name}")
    return getattr(L.mod, name)


# ------------------------------------------------------------------------------------------ servers
class Meta:
    __identity__ = True

    async def on_start(self, ctx):
        L.starts = L.starts + 1

    async def on_end(self, token, ctx, error):
        pass

    def on_start_sync(self, ctx):
        L.starts = L.starts + 1

    def on_end_sync(self, token, ctx, error):
        pass


class Svc:
    """A service whose functions record their calls."""

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return Fn(name)


class Fn:
    def __init__(self, name):
        self.name = name
        self.rpc = [r for r in RPCS if r[5] == name]

    def __call__(self, request, ctx):
        if not self.rpc:
            __violation__("C28.function", "a request is handled by a function that is not of its service")
            __prune__()
        k = self.rpc[0][1]
        L.calls.append((self.name, request, ctx))
        if k == U:
            return self.unary(self.rpc[0][4])
        if k == C:
            return self.client(request, self.rpc[0][4])
        return self.stream(request, self.rpc[0][4], k == B)

    async def unary(self, out):
        return L.classes[out]()

    async def client(self, reqs, out):
        async for r in reqs:
            L.sent.append(r)
        return L.classes[out]()

    async def stream(self, reqs, out, bidi):
        if bidi:
            async for r in reqs:
                L.sent.append(r)
        yield L.classes[out]()


class FnSync(Fn):
    def unary(self, out):
        return L.classes[out]()

    def client(self, reqs, out):
        for r in reqs:
            L.sent.append(r)
        return L.classes[out]()

    def stream(self, reqs, out, bidi):
        if bidi:
            for r in reqs:
                L.sent.append(r)
        yield L.classes[out]()


class SvcSync:
    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return FnSync(name)


def frame(p):
    return bytes([0, 0, 0, 0, len(p)]) + p


class Rx:
    __identity__ = True

    def __init__(self, body):
        self._body = body

    async def __call__(self):
        b, self._body = self._body, None
        if b is None:
            return {"type": "http.disconnect"}
        return {"type": "http.request", "body": b, "more_body": False}


class In:
    __identity__ = True

    def __init__(self, body):
        self._body = body

    def read(self, n=-1):
        b, self._body = self._body, b""
        return b


class Keep(Send):
    def __init__(self):
        super().__init__()
        self.body = b""

    def on_body(self, body, more):
        self.body = self.body + body

    def on_start(self, msg):
        pass

    def on_trailers(self, headers):
        pass


NAMES = [b"Thing", b"Inner", b"Shared"]


def judge_server(rpc, service, status, body, limit):
    if limit:
        if L.calls and not (rpc[1] in (C, B) and not L.sent):
            __violation__("C28.options", "the limit on the size of messages is not passed on")
        __cover__("limit")
        return
    if len(L.calls) != 1:
        __violation__("C28.call", f"a request for {rpc[0]} does not reach its service function once")
        __prune__()
    name, request, ctx = L.calls[0]
    if name != rpc[5]:
        __violation__("C28.function", f"a request for {rpc[0]} is handled by {name}")
    info = ctx.method
    if info.name != rpc[0] or info.service_name != "things.v1." + service:
        __violation__("C28.info", f"a service function is told another method than {rpc[0]}")
    if info.idempotency_level != LEVEL[rpc[2].name]:
        __violation__("C28.level", f"a service function is told another idempotency level than that of {rpc[0]}")
    got = L.sent if rpc[1] in (C, B) else [request]
    if len(got) != 1 or type(got[0]) is not L.classes[rpc[3]] or got[0].data != b"abc":
        __violation__("C28.request", f"a request of {rpc[0]} is not decoded as its message")
    plain = rpc[1] == U
    want = NAMES[rpc[4]] if plain else frame(NAMES[rpc[4]])
    if status != 200 or not body.startswith(want):
        __violation__("C28.response", f"the response of {rpc[0]} is not what its service function returned")
    if L.starts != 1:
        __violation__("C28.options", "the interceptors are not passed on")
    __cover__("served")


def choose():
    service = ["Things", "More"][__choose__(2, "service")]
    return METHODS[service][__choose__(len(METHODS[service]), "method")], service


def options(sync):
    limit = __choose__(2, "limit") == 1
    kw = {"interceptors": [Meta()], "compressions": [Comp("own")]}
    if limit:
        kw["read_max_bytes"] = 2
    return limit, kw


async def asgi(protobuf, io):
    generated(protobuf, io)
    rpc, service = choose()
    limit, kw = options(False)
    app = has(service + "ASGIApplication", "the class")(Svc(), **kw)
    if app.path != "/things.v1." + service:
        __violation__("C28.path", "an application has another path than its service")
    plain = rpc[1] == U
    tx = Keep()
    h = [("content-type", "application/proto" if plain else "application/connect+proto")]
    try:
        await app(scope_of("POST", f"/things.v1.{service}/{rpc[0]}", h), Rx(b"abc" if plain else frame(b"abc")), tx)
    except Exception as e:
        pass
    judge_server(rpc, service, tx.status, tx.body, limit)


def wsgi(protobuf, io):
    generated(protobuf, io)
    rpc, service = choose()
    limit, kw = options(True)
    app = has(service + "WSGIApplication", "the class")(SvcSync(), **kw)
    if app.path != "/things.v1." + service:
        __violation__("C28.path", "an application has another path than its service")
    plain = rpc[1] == U
    out = [b"", 0]

    def sr(status, headers, exc=None):
        out[1] = int(status[:3])

    def chunk(b):
        out[0] = out[0] + b

    h = [("content-type", "application/proto" if plain else "application/connect+proto")]
    try:
        run_wsgi(app, environ_of("POST", f"/things.v1.{service}/{rpc[0]}", h, "", In(b"abc" if plain else frame(b"abc")), trailers=lambda t: None), sr, chunk)
    except Exception as e:
        pass
    judge_server(rpc, service, out[1], out[0], limit)


def plain_request(rpc):
    u = rpc[1] == U
    return [("content-type", "application/proto" if u else "application/connect+proto")], b"abc" if u else frame(b"abc")


def judge_unimplemented(rpc, status, body):
    if rpc[1] == U:
        d = json.loads(body)
    else:
        fs = Frames().feed(body)
        d = json.loads(fs[0][1]).get("error", {}) if len(fs) == 1 else {}
    if status != (501 if rpc[1] == U else 200) or d.get("code") != "unimplemented":
        __violation__("C28.unimplemented", f"{rpc[0]} does not fail as unimplemented although its service does not provide it")
    __cover__("unimplemented")


async def partial(protobuf, io):
    """Functions that a service does not provide."""
    generated(protobuf, io)
    rpc, service = choose()
    base = has(service, "the protocol")

    class Mine(base):
        pass

    tx = Keep()
    h, body = plain_request(rpc)
    try:
        await has(service + "ASGIApplication", "the class")(Mine())(scope_of("POST", f"/things.v1.{service}/{rpc[0]}", h), Rx(body), tx)
    except Exception as e:
        wrong("a service without functions makes its application fail")
    judge_unimplemented(rpc, tx.status, tx.body)


def partial_s(protobuf, io):
    generated(protobuf, io)
    rpc, service = choose()
    base = has(service + "Sync", "the protocol")

    class Mine(base):
        pass

    out = [b"", 0]

    def sr(status, headers, exc=None):
        out[1] = int(status[:3])

    def chunk(b):
        out[0] = out[0] + b

    h, body = plain_request(rpc)
    try:
        run_wsgi(has(service + "WSGIApplication", "the class")(Mine()), environ_of("POST", f"/things.v1.{service}/{rpc[0]}", h, "", In(body), trailers=lambda t: None), sr, chunk)
    except Exception as e:
        wrong("a service without functions makes its application fail")
    judge_unimplemented(rpc, out[1], out[0])


# ------------------------------------------------------------------------------------------ clients
class CM:
    def __init__(self, out, content):
        self._out, self._content = out, content

    async def abody(self):
        async for c in self._content:
            L.sent.append(c)
        yield frame(self._out) + bytes([2, 0, 0, 0, 2]) + b"{}"

    def sbody(self):
        for c in self._content:
            L.sent.append(c)
        yield frame(self._out) + bytes([2, 0, 0, 0, 2]) + b"{}"

    async def __aenter__(self):
        return Resp(200, [("content-type", "application/connect+proto")], self.abody(), [])

    async def __aexit__(self, *a):
        pass

    def __enter__(self):
        return Resp(200, [("content-type", "application/connect+proto")], self.sbody(), [])

    def __exit__(self, *a):
        pass


def network(rpc):
    out = b"def"

    def unary(m, u, h, c):
        L.calls.append((m, u, dict(h.items())))
        if c is not None:
            L.sent.append(c)
        return pyqwest.FullResponse(status=200, headers=pyqwest.Headers([("content-type", "application/proto")]), content=out, trailers=pyqwest.Headers([]))

    def stream(m, u, h, c):
        L.calls.append((m, u, dict(h.items())))
        return CM(out, c)

    return unary, stream


def judge_client(rpc, service, get, result, raised):
    if raised is not None:
        __violation__("C28.client", f"a call of {rpc[0]} through the generated client fails: {type(raised)} {raised.args}")
        return
    if len(L.calls) != 1:
        __violation__("C28.client", f"a call of {rpc[0]} does not make one request")
        __prune__()
    m, u, h = L.calls[0]
    path = f"http://h/things.v1.{service}/{rpc[0]}"
    if get:
        if m != "GET" or not u.startswith(path + "?"):
            __violation__("C28.get", "use_get does not make a GET request for the method")
    elif m != "POST" or u != path:
        __violation__("C28.url", f"a call of {rpc[0]} makes a request for another path")
    if h.get("x-own") != "1" or h.get("connect-timeout-ms") != "5":
        __violation__("C28.arguments", "headers or timeout of a call are not passed on")
    if not get:
        want = NAMES[rpc[3]] if rpc[1] == U else frame(NAMES[rpc[3]])
        if L.sent != [want]:
            __violation__("C28.sent", "the request of a call is not what is sent")
    if len(result) != 1 or type(result[0]) is not L.classes[rpc[4]] or result[0].data != b"def":
        __violation__("C28.result", f"the response to {rpc[0]} is not decoded as its message")
    if L.starts != 1:
        __violation__("C28.options", "the interceptors are not passed on")
    __cover__("called")


def safe(rpc):
    return rpc[1] == U and rpc[2] == NSE


async def areq(m):
    yield m


def sreq(m):
    yield m


def call_args(rpc):
    kw = {"headers": {"x-own": "1"}, "timeout_ms": 5}
    get = safe(rpc) and __choose__(2, "GET") == 1
    if get:
        kw["use_get"] = True
    return kw, get


async def client(protobuf, io):
    generated(protobuf, io)
    rpc, service = choose()
    kw, get = call_args(rpc)
    n = network(rpc)
    cls = has(service + "Client", "the class")
    result, raised = [], None
    try:
        async with cls("http://h", http_client=Http(*n), interceptors=[Meta()], send_compression=None) as cl:
            m = L.classes[rpc[3]]()
            if not hasattr(cl, rpc[6]):
                wrong(f"the generated client lacks {rpc[6]}")
            fn = getattr(cl, rpc[6])
            if rpc[1] == U:
                result.append(await fn(m, **kw))
            elif rpc[1] == C:
                result.append(await fn(areq(m), **kw))
            else:
                async for r in fn(m if rpc[1] == SV else areq(m), **kw):
                    result.append(r)
    except Exception as e:
        raised = e
    judge_client(rpc, service, get, result, raised)


def client_s(protobuf, io):
    generated(protobuf, io)
    rpc, service = choose()
    kw, get = call_args(rpc)
    n = network(rpc)
    cls = has(service + "ClientSync", "the class")
    result, raised = [], None
    try:
        with cls("http://h", http_client=HttpSync(*n), interceptors=[Meta()], send_compression=None) as cl:
            m = L.classes[rpc[3]]()
            if not hasattr(cl, rpc[6]):
                wrong(f"the generated client lacks {rpc[6]}")
            fn = getattr(cl, rpc[6])
            if rpc[1] == U:
                result.append(fn(m, **kw))
            elif rpc[1] == C:
                result.append(fn(sreq(m), **kw))
            else:
                for r in fn(m if rpc[1] == SV else sreq(m), **kw):
                    result.append(r)
    except Exception as e:
        raised = e
    judge_client(rpc, service, get, result, raised)


__precise__(judge_client, judge_server, Lib)
