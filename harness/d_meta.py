"""Response metadata goes to the innermost block that is open in the caller's context."""

import struct

from server import *

from connectrpc.client import ResponseMetadata

__paths__(400)
HOOKS["json"] = lambda data: S.json

CT = {"unary": "application/proto", "connect": "application/connect+proto", "grpc": "application/grpc+proto", "grpc-web": "application/grpc-web+proto"}
VARS = __module__("__prelude__").CONTEXTVARS


class State:
    __identity__ = True

    def __init__(self):
        self.json = {}
        self.calls = 0
        self.waiting = None
        self.fails = False


S = State()


class MCodec:
    __identity__ = True

    def name(self):
        return "proto"

    def encode(self, message):
        return b"m"

    def decode(self, data, message_class):
        return Msg()


def elsewhere(fn, context):
    """Runs fn in another context of execution (another task or thread), whose variables are kept in context."""
    here = [v._value for v in VARS]
    for i in range(len(VARS)):
        VARS[i]._value = context[i] if context else VARS[i].UNSET
    fn()
    context.clear()
    context.extend([v._value for v in VARS])
    for i in range(len(VARS)):
        VARS[i]._value = here[i]


def head(n):
    h = [("content-type", "application/json" if S.fails and S.p == "unary" else CT[S.p])]
    if n != 3:
        h.append(("x-from", f"h{n}"))
    return h


def arrive():
    """The n-th response of the path: its number is in its header and trailer; the third has neither."""
    S.calls = S.calls + 1
    if S.waiting is not None:
        w, S.waiting = S.waiting, None
        w()
    return S.calls


def unary(url):
    n = arrive()
    h = head(n)
    if n != 3:
        h.append(("trailer-x-end", f"t{n}"))
    S.json = {"code": "aborted", "message": "m"}
    return pyqwest.FullResponse(status=409 if S.fails else 200, headers=pyqwest.Headers(h), content=b"x", trailers=pyqwest.Headers())


def parts():
    """Body chunks and HTTP trailers."""
    n = S.calls
    ends = [("x-end", f"t{n}")] if n != 3 else []
    fails = S.fails
    msg = [] if fails else [struct.pack(">BI", 0, 1) + b"m"]
    if S.p == "connect":
        S.json = {"metadata": {k: [v] for k, v in ends}}
        if fails:
            S.json["error"] = {"code": "aborted", "message": "m"}
        return [*msg, struct.pack(">BI", 2, 1) + b"e"], []
    ends = [*ends, ("grpc-status", "10" if fails else "0")]
    if S.p == "grpc":
        return msg, ends
    text = "".join([f"{k}: {v}\r\n" for k, v in ends]).encode()
    return [*msg, struct.pack(">BI", 128, len(text)) + text], []


class Body:
    def __init__(self, chunks):
        self.chunks = chunks

    def __iter__(self):
        return self

    def __next__(self):
        if not self.chunks:
            raise StopIteration
        return self.chunks.pop(0)

    def __aiter__(self):
        return self

    async def __anext__(self):
        if not self.chunks:
            raise StopAsyncIteration
        return self.chunks.pop(0)


class Stream:
    def _make(self):
        n = arrive()
        chunks, trailers = parts()
        return Resp(200, head(n), Body(chunks), trailers)

    async def __aenter__(self):
        return self._make()

    async def __aexit__(self, *a):
        return None

    def __enter__(self):
        return self._make()

    def __exit__(self, *a):
        return None


class MHttp(pyqwest.Client):
    __identity__ = True

    def __init__(self):
        pass

    async def get(self, url, headers=None, **kw):
        return unary(url)

    async def post(self, url, headers=None, content=None, **kw):
        return unary(url)

    def stream(self, method, url, headers=None, content=None, **kw):
        return Stream()


class MHttpSync(pyqwest.SyncClient):
    __identity__ = True

    def __init__(self):
        pass

    def get(self, url, headers=None, **kw):
        return unary(url)

    def post(self, url, headers=None, content=None, **kw):
        return unary(url)

    def stream(self, method, url, headers=None, content=None, **kw):
        return Stream()


async def areq():
    yield Msg()


def sreq():
    yield Msg()


async def call(cl, kind):
    if kind == "unary":
        await cl.execute_unary(request=Msg(), method=method())
    elif kind == "client":
        await cl.execute_client_stream(request=areq(), method=method())
    elif kind == "server":
        async for x in cl.execute_server_stream(request=Msg(), method=method()):
            pass
    else:
        async for x in cl.execute_bidi_stream(request=areq(), method=method()):
            pass


def call_s(cl, kind):
    if kind == "unary":
        cl.execute_unary(request=Msg(), method=method())
    elif kind == "client":
        cl.execute_client_stream(request=sreq(), method=method())
    elif kind == "server":
        for x in cl.execute_server_stream(request=Msg(), method=method()):
            pass
    else:
        for x in cl.execute_bidi_stream(request=sreq(), method=method()):
            pass


def expect(meta, n, rule, what):
    """meta holds the metadata of the n-th response of the path and nothing else (None: nothing at all)."""
    named = n is not None and n != 3
    hs, ts = [v for k, v in meta.headers.allitems() if k == "x-from"], [v for k, v in meta.trailers.allitems() if k == "x-end"]
    if hs != ([f"h{n}"] if named else []):
        __violation__(rule, what + "; headers:", hs)
    if ts != ([f"t{n}"] if named else []):
        __violation__(rule, what + "; trailers:", ts)


SCENES = ["one", "nested", "nested and left by an error", "later", "twice", "thrice", "overlapping"]


async def blocks(kind, proto):
    S.p = "unary" if kind == "unary" and proto == "connect" else proto
    cl = ConnectClient("http://h", http_client=MHttp(), codec=MCodec(), protocol=PROTO[proto], accept_compression=[], send_compression=None)
    scene = SCENES[__choose__(len(SCENES), "scene")]
    S.fails = scene == "nested and left by an error"
    other = []
    try:
        if scene == "overlapping":
            theirs = ResponseMetadata()
            S.waiting = lambda: elsewhere(theirs.__enter__, other)
        with ResponseMetadata() as meta:
            try:
                await call(cl, kind)
            except ConnectError:
                if not S.fails:
                    raise
            expect(meta, 1, "C35.own", "a block does not hold the metadata of its call")
            S.fails = False
            if scene in ("twice", "thrice"):
                await call(cl, kind)
                if scene == "thrice":
                    await call(cl, kind)
                expect(meta, S.calls, "C35.latest", "after several calls a block does not hold the metadata of the latest")
            if scene in ("nested", "nested and left by an error"):
                inner = ResponseMetadata()
                try:
                    with inner:
                        await call(cl, kind)
                        if scene != "nested":
                            raise KeyError("caller")
                except KeyError:
                    pass
                expect(inner, 2, "C35.own", "an inner block does not hold the metadata of its call")
                expect(meta, 1, "C35.others", "an enclosing block is changed by a call of an inner one")
                await call(cl, kind)
                expect(meta, 3, "C35.back", "after an inner block the enclosing one does not hold the metadata of its call")
                expect(inner, 2, "C35.others", "a block that is closed is changed by a later call")
        if scene == "later":
            await call(cl, kind)
            expect(meta, 1, "C35.others", "a block that is closed is changed by a later call")
        if scene == "overlapping":
            expect(theirs, None, "C35.others", "a block holds the metadata of a call of another task")
            elsewhere(lambda: theirs.__exit__(None, None, None), other)
            with ResponseMetadata() as again:
                await call(cl, kind)
            expect(again, 2, "C35.own", "a block does not hold the metadata of its call")
            expect(theirs, None, "C35.others", "a block holds the metadata of a call of another task")
            expect(meta, 1, "C35.others", "a block that is closed is changed by a later call")
        __cover__(scene)
    except Exception as e:
        __violation__("C35.call", "a call or a block fails although nothing is wrong:", e)


def blocks_s(kind, proto):
    S.p = "unary" if kind == "unary" and proto == "connect" else proto
    cl = ConnectClientSync("http://h", http_client=MHttpSync(), codec=MCodec(), protocol=PROTO[proto], accept_compression=[], send_compression=None)
    scene = SCENES[__choose__(len(SCENES), "scene")]
    S.fails = scene == "nested and left by an error"
    other = []
    try:
        if scene == "overlapping":
            theirs = ResponseMetadata()
            S.waiting = lambda: elsewhere(theirs.__enter__, other)
        with ResponseMetadata() as meta:
            try:
                call_s(cl, kind)
            except ConnectError:
                if not S.fails:
                    raise
            expect(meta, 1, "C35.own", "a block does not hold the metadata of its call")
            S.fails = False
            if scene in ("twice", "thrice"):
                call_s(cl, kind)
                if scene == "thrice":
                    call_s(cl, kind)
                expect(meta, S.calls, "C35.latest", "after several calls a block does not hold the metadata of the latest")
            if scene in ("nested", "nested and left by an error"):
                inner = ResponseMetadata()
                try:
                    with inner:
                        call_s(cl, kind)
                        if scene != "nested":
                            raise KeyError("caller")
                except KeyError:
                    pass
                expect(inner, 2, "C35.own", "an inner block does not hold the metadata of its call")
                expect(meta, 1, "C35.others", "an enclosing block is changed by a call of an inner one")
                call_s(cl, kind)
                expect(meta, 3, "C35.back", "after an inner block the enclosing one does not hold the metadata of its call")
                expect(inner, 2, "C35.others", "a block that is closed is changed by a later call")
        if scene == "later":
            call_s(cl, kind)
            expect(meta, 1, "C35.others", "a block that is closed is changed by a later call")
        if scene == "overlapping":
            expect(theirs, None, "C35.others", "a block holds the metadata of a call of another thread")
            elsewhere(lambda: theirs.__exit__(None, None, None), other)
            with ResponseMetadata() as again:
                call_s(cl, kind)
            expect(again, 2, "C35.own", "a block does not hold the metadata of its call")
            expect(theirs, None, "C35.others", "a block holds the metadata of a call of another thread")
            expect(meta, 1, "C35.others", "a block that is closed is changed by a later call")
        __cover__(scene)
    except Exception as e:
        __violation__("C35.call", "a call or a block fails although nothing is wrong:", e)


__precise__(elsewhere, head, arrive, unary, parts, call, call_s, expect, blocks, blocks_s, State, Body, Stream, MHttp, MHttpSync)
