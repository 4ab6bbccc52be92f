"""The lifespan of an ASGI application whose service is given, or made by an async generator."""

from server import *

__paths__(400)
TEXT = __opaque__("failure text", "str")


class Rec:
    __identity__ = True

    def __init__(self):
        self.opened = 0  # the service was set up
        self.closed = 0  # its cleanup ran
        self.resolved = 0
        self.service = None  # the one the endpoints were made for
        self.served = 0
        self.start = ""  # how the startup goes
        self.stop = ""  # how the shutdown goes
        self.entered = 0
        self.sent = []
        self.phase = "new"
        self.seen = 0  # requests an interceptor saw


R = Rec()


class Svc:
    __identity__ = True


SVC = Svc()


class Boom(Exception):
    pass


class Watch:
    """An interceptor: what the lifespan resolves is intercepted too."""

    __identity__ = True

    async def on_start(self, ctx):
        R.seen = R.seen + 1

    async def on_end(self, token, ctx, error):
        pass


async def factory():
    R.entered = R.entered + 1
    if R.start == "raises":
        raise Boom(TEXT)
    if R.start == "empty":
        return
    R.opened = R.opened + 1
    try:
        yield SVC
    finally:
        R.closed = R.closed + 1
        if R.stop == "raises":
            raise Boom(TEXT)


def endpoints(svc):
    R.resolved = R.resolved + 1
    if svc is not SVC:
        __violation__("C21.service", "the endpoints are made for something that is not the service")
    if R.start == "endpoints":
        raise Boom(TEXT)
    if R.start == "none":
        return {}
    R.service = svc

    async def fn(req, ctx):
        R.served = R.served + 1
        if R.phase != "running":
            __violation__("C21.unstarted", "a service function runs while the service is not started")
        return Res()

    return {PATH: endpoint("unary", fn)}


class LCodec:
    __identity__ = True

    def name(self):
        return "proto"

    def encode(self, message):
        return b"x"

    def decode(self, data, message_class):
        return Msg()


async def one_request(app):
    """One request; whether it was served and what was raised."""
    n = R.served
    seen = R.seen
    send = Send()
    body = {"type": "http.request", "body": b"x", "more_body": False}

    async def receive():
        return body

    raised = None
    try:
        await app(scope_of("POST", PATH, [("content-type", "application/proto")]), receive, send)
    except Exception as e:
        raised = e
    if R.served > n and R.seen != seen + 1:
        __violation__("C21.intercepted", "a request to the started service bypasses the interceptors")
    return R.served - n, raised, send


class Stop(BaseException):
    pass


async def lifespan(given):
    """given: the service is given as it is, not made by a generator."""
    R.start = ["fine", "endpoints", "none", "raises", "empty"][__choose__(3 if given else 5, "startup")]
    R.stop = ["fine", "raises"][__choose__(1 if given else 2, "shutdown")]
    app = AsgiApp(service=SVC if given else factory(), endpoints=endpoints, codecs=[LCodec()], interceptors=[Watch()])
    fails = R.start in ("raises", "empty", "endpoints")
    k = __choose__(2, "receive")  # the server may stop the lifespan without a shutdown event
    state = {"n": 0}

    async def receive():
        state["n"] = state["n"] + 1
        if state["n"] == 1:
            R.phase = "starting"
            return {"type": "lifespan.startup"}
        if state["n"] == 2:
            if [m["type"] for m in R.sent] != ["lifespan.startup.complete"]:
                __violation__("C21.answer", "the application waits for shutdown without having completed its startup")
                __prune__()
            if not given and (R.opened != 1 or R.closed):
                __violation__("C21.open", "startup is complete but the service is not open")
            R.phase = "running"
            for i in range(2):
                served, raised, send = await one_request(app)
                if R.start == "none":
                    if served or raised is not None or send.status != 404:
                        __violation__("C21.none", "a request to a started service without methods is not answered with status 404")
                elif served != 1 or raised is not None or send.status != 200:
                    __violation__("C21.served", "a request is not served once the service is started")
            if not given and R.closed:
                __violation__("C21.open", "the service is closed while the application is running")
            if k:
                __cover__("cancelled")
                raise CancelledError()
            R.phase = "stopping"
            return {"type": "lifespan.shutdown"}
        __violation__("C21.answer", "the application goes on after its shutdown")
        __prune__()

    async def send(msg):
        R.sent.append(msg)
        t = msg["type"]
        if t == "lifespan.startup.complete" and not given and R.opened != 1:
            __violation__("C21.open", "startup completes before the service is open")
        if t.startswith("lifespan.shutdown") and not given and R.closed != 1:
            __violation__("C21.cleanup", "shutdown is answered before the cleanup of the service ran once")

    raised = None
    try:
        await app({"type": "lifespan"}, receive, send)
    except CancelledError as e:
        raised = e
    except Exception as e:
        raised = e
        __violation__("C21.escapes", "a failure to start or stop escapes from the lifespan instead of being reported")
    got = [m["type"] for m in R.sent]
    if fails:
        want = ["lifespan.startup.failed"]
    elif k:
        want = ["lifespan.startup.complete"]
    else:
        want = ["lifespan.startup.complete", "lifespan.shutdown.failed" if R.stop == "raises" else "lifespan.shutdown.complete"]
    if got != want:
        __violation__("C21.answer", f"the lifespan answers {got}, not {want}")
    elif R.start in ("raises", "endpoints") or (not k and R.stop == "raises" and not fails):
        if not __mentions__(R.sent[len(R.sent) - 1].get("message", ""), TEXT):
            __violation__("C21.message", "the report of a failure does not say what failed")
    if R.entered > 1 or R.resolved > 1:
        __violation__("C21.twice", "the service is set up twice")
    if not k and R.closed != R.opened:
        __violation__("C21.cleanup", "the cleanup of a service that was opened did not run once")
    __cover__("fails" if fails else "runs")


async def unstarted():
    """Requests without a lifespan: a given service is served, one that has to be made is not."""
    given = __choose__(2, "the service is given") == 1
    R.start, R.stop = "fine", "fine"
    app = AsgiApp(service=SVC if given else factory(), endpoints=endpoints, codecs=[LCodec()], interceptors=[Watch()])
    if given:
        R.phase = "running"
    for i in range(2):
        served, raised, send = await one_request(app)
        if given and (served != 1 or raised is not None or send.status != 200):
            __violation__("C21.served", "a request to a given service is not served without a lifespan")
        if not given and (served or raised is None):
            __violation__("C21.unstarted", "a request to a service that was not started is not refused by raising")
    if R.resolved > 1:
        __violation__("C21.twice", "the endpoints of a service are made twice")
    __cover__("given" if given else "refused")


__precise__(factory, endpoints, one_request, Rec)
