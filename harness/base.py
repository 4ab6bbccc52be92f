"""Environment shared by the drivers: codecs, compressions, applications, transports."""

from connectrpc.method import IdempotencyLevel, MethodInfo


class Msg:
    """Stands for a message class."""


class Req(Msg):
    pass


class Res(Msg):
    pass


def method(idempotency=IdempotencyLevel.UNKNOWN, name="Method"):
    return MethodInfo(name=name, service_name="pkg.Service", input=Req, output=Res, idempotency_level=idempotency)


class Codec:
    """A codec with unknown behaviour; decoding may fail."""

    __identity__ = True

    def __init__(self, name="proto", on_decode=None, may_fail=False):
        self._n = name
        self._on = on_decode
        self._may_fail = may_fail

    def name(self):
        return self._n

    def encode(self, message):
        return __fn__("encode", "bytes", self._n, message)

    def decode(self, data, message_class):
        if self._on is not None:
            self._on(data, message_class)
        if self._may_fail:
            if __choose__(2, "payload does not decode"):
                raise ValueError(__event_value__("decode error", "str"))
        return __fn__("decode", "obj:Msg", self._n, data)


class Comp:
    __identity__ = True

    def __init__(self, name, may_fail=False):
        self._n = name
        self._may_fail = may_fail

    def name(self):
        return self._n

    def compress(self, data):
        return __fn__("compress", "bytes", self._n, data)

    def decompress(self, data):
        if self._may_fail:
            if __choose__(2, "payload does not decompress"):
                raise ValueError(__event_value__("decompress error", "str"))
        return __fn__("decompress", "bytes", self._n, data)
