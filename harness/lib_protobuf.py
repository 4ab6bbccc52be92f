"""Abstract model of the protobuf runtime's public surface (interpreted, never run)."""


class Message:
    """An opaque message value."""

    def to_binary(self):
        return __fn__("to_binary", "bytes", self)

    def to_json(self, *, registry=None):
        return __fn__("to_json", "str", self)

    @classmethod
    def from_binary(cls, data):
        if __choose__(2, "protobuf parse error"):
            raise ValueError(__event_value__("parse error", "str"))
        m = cls.__new__(cls)
        m._src = data
        return m

    @classmethod
    def from_json(cls, data, *, registry=None):
        if __choose__(2, "protobuf parse error"):
            raise ValueError(__event_value__("parse error", "str"))
        m = cls.__new__(cls)
        m._src = data
        return m


class DescMessage:
    pass


class Registry:
    __identity__ = True

    def __init__(self, *descs):
        pass

    def message(self, name):
        return __fn__("registry.message", "obj:DescMessage?", name)


def message_to_json_value(m, **kw):
    if __choose__(2, "no JSON form"):
        raise ValueError("no descriptor")
    return __fn__("message_to_json_value", "json", m)
