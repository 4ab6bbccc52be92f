"""Abstract model of the generated google.rpc.Status message."""

from protobuf import Message
from protobuf.wkt import Any


class Status(Message):
    def __init__(self, code=0, message="", details=()):
        self.code = code
        self.message = message
        self.details = details

    def to_binary(self):
        flat = []
        for d in self.details:
            flat.append(d.type_url)
            flat.append(d.value)
        r = __fn__("Status.to_binary", "bytes", self.code, self.message, *flat)
        if flat:
            __assume__(len(r) > 0)
        return r

    @classmethod
    def from_binary(cls, data):
        u = __unfn__(data, "Status.to_binary")
        if u is not None:
            return Status(u[0], u[1], [Any(u[i], u[i + 1]) for i in range(2, len(u), 2)])
        if __choose__(2, "status parse error"):
            raise ValueError("bad status")
        return Status(__fn__("status.code", "int", data), __fn__("status.message", "str", data), [])
