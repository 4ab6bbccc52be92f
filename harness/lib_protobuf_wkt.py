"""Abstract model of protobuf.wkt."""

from enum import Enum

from protobuf import Message


class Any(Message):
    def __init__(self, type_url="", value=b""):
        self.type_url = type_url
        self.value = value

    @staticmethod
    def pack(message):
        return Any("type.googleapis.com/" + __fn__("type_name", "str", message), __fn__("to_binary", "bytes", message))

    def unpack(self, desc):
        return __fn__("any.unpack", "any", self.value, desc)


class _Desc:
    __identity__ = True

    def desc(self):
        return __fn__("desc", "any", self)


api_pb = _Desc()
cpp_features_pb = _Desc()
descriptor_pb = _Desc()
duration_pb = _Desc()
empty_pb = _Desc()
field_mask_pb = _Desc()
go_features_pb = _Desc()
java_features_pb = _Desc()
source_context_pb = _Desc()
struct_pb = _Desc()
timestamp_pb = _Desc()
type_pb = _Desc()
wrappers_pb = _Desc()


class MethodOptions:
    class IdempotencyLevel(Enum):
        IDEMPOTENCY_UNKNOWN = 0
        NO_SIDE_EFFECTS = 1
        IDEMPOTENT = 2
