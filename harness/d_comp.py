"""The compressions and codecs that come with the library give back what was put in, or fail."""

import wires
from connectrpc.compression.brotli import BrotliCompression
from connectrpc.compression.gzip import GzipCompression
from connectrpc.compression.zstd import ZstdCompression

import connectrpc._compression as _compression
from connectrpc import codec as public
from connectrpc._codec import get_default_codecs
from connectrpc.compat import google_protobuf_binary_codec, google_protobuf_codecs, google_protobuf_json_codec

CLASSES = {"br": BrotliCompression, "gzip": GzipCompression, "zstd": ZstdCompression}
HEAD = {"gzip": b"\x1f\x8b\x08\x00", "zstd": b"\x28\xb5\x2f\xfd", "br": b"\x8b\x02\x80"}
LEVELS = {"br": (0, 11), "gzip": (1, 9), "zstd": (1, 22)}
A, B = __opaque__("first content", "bytes"), __opaque__("second content", "bytes")


def make(format):
    c = CLASSES[format]
    lo, hi = LEVELS[format]
    k = __choose__(3, "level")
    if k == 0:
        return c()
    return c([lo, hi][k - 1])


def there_and_back(format):
    """What is compressed is what comes out, whatever kind of buffer carries it."""
    z = make(format)
    if z.name() != format:
        __violation__("C34.name", "a compression does not carry its registered name")
    k = __choose__(3, "buffer")
    given = [A, bytearray(A), memoryview(A)][k] if k < 2 else memoryview(A)
    try:
        packed = z.compress(given)
    except Exception as e:
        __violation__("C34.back", "a message cannot be compressed:", e)
        return
    if __kindof__(packed) != "bytes":
        __violation__("C34.bytes", "a compressed message is not bytes")
        return
    __assume__(packed)
    __assume__(len(packed) > 0)
    if __choose__(2, "buffer out"):
        packed = bytearray(packed)
    try:
        r = z.decompress(packed)
    except Exception as e:
        __violation__("C34.back", "a compressed message cannot be decompressed:", e)
        return
    if not isinstance(r, (bytes, bytearray)) or bytes(r) != A:
        __violation__("C34.back", "what was compressed is not what is decompressed")
    __cover__("there and back")


def identity():
    z = _compression._default_compressions["identity"] if hasattr(_compression, "_default_compressions") else None
    if z is None:
        __limit__("no identity compression")
    k = __choose__(2, "buffer")
    given = [A, bytearray(A)][k]
    for r in (z.compress(given), z.decompress(given)):
        if r is given and k == 1 or bytes(r) != A:
            __violation__("C34.back", "identity does not pass a message on as it is")
    __cover__("there and back")


def others(format):
    """What other implementations may write, and what damage may do to it."""
    h = HEAD[format]
    wires.put(format, h + b"A1", [(A, True)])
    wires.put(format, h + b"U1", [(A, False)])
    wires.put(format, h + b"A1" + h + b"B1", [(A, True), (B, True)])
    wires.put(format, h + b"B1", [(B, True)])
    wires.follow(format, h + b"A1" + h + b"B1", h + b"B1")
    wires.put(format, h + b"A", [], "cut")
    wires.put(format, h[:2], [], "cut")
    wires.put(format, h + b"A1" + h, [(A, True)], "cut")
    wires.put(format, h, [], "cut")
    wires.follow(format, h + b"A1" + h, h)
    wires.put(format, b"{}", [], "junk")
    wires.put(format, h + b"A1xx", [(A, True)], "junk")
    wires.put(format, b"xx", [], "junk")
    wires.follow(format, h + b"A1xx", b"xx")
    z = CLASSES[format]()
    good = [(h + b"A1", A)]
    if format == "zstd":
        good.append((h + b"U1", A))
    if format != "br":
        good.append((h + b"A1" + h + b"B1", A + B))
    bad = [(h + b"A", "breaks off"), (h[:2], "breaks off"), (b"{}", "is not of its format"), (h + b"A1xx", "is followed by something else")]
    if format != "br":
        bad.append((h + b"A1" + h, "breaks off"))
    n = __choose__(len(good) + len(bad), "data")
    if n < len(good):
        wire, content = good[n]
        try:
            r = z.decompress(wire)
        except Exception as e:
            __violation__("C34.other", "data that is written in another way cannot be decompressed:", e)
            return
        if not isinstance(r, (bytes, bytearray)) or bytes(r) != content:
            __violation__("C34.other", "data that is written in another way is not decompressed to what it holds")
        __cover__("read")
        return
    wire, what = bad[n - len(good)]
    try:
        z.decompress(wire)
    except Exception:
        __cover__("refused")
        return
    __violation__("C34.damaged", "compressed data that " + what + " is taken for a message")


X = __opaque__("what the message says", "any")


def text_of(data):
    return data if isinstance(data, str) else bytes(data).decode()


class PyMessage:
    """A message as the library's own protobuf runtime has it."""

    used = []

    def __init__(self, value=None):
        self.value = value

    def to_binary(self):
        return __fn__("binary", "bytes", self.value)

    @classmethod
    def from_binary(cls, data, *, ignore_unknown_fields=False):
        x = __unfn__(bytes(data), "binary")
        if x is None:
            raise ValueError("malformed message")
        return cls(x[0])

    def to_json(self, *, registry=None, always_emit_implicit=False, print_enums_as_ints=False, use_proto_field_name=False):
        PyMessage.used.append(registry)
        return __fn__("json text", "str", self.value)

    @classmethod
    def from_json(cls, json, *, ignore_unknown_fields=False, registry=None):
        PyMessage.used.append(registry)
        x = __unfn__(text_of(json), "json text")
        if x is None:
            raise ValueError("malformed JSON")
        return cls(x[0])


class GoogleMessage:
    def __init__(self, value=None):
        self.value = value

    def SerializeToString(self, deterministic=False):
        return __fn__("binary", "bytes", self.value)

    def SerializePartialToString(self, deterministic=False):
        return __fn__("binary", "bytes", self.value)

    @classmethod
    def FromString(cls, data):
        m = cls()
        m.ParseFromString(data)
        return m

    def ParseFromString(self, data):
        x = __unfn__(bytes(data), "binary")
        if x is None:
            raise ValueError("malformed message")
        self.value = x[0]
        return len(data)

    def MergeFromString(self, data):
        if self.value is not None:
            __violation__("C34.codec", "a message is read into one that says something already")
        return self.ParseFromString(data)

    def CopyFrom(self, other):
        self.value = other.value


class Registry:
    __identity__ = True


def codecs(flavor):
    """Every codec reads what it wrote, and not what another wrote."""
    cls = PyMessage if flavor == "own" else GoogleMessage
    mine = Registry()
    if flavor == "own":
        sets = [get_default_codecs(), [public.proto_binary_codec(), public.proto_json_codec()], [public.proto_binary_codec(), public.proto_json_codec(registry=mine)]]
    else:
        sets = [google_protobuf_codecs(), [google_protobuf_binary_codec(), google_protobuf_json_codec()]]
    k = __choose__(len(sets), "how the codecs are got")
    found = sets[k]
    for name, what in (("proto", "binary"), ("json", "json text")):
        cs = [c for c in found if c.name() == name]
        if len(cs) != 1:
            __violation__("C34.name", "there is not exactly one codec named", name)
            return
        codec = cs[0]
        try:
            data = codec.encode(cls(X))
            r = codec.decode(bytearray(data) if __choose__(2, "buffer") else data, cls)
        except Exception as e:
            __violation__("C34.codec", "what a codec wrote cannot be read by it:", name, e)
            return
        if __kindof__(data) != "bytes":
            __violation__("C34.bytes", "an encoded message is not bytes")
        plain = data.decode() if what == "json text" else data
        if __unfn__(plain, what) is None:
            __violation__("C34.format", "a codec does not write the format it is named after:", name)
        if not isinstance(r, cls) or r.value != X:
            __violation__("C34.codec", "what a codec wrote is read as something else:", name)
        again = codec.decode(data, cls)
        if again is r:
            __violation__("C34.codec", "two messages are read into the same object:", name)
        try:
            codec.decode(__opaque__("something else", "bytes"), cls)
        except Exception:
            __cover__("codec " + name)
            continue
        __violation__("C34.codec", "what is not a message is read as one:", name)
    if flavor == "own":
        for r in PyMessage.used:
            if k == 2 and r is not mine or r is None:
                __violation__("C34.registry", "JSON is written or read without the registry that was given")
