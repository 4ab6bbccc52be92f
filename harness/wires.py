"""Compressed data as the stubs of the compression libraries know it.

A wire is a constant text of bytes that starts as the real format does; what it stands for is listed in TABLE:
(frames, rest), each frame being (content, whether its header says the size), rest one of None (nothing),
"cut" (another frame begins but breaks off) and "junk" (bytes that are not of the format).
"""

TABLE = {}
REST = {}


def put(format, token, frames, rest=None):
    TABLE[(format, token)] = (frames, rest)


def follow(format, token, after):
    """What is left of a wire once its first frame has been read."""
    REST[(format, token)] = after


def plain(data):
    if isinstance(data, (memoryview, bytearray)):
        return bytes(data)
    return data


def lookup(format, data, compressed):
    """(frames, rest, bytes after the first frame), or None for what the format knows nothing of."""
    data = plain(data)
    x = __unfn__(data, format)
    if x is not None:
        return [(x[0], True)], None, b""
    if not __isconst__(data):
        return None
    for (f, token), (frames, rest) in TABLE.items():
        if f == format and token == data:
            return frames, rest, REST.get((format, token), b"")
    if data == b"":
        return [], "empty", b""
    __limit__("compressed data that the harness does not know")


class Strict:
    """Base of the stubs: what they do not have cannot be decided."""

    def __getattr__(self, name):
        __limit__("compression library: " + name)
