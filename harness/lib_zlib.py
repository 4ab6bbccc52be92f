"""What zlib promises of data in the gzip format."""

from wires import Strict, lookup, plain

MAX_WBITS, DEFLATED, Z_BEST_SPEED, Z_BEST_COMPRESSION, Z_DEFAULT_COMPRESSION = 15, 8, 1, 9, -1


class error(Exception):
    pass


def of_gzip(wbits):
    if wbits not in (31, 47):
        return False
    return True


def compress(data, level=-1, wbits=15):
    return __fn__("gzip" if of_gzip(wbits) else "deflate", "bytes", plain(data))


def decompress(data, wbits=15, bufsize=0):
    r = lookup("gzip", data, True) if of_gzip(wbits) else None
    if r is None or not r[0]:
        raise error("Error -5 while decompressing data")
    return r[0][0][0]


class Obj(Strict):
    def __init__(self, wbits):
        self.wbits = wbits
        self.eof = False
        self.unused_data = b""
        self.unconsumed_tail = b""

    def decompress(self, data, max_length=0):
        if max_length:
            __limit__("reading a part of a stream")
        if self.eof:
            self.unused_data = self.unused_data + plain(data)
            return b""
        if plain(data) == b"":
            return b""
        r = lookup("gzip", data, True) if of_gzip(self.wbits) else None
        if r is None or not r[0] and r[1] == "junk":
            raise error("Error -3 while decompressing data: incorrect header check")
        if not r[0]:
            return __opaque__("what came of the member", "bytes")
        self.eof = True
        self.unused_data = r[2]
        return r[0][0][0]

    def flush(self, length=0):
        return b""


def decompressobj(wbits=15, zdict=b""):
    return Obj(wbits)


class CObj(Strict):
    def __init__(self, wbits):
        self.wbits = wbits
        self.parts = b""

    def compress(self, data):
        self.parts = self.parts + plain(data)
        return b""

    def flush(self, mode=4):
        return __fn__("gzip" if of_gzip(self.wbits) else "deflate", "bytes", self.parts)


def compressobj(level=-1, method=8, wbits=15, memLevel=8, strategy=0, zdict=b""):
    return CObj(wbits)
