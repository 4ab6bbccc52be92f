"""What the gzip module promises."""

from wires import Strict, lookup, plain


class BadGzipFile(OSError):
    pass


def compress(data, compresslevel=9, *, mtime=None):
    if not 0 <= compresslevel <= 9:
        raise ValueError("Bad compression level")
    return __fn__("gzip", "bytes", plain(data))


def decompress(data):
    r = lookup("gzip", data, True)
    if r is None or r[1] == "junk":
        raise BadGzipFile("Not a gzipped file")
    if r[1] == "cut":
        raise EOFError("Compressed file ended before the end-of-stream marker was reached")
    out = b""
    for content, sized in r[0]:
        out = out + content
    return out


class GzipFile(Strict):
    def __init__(self, filename=None, mode=None, compresslevel=9, fileobj=None, mtime=None):
        self.mode = mode or "rb"
        self.fileobj = fileobj
        self.parts = b""

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        self.close()
        return False

    def read(self, size=-1):
        if size != -1:
            __limit__("reading a part of a stream")
        return decompress(self.fileobj.read())

    def write(self, data):
        self.parts = self.parts + plain(data)
        return len(data)

    def close(self):
        if self.mode[0] == "w":
            self.fileobj.write(compress(self.parts))


def open(filename, mode="rb", compresslevel=9):
    return GzipFile(None, mode, compresslevel, filename)
