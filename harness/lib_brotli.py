"""What the Brotli bindings promise."""

from wires import Strict, lookup, plain

MODE_GENERIC, MODE_TEXT, MODE_FONT = 0, 1, 2


class error(Exception):
    pass


def compress(string, mode=0, quality=11, lgwin=22, lgblock=0):
    if not 0 <= quality <= 11:
        raise error("Invalid quality. Range is 0 to 11.")
    return __fn__("br", "bytes", plain(string))


def decompress(string):
    r = lookup("br", string, True)
    if r is None or r[1] is not None or len(r[0]) != 1:
        raise error("brotli: decoder failed")
    return r[0][0][0]


class Decompressor(Strict):
    def __init__(self):
        self.done = False

    def process(self, string, output_buffer_limit=None):
        if plain(string) == b"":
            return b""
        r = lookup("br", string, True)
        if r is None or not r[0] and r[1] == "junk":
            raise error("brotli: decoder process called with data when failed")
        if not r[0]:
            return __opaque__("what came of the data", "bytes")
        if r[1] is not None or len(r[0]) > 1:
            raise error("brotli: decoder process called with data when finished")
        self.done = True
        return r[0][0][0]

    def is_finished(self):
        return self.done

    def can_accept_more_data(self):
        return not self.done


class Compressor(Strict):
    def __init__(self, mode=0, quality=11, lgwin=22, lgblock=0):
        self.parts = b""

    def process(self, string):
        self.parts = self.parts + plain(string)
        return b""

    def finish(self):
        return __fn__("br", "bytes", self.parts)
