"""What python-zstandard promises, as far as one call or one object of it is concerned."""

from wires import Strict, lookup, plain

MAX_COMPRESSION_LEVEL = 22


class ZstdError(Exception):
    pass


class ZstdCompressor(Strict):
    def __init__(self, level=3, dict_data=None, compression_params=None, write_checksum=None, write_content_size=None, write_dict_id=None, threads=0):
        if level > 22:
            raise ValueError("level must be less than 23")

    def compress(self, data):
        return __fn__("zstd", "bytes", plain(data))


def frames_from(data):
    r = lookup("zstd", data, True)
    if r is None:
        raise ZstdError("error determining content size from frame header")
    return r


class ZstdDecompressor(Strict):
    def __init__(self, dict_data=None, max_window_size=0, format=0):
        pass

    def decompress(self, data, max_output_size=0, read_across_frames=False, allow_extra_data=True):
        if read_across_frames:
            raise ZstdError("read_across_frames=True is not yet implemented")
        frames, rest, after = frames_from(data)
        if not frames:
            if rest == "cut" and max_output_size:
                raise ZstdError("decompression error: did not decompress full frame")
            raise ZstdError("error determining content size from frame header")
        content, sized = frames[0]
        if not sized and not max_output_size:
            raise ZstdError("could not determine content size in frame header")
        if after and not allow_extra_data:
            raise ZstdError("compressed input contains unused data, which is disallowed")
        return content

    def stream_reader(self, source, read_size=131072, read_across_frames=False, closefd=True):
        if hasattr(source, "read"):
            source = source.read()
        return Reader(source)

    def decompressobj(self, write_size=131072, read_across_frames=False):
        return Obj(read_across_frames)

    def copy_stream(self, ifh, ofh, read_size=0, write_size=0):
        ofh.write(all_of(ifh.read()))

    def read_to_iter(self, reader, read_size=0, write_size=0, skip_bytes=0):
        yield all_of(reader.read() if hasattr(reader, "read") else reader)


def all_of(data):
    """Reading as long as something comes: a frame that breaks off is not noticed."""
    frames, rest, after = frames_from(data)
    if rest == "junk":
        raise ZstdError("zstd decompress error: Unknown frame descriptor")
    out = b""
    for content, sized in frames:
        out = out + content
    if rest == "cut":
        out = out + __opaque__("what came of the last frame", "bytes")
    return out


class Reader(Strict):
    def __init__(self, data):
        self.data = data

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        return False

    def read(self, size=-1):
        if size != -1:
            __limit__("reading a part of a stream")
        data, self.data = self.data, b""
        return all_of(data)

    def readall(self):
        return self.read()

    def close(self):
        pass


class Obj(Strict):
    def __init__(self, across):
        self.across = across
        self.eof = False
        self.unused_data = b""
        self.unconsumed_tail = b""

    def decompress(self, data):
        if self.eof:
            raise ZstdError("cannot use a decompressobj multiple times")
        if plain(data) == b"":
            return b""
        if self.across:
            return all_of(data)
        frames, rest, after = frames_from(data)
        if not frames:
            if rest == "junk":
                raise ZstdError("zstd decompressor error: Unknown frame descriptor")
            return __opaque__("what came of the frame", "bytes")
        self.eof = True
        self.unused_data = after
        return frames[0][0]

    def flush(self, length=0):
        return b""


def compress(data, level=3):
    return ZstdCompressor(level).compress(data)


def decompress(data, max_output_size=0):
    return ZstdDecompressor().decompress(data, max_output_size)
