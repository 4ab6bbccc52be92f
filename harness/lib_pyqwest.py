"""Abstract model of the pyqwest HTTP library's public surface (interpreted, never run)."""

from enum import Enum


class StreamErrorCode(Enum):
    NO_ERROR = 1
    PROTOCOL_ERROR = 2
    INTERNAL_ERROR = 3
    FLOW_CONTROL_ERROR = 4
    SETTINGS_TIMEOUT = 5
    STREAM_CLOSED = 6
    FRAME_SIZE_ERROR = 7
    REFUSED_STREAM = 8
    CANCEL = 9
    COMPRESSION_ERROR = 10
    CONNECT_ERROR = 11
    ENHANCE_YOUR_CALM = 12
    INADEQUATE_SECURITY = 13
    HTTP_1_1_REQUIRED = 14


class StreamError(Exception):
    def __init__(self, message, code):
        super().__init__(message)
        self.code = code


class ReadError(Exception):
    pass


class WriteError(Exception):
    pass


class Headers:
    """Ordered multi-map with lower-cased names."""

    def __init__(self, items=None):
        self._l = []
        if items is not None:
            if hasattr(items, "items"):
                items = items.items()
            for k, v in items:
                self._l.append((k.lower(), v))

    def __getitem__(self, key):
        key = key.lower()
        for k, v in self._l:
            if k == key:
                return v
        raise KeyError(key)

    def __setitem__(self, key, value):
        key = key.lower()
        self._l = [(k, v) for k, v in self._l if k != key]
        self._l.append((key, value))

    def __delitem__(self, key):
        key = key.lower()
        self[key]
        self._l = [(k, v) for k, v in self._l if k != key]

    def __contains__(self, key):
        key = key.lower()
        for k, v in self._l:
            if k == key:
                return True
        return False

    def __iter__(self):
        seen = []
        for k, v in self._l:
            if k not in seen:
                seen.append(k)
        return iter(seen)

    def __len__(self):
        seen = []
        for k, v in self._l:
            if k not in seen:
                seen.append(k)
        return len(seen)

    def get(self, key, default=None):
        key = key.lower()
        for k, v in self._l:
            if k == key:
                return v
        return default

    def getall(self, key):
        key = key.lower()
        return [v for k, v in self._l if k == key]

    def pop(self, key, *default):
        if key not in self:
            if default:
                return default[0]
            raise KeyError(key)
        v = self[key]
        del self[key]
        return v

    def setdefault(self, key, default=None):
        if key not in self:
            self[key] = default
        return self[key]

    def add(self, key, value):
        self._l.append((key.lower(), value))

    def update(self, other=(), **kw):
        if hasattr(other, "items"):
            other = other.items()
        for k, v in other:
            self[k] = v
        for k, v in kw.items():
            self[k] = v

    def clear(self):
        self._l = []

    def items(self):
        return list(self._l)

    def keys(self):
        return list(self.__iter__())

    def values(self):
        return [v for k, v in self._l]


_no_json = __opaque__("response body is not JSON", "bool")


class FullResponse:
    def __init__(self, status, headers, content, trailers):
        self.status = status
        self.headers = headers
        self.content = content
        self.trailers = trailers

    def text(self):
        return self.content.decode("utf-8")

    def json(self):
        import json

        return json.loads(self.content)


class Response:
    pass


class SyncResponse:
    pass


class Request:
    pass


class SyncRequest:
    pass


class HTTPHeaderName:
    pass


class HTTPVersion:
    pass


class Transport:
    pass


class SyncTransport:
    pass


class HTTPTransport:
    pass


class SyncHTTPTransport:
    pass


class Client:
    __identity__ = True

    def __init__(self, transport=None):
        self.transport = transport


class SyncClient:
    __identity__ = True

    def __init__(self, transport=None):
        self.transport = transport
