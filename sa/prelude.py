"""Abstract models of library code, interpreted by the abstract machine (never imported or run)."""


import time


# ---------------------------------------------------------------- iteration helpers
def _extend_into(lst, it):
    for x in it:
        lst.append(x)
    return lst


def _update_into(st, it):
    for x in it:
        st.add(x)
    return st


def _join(sep, it):
    r = []
    for x in it:
        r.append(x)
    return sep.join(r)


def _mk_list(it):
    r = []
    for x in it:
        r.append(x)
    return r


def _mk_tuple(it):
    r = []
    for x in it:
        r.append(x)
    return tuple(r)


def _mk_set(it):
    r = set()
    for x in it:
        r.add(x)
    return r


_mk_frozenset = _mk_set


def _dict_from_map(mp):
    r = {}
    for k in mp.keys():
        r[k] = mp[k]
    return r


def _dict_from_iter(it):
    r = {}
    for k, v in it:
        r[k] = v
    return r


def _dict_fromkeys(it, value=None):
    r = {}
    for k in it:
        r[k] = value
    return r


def _len_bool(x):
    return len(x) != 0


def _chain(its):
    for it in its:
        for x in it:
            yield x


def _iter_sentinel(fn, sentinel):
    while True:
        v = fn()
        if v == sentinel:
            return
        yield v


async def _anext_default(it, default):
    try:
        return await it.__anext__()
    except StopAsyncIteration:
        return default


def builtin_all(it):
    for x in it:
        if not x:
            return False
    return True


def builtin_any(it):
    for x in it:
        if x:
            return True
    return False


def builtin_sum(it, start=0):
    r = start
    for x in it:
        r = r + x
    return r


def builtin_map(fn, *its):
    if len(its) == 1:
        for x in its[0]:
            yield fn(x)
    else:
        for t in builtin_zip(*its):
            yield fn(*t)


def builtin_filter(fn, it):
    for x in it:
        if fn is None:
            if x:
                yield x
        elif fn(x):
            yield x


def builtin_enumerate(it, start=0):
    n = start
    for x in it:
        yield (n, x)
        n = n + 1


def builtin_zip(*its, strict=False):
    iters = [iter(i) for i in its]
    while True:
        out = []
        for i in iters:
            try:
                out.append(next(i))
            except StopIteration:
                return
        yield tuple(out)


def builtin_sorted(it, *, key=None, reverse=False):
    r = []
    for x in it:
        r.append(x)
    keys = r if key is None else [key(x) for x in r]
    if all([__isconst__(k) for k in keys]) or len(r) <= 4 and all([__kindof__(k) in ("int", "float") for k in keys]):
        out = []
        for i in range(len(r)):
            at = len(out)
            while at > 0 and (out[at - 1][0] < keys[i] if reverse else keys[i] < out[at - 1][0]):
                at = at - 1
            out.insert(at, (keys[i], r[i]))
        return [x for k, x in out]
    if key is None:
        r.sort()
    return r


def x_functools_reduce(fn, it, *init):
    i = iter(it)
    if init:
        acc = init[0]
    else:
        acc = next(i)
    for x in i:
        acc = fn(acc, x)
    return acc


def x_functools_cache(fn):
    """Results are shared between calls with arguments that are certainly the same."""
    keys = []
    results = []

    def cached(*args, **kw):
        key = (args, tuple(kw.items()))
        for i in range(len(keys)):
            if __same__(keys[i], key):
                return results[i]
        r = fn(*args, **kw)
        if len(keys) < 8:
            keys.append(key)
            results.append(r)
        return r

    return cached


def x_functools_lru_cache(maxsize=128, typed=False):
    if maxsize is None or isinstance(maxsize, int):
        return x_functools_cache
    return x_functools_cache(maxsize)


def _cprop_get(fn, self, name):
    v = fn(self)
    setattr(self, name, v)
    return v


def x_itertools_islice(it, n):
    k = 0
    for x in it:
        if k >= n:
            return
        yield x
        k += 1


# ---------------------------------------------------------------- containers (abc mixins)
class abc_Mapping:
    def get(self, key, default=None):
        try:
            return self[key]
        except KeyError:
            return default

    def __contains__(self, key):
        try:
            self[key]
        except KeyError:
            return False
        return True

    def keys(self):
        return [k for k in self]

    def items(self):
        return [(k, self[k]) for k in self]

    def values(self):
        return [self[k] for k in self]

    def __eq__(self, other):
        return dict(self.items()) == dict(other.items())


class abc_MutableMapping(abc_Mapping):
    def pop(self, key, *default):
        try:
            value = self[key]
        except KeyError:
            if default:
                return default[0]
            raise
        del self[key]
        return value

    def popitem(self):
        for key in self:
            value = self[key]
            del self[key]
            return key, value
        raise KeyError

    def clear(self):
        for k in [k for k in self]:
            del self[k]

    def update(self, other=(), /, **kwds):
        if hasattr(other, "keys"):
            for key in other.keys():
                self[key] = other[key]
        else:
            for key, value in other:
                self[key] = value
        for key, value in kwds.items():
            self[key] = value

    def setdefault(self, key, default=None):
        try:
            return self[key]
        except KeyError:
            self[key] = default
        return default


class abc_ItemsView:
    def __init__(self, mapping):
        self._mapping = mapping

    def __len__(self):
        return len(self._mapping)

    def __contains__(self, item):
        key, value = item
        try:
            v = self._mapping[key]
        except KeyError:
            return False
        return v is value or v == value

    def __iter__(self):
        for key in self._mapping:
            yield (key, self._mapping[key])

    def __le__(self, other):
        if len(self) > len(other):
            return False
        for elem in self:
            if elem not in other:
                return False
        return True

    def __eq__(self, other):
        return len(self) == len(other) and self.__le__(other)


class abc_KeysView:
    def __init__(self, mapping):
        self._mapping = mapping

    def __len__(self):
        return len(self._mapping)

    def __contains__(self, key):
        return key in self._mapping

    def __iter__(self):
        yield from self._mapping


class abc_ValuesView:
    def __init__(self, mapping):
        self._mapping = mapping

    def __len__(self):
        return len(self._mapping)

    def __contains__(self, value):
        for key in self._mapping:
            v = self._mapping[key]
            if v is value or v == value:
                return True
        return False

    def __iter__(self):
        for key in self._mapping:
            yield self._mapping[key]


class abc_Sequence:
    def __iter__(self):
        i = 0
        try:
            while True:
                yield self[i]
                i += 1
        except IndexError:
            return


# ---------------------------------------------------------------- contextlib
class x_contextlib_suppress:
    def __init__(self, *excs):
        self._excs = excs

    def __enter__(self):
        return None

    def __exit__(self, t, e, tb):
        return e is not None and isinstance(e, self._excs)


class x_contextlib_nullcontext:
    def __init__(self, r=None):
        self._r = r

    def __enter__(self):
        return self._r

    def __exit__(self, *a):
        return None

    async def __aenter__(self):
        return self._r

    async def __aexit__(self, *a):
        return None


class x_contextlib_closing:
    def __init__(self, thing):
        self._thing = thing

    def __enter__(self):
        return self._thing

    def __exit__(self, *a):
        self._thing.close()


class x_contextlib_aclosing:
    def __init__(self, thing):
        self._thing = thing

    async def __aenter__(self):
        return self._thing

    async def __aexit__(self, *a):
        await self._thing.aclose()


class _GCM:
    def __init__(self, gen):
        self._gen = gen

    def __enter__(self):
        return next(self._gen)

    def __exit__(self, t, e, tb):
        if e is None:
            try:
                next(self._gen)
            except StopIteration:
                return False
            raise RuntimeError("generator didn't stop")
        try:
            self._gen.throw(e)
        except StopIteration as s:
            return s is not e
        except BaseException as x:
            if x is not e:
                raise
            return False
        raise RuntimeError("generator didn't stop after throw()")


class _AGCM:
    def __init__(self, gen):
        self._gen = gen

    async def __aenter__(self):
        return await anext(self._gen)

    async def __aexit__(self, t, e, tb):
        if e is None:
            try:
                await anext(self._gen)
            except StopAsyncIteration:
                return False
            raise RuntimeError("generator didn't stop")
        try:
            await self._gen.athrow(e)
        except StopAsyncIteration as s:
            return s is not e
        except BaseException as x:
            if x is not e:
                raise
            return False
        raise RuntimeError("generator didn't stop after throw()")


def x_contextlib_contextmanager(fn):
    def helper(*args, **kw):
        return _GCM(fn(*args, **kw))

    return helper


def x_contextlib_asynccontextmanager(fn):
    def helper(*args, **kw):
        return _AGCM(fn(*args, **kw))

    return helper


class x_contextlib_ExitStack:
    def __init__(self):
        self._cbs = []

    def __enter__(self):
        return self

    def enter_context(self, cm):
        r = cm.__enter__()
        self._cbs.append(cm.__exit__)
        return r

    def push(self, fn):
        self._cbs.append(fn.__exit__ if hasattr(fn, "__exit__") else fn)
        return fn

    def callback(self, fn, *args, **kw):
        def cb(t, e, tb):
            fn(*args, **kw)
            return False

        self._cbs.append(cb)
        return fn

    def close(self):
        self.__exit__(None, None, None)

    def __exit__(self, t, e, tb):
        exc = e
        for cb in reversed(self._cbs):
            try:
                if cb(type(exc) if exc is not None else None, exc, None):
                    exc = None
            except BaseException as x:
                exc = x
        self._cbs = []
        if exc is not None and exc is not e:
            raise exc
        return e is not None and exc is None


class x_contextlib_AsyncExitStack:
    def __init__(self):
        self._cbs = []

    async def __aenter__(self):
        return self

    def enter_context(self, cm):
        r = cm.__enter__()

        async def cb(t, e, tb):
            return cm.__exit__(t, e, tb)

        self._cbs.append(cb)
        return r

    async def enter_async_context(self, cm):
        r = await cm.__aenter__()
        self._cbs.append(cm.__aexit__)
        return r

    def push_async_exit(self, x):
        self._cbs.append(x.__aexit__ if hasattr(x, "__aexit__") else x)
        return x

    def callback(self, fn, *args, **kw):
        async def cb(t, e, tb):
            fn(*args, **kw)
            return False

        self._cbs.append(cb)
        return fn

    def push_async_callback(self, fn, *args, **kw):
        async def cb(t, e, tb):
            await fn(*args, **kw)
            return False

        self._cbs.append(cb)
        return fn

    async def aclose(self):
        await self.__aexit__(None, None, None)

    async def __aexit__(self, t, e, tb):
        exc = e
        for cb in reversed(self._cbs):
            try:
                if await cb(type(exc) if exc is not None else None, exc, None):
                    exc = None
            except BaseException as x:
                exc = x
        self._cbs = []
        if exc is not None and exc is not e:
            raise exc
        return e is not None and exc is None


# ---------------------------------------------------------------- contextvars
class _Token:
    def __init__(self, var, old):
        self.var = var
        self.old_value = old

    MISSING = "<missing>"


CONTEXTVARS = []


class x_contextvars_ContextVar:
    __identity__ = True

    def __init__(self, name, **kw):
        self.name = name
        self._default = kw.get("default", _Token)
        self._value = self.UNSET = _Token
        CONTEXTVARS.append(self)

    def get(self, *default):
        if self._value is not _Token:
            return self._value
        if default:
            return default[0]
        if self._default is not _Token:
            return self._default
        raise LookupError(self.name)

    def set(self, value):
        t = _Token(self, self._value)
        self._value = value
        return t

    def reset(self, token):
        self._value = token.old_value


x_contextvars_Token = _Token


# ---------------------------------------------------------------- asyncio
async def x_asyncio_sleep(delay=0, result=None):
    __await_point__("sleep")
    return result


def __await_point__(what):
    h = _HOOKS["await_point"]
    if h is not None:
        h(what)


HOOKS = _HOOKS = {"await_point": None, "timeout": None, "new_task": None, "json": None, "clock": None}


def x_time_monotonic():
    h = _HOOKS["clock"]
    return time.perf_counter() if h is None else h()


def x_json_loads(data, **kw):
    h = _HOOKS["json"]
    if h is None or __json_is_written__(data):
        return __json_loads__(data)
    return h(__undecoded__(data))


class x_asyncio_Event:
    def __init__(self):
        self._flag = False

    def set(self):
        self._flag = True

    def clear(self):
        self._flag = False

    def is_set(self):
        return self._flag

    async def wait(self):
        __assume__(self._flag)
        return True


class x_asyncio_Lock:
    async def __aenter__(self):
        __await_point__("lock")
        return None

    async def __aexit__(self, *a):
        return None

    async def acquire(self):
        __await_point__("lock")
        return True

    def release(self):
        return None

    def locked(self):
        return False


class x_asyncio_timeout:
    """The deadline passes at a time of the environment's choosing, never when the delay is None."""

    def __init__(self, delay):
        self.delay = delay
        self.expired_ = False
        self._when = None if delay is None else x_time_monotonic() + delay

    def when(self):
        return self._when

    def reschedule(self, when):
        self._when = when

    async def __aenter__(self):
        h = _HOOKS["timeout"]
        if h is not None:
            h("enter", self)
        return self

    def expired(self):
        return self.expired_

    async def __aexit__(self, t, e, tb):
        h = _HOOKS["timeout"]
        if h is not None:
            if h("exit", self) and e is not None and isinstance(e, x_asyncio_CancelledError_):
                self.expired_ = True
                raise TimeoutError() from e
        return None


from asyncio import CancelledError as x_asyncio_CancelledError_


async def x_asyncio_wait_for(fut, timeout=None):
    t = x_asyncio_timeout(timeout)
    if _HOOKS["clock"] is not None and timeout is not None and timeout <= 0:
        fut.close()
        raise TimeoutError()
    async with t:
        return await fut


async def x_asyncio_shield(fut):
    return await fut


class _Task:
    """A task runs at points chosen by the environment (see the await-point hook) and when awaited."""

    __identity__ = True

    def __init__(self, coro):
        self._coro = coro
        self._state = "pending"
        self._result = None
        self._exc = None
        self._cancel = False
        h = _HOOKS["new_task"]
        if h is not None:
            h(self)

    def cancel(self, msg=None):
        if self._state == "done":
            return False
        self._cancel = True
        __event__("task_cancel")
        return True

    def done(self):
        return self._state == "done"

    def cancelled(self):
        return self._state == "done" and isinstance(self._exc, x_asyncio_CancelledError_)

    def result(self):
        if self._exc is not None:
            raise self._exc
        return self._result

    def exception(self):
        return self._exc

    def add_done_callback(self, cb):
        return None

    def _run(self):
        if self._state != "pending":
            return
        self._state = "running"
        try:
            self._coro.send(None)
        except StopIteration as e:
            self._result = e.value
            self._state = "done"
        except BaseException as e:
            self._exc = e
            self._state = "done"
        else:
            self._state = "done"

    async def _wait(self):
        if self._state == "pending":
            if self._cancel:
                self._state = "done"
                self._coro.close()
                self._exc = x_asyncio_CancelledError_()
            else:
                self._run()
        if self._exc is not None:
            raise self._exc
        return self._result

    def __await__(self):
        return self._wait()


def x_asyncio_create_task(coro, *, name=None, context=None):
    return _Task(coro)


x_asyncio_ensure_future = x_asyncio_create_task


async def x_asyncio_gather(*aws, return_exceptions=False):
    out = []
    for a in aws:
        if return_exceptions:
            try:
                out.append(await a)
            except Exception as e:
                out.append(e)
        else:
            out.append(await a)
    return out


# ---------------------------------------------------------------- misc
class x_io_BytesIO:
    def __init__(self, data=b""):
        self._data = bytearray(data)

    def write(self, d):
        self._data.extend(d)
        return len(d)

    def getvalue(self):
        return bytes(self._data)

    def read(self, n=-1):
        r = bytes(self._data)
        self._data.clear()
        return r


class x_collections_defaultdict:
    def __init__(self, factory=None, *args):
        self._d = dict(*args)
        self._f = factory

    def __getitem__(self, k):
        if k not in self._d:
            self._d[k] = self._f()
        return self._d[k]

    def __setitem__(self, k, v):
        self._d[k] = v

    def __delitem__(self, k):
        del self._d[k]

    def __contains__(self, k):
        return k in self._d

    def __iter__(self):
        return iter(self._d)

    def __len__(self):
        return len(self._d)

    def get(self, k, default=None):
        return self._d.get(k, default)

    def items(self):
        return self._d.items()

    def keys(self):
        return self._d.keys()

    def values(self):
        return self._d.values()


class x_operator_attrgetter:
    def __init__(self, name):
        self._name = name

    def __call__(self, x):
        return getattr(x, self._name)


class x_operator_itemgetter:
    def __init__(self, k):
        self._k = k

    def __call__(self, x):
        return x[self._k]


class _Logger:
    __identity__ = True

    def _log(self, *a, **k):
        return None

    debug = _log
    info = _log
    warning = _log
    error = _log
    exception = _log
    critical = _log

    def isEnabledFor(self, l):
        return False


_LOGGER = _Logger()


def x_logging_getLogger(name=None):
    return _LOGGER


class x_threading_Lock:
    def __enter__(self):
        return None

    def __exit__(self, *a):
        return None

    def acquire(self, *a):
        return True

    def release(self):
        return None


x_threading_RLock = x_threading_Lock


def __run__(fn, args):
    """Entry point: run a driver; a coroutine is driven to completion."""
    r = fn(*args)
    if __kindof__(r) == "gen":
        try:
            r.send(None)
        except StopIteration as e:
            return e.value
        return "yielded"
    return r


# ---------------------------------------------------------------- re
class x_re_Match:
    def __init__(self, pattern, text, span, groups, names):
        self.re = pattern
        self.string = text
        self._span = span
        self._groups = groups
        self._names = names

    def _one(self, i):
        if isinstance(i, str):
            i = self._names[i]
        if self._groups is None:
            return __fn__("re.group", "str", self.re.pattern, self.string, i)
        return self._groups[i]

    def group(self, *which):
        if not which:
            return self._one(0)
        if len(which) == 1:
            return self._one(which[0])
        return tuple([self._one(i) for i in which])

    def __getitem__(self, i):
        return self._one(i)

    def groups(self, default=None):
        n = self.re.groups
        out = []
        for i in range(1, n + 1):
            g = self._one(i)
            out.append(default if g is None else g)
        return tuple(out)

    def groupdict(self, default=None):
        return {k: (default if self._one(i) is None else self._one(i)) for k, i in self._names.items()}

    def start(self, group=0):
        return self._span[0]

    def end(self, group=0):
        return self._span[1]

    def span(self, group=0):
        return self._span


class x_re_Pattern:
    def __init__(self, pattern, flags=0):
        self.pattern = pattern
        self.flags = flags
        n, names = __re__("info", pattern, flags)
        self.groups = n
        self.groupindex = dict(names)

    def _find(self, how, text):
        if __isconst__(text):
            r = __re__(how, self.pattern, self.flags, text)
            if r is None:
                return None
            return x_re_Match(self, text, r[0], r[1], self.groupindex)
        if __fn__("re." + how, "bool", self.pattern, text):
            return x_re_Match(self, text, (__fn__("re.start", "int", self.pattern, text), __fn__("re.end", "int", self.pattern, text)), None, self.groupindex)
        return None

    def match(self, text):
        return self._find("match", text)

    def fullmatch(self, text):
        return self._find("fullmatch", text)

    def search(self, text):
        return self._find("search", text)

    def sub(self, repl, text, count=0):
        if __isconst__(text) and __isconst__(repl):
            return __re__("sub", self.pattern, self.flags, text, repl, count)
        if __isconst__(text) and callable(repl):
            out, at, n = [], 0, 0
            for m in self.finditer(text):
                if count and n >= count:
                    break
                n = n + 1
                out.append(text[at:m.start()])
                out.append(repl(m))
                at = m.end()
            out.append(text[at:])
            return "".join(out)
        return __fn__("re.sub", "str", self.pattern, repl, text)

    def finditer(self, text):
        if __isconst__(text):
            for r in __re__("finditer", self.pattern, self.flags, text):
                yield x_re_Match(self, text, r[0], r[1], self.groupindex)
        elif __fn__("re.search", "bool", self.pattern, text):
            yield x_re_Match(self, text, (__fn__("re.start", "int", self.pattern, text), __fn__("re.end", "int", self.pattern, text)), None, self.groupindex)

    def split(self, text, maxsplit=0):
        if __isconst__(text):
            return list(__re__("split", self.pattern, self.flags, text, maxsplit))
        return [__fn__("re.split", "str", self.pattern, text)]

    def findall(self, text):
        if __isconst__(text):
            return list(__re__("findall", self.pattern, self.flags, text))
        return [__fn__("re.findall", "str", self.pattern, text)]


def x_re_compile(pattern, flags=0):
    return pattern if isinstance(pattern, x_re_Pattern) else x_re_Pattern(pattern, flags)


def x_re_match(pattern, text, flags=0):
    return x_re_compile(pattern, flags).match(text)


def x_re_fullmatch(pattern, text, flags=0):
    return x_re_compile(pattern, flags).fullmatch(text)


def x_re_search(pattern, text, flags=0):
    return x_re_compile(pattern, flags).search(text)


def x_re_sub(pattern, repl, text, count=0, flags=0):
    return x_re_compile(pattern, flags).sub(repl, text, count)


def x_re_split(pattern, text, maxsplit=0, flags=0):
    return x_re_compile(pattern, flags).split(text, maxsplit)


def x_re_findall(pattern, text, flags=0):
    return x_re_compile(pattern, flags).findall(text)


def x_re_finditer(pattern, text, flags=0):
    return x_re_compile(pattern, flags).finditer(text)


def x_re_escape(text):
    return __re__("escape", "", 0, text) if __isconst__(text) else __fn__("re.escape", "str", text)


x_re_IGNORECASE = x_re_I = 2
x_re_MULTILINE = x_re_M = 8
x_re_DOTALL = x_re_S = 16
x_re_VERBOSE = x_re_X = 64
x_re_ASCII = x_re_A = 256
