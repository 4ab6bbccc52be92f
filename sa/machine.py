"""Abstract machine over CPython bytecode: states, instructions, objects, calls, exceptions."""

from __future__ import annotations

import builtins
import importlib

from .code import CodeInfo
from .values import *  # noqa: F403
from .values import V, mk, o, c, tup, ext, NONE, TRUE, FALSE, NULL, UNB, isc, cval, kind, nullable, objectlike, vague
from .values import cat, catb, sum_, neg, slice_, star, leaves, deep, subst, elem_kind


class Limit(Exception):
    """The analysis met a construct it does not model."""


class Fork(Exception):
    def __init__(self, n):
        self.n = n


class PyRaise(Exception):
    def __init__(self, exc):
        self.exc = exc


class Pruned(Exception):
    pass


class Violation(Exception):
    def __init__(self, rule, msg, where=None):
        self.rule, self.msg, self.where = rule, msg, where


PENDING = object()


class Frame:
    __slots__ = ("code", "pc", "loc", "stk", "tag", "exc", "kwn", "ns", "aux")

    def __init__(self, code, pc, loc, stk, tag, exc=NONE, ns=None, aux=None):
        self.code, self.pc, self.loc, self.stk, self.tag = code, pc, loc, stk, tag
        self.exc = exc
        self.kwn = None
        self.ns = ns
        self.aux = aux

    def copy(self):
        f = Frame(self.code, self.pc, self.loc[:], self.stk[:], self.tag, self.exc, self.ns, self.aux)
        f.kwn = self.kwn
        return f

    def freeze(self):
        return (self.code, self.pc, tuple(self.loc), tuple(self.stk), self.tag, self.exc, self.ns, self.aux)


class S:
    """One abstract state."""

    __slots__ = ("frames", "heap", "facts", "pend", "pi", "hown", "fown", "trace", "retval", "steps", "budget")

    def __init__(self):
        self.frames = []
        self.heap = {}
        self.facts = {}
        self.pend = ()
        self.pi = 0
        self.hown = False
        self.fown = False
        self.trace = None
        self.retval = None
        self.steps = 0
        self.budget = 0

    def copy(self):
        s = S()
        s.frames = [f.copy() for f in self.frames]
        s.heap = dict(self.heap)
        s.facts = dict(self.facts)
        s.pend = self.pend
        s.trace = self.trace
        return s


class ClassInfo:
    def __init__(self, name, mod, bases, ns, key):
        self.name, self.mod, self.bases, self.ns = name, mod, bases, ns
        self.key = key
        self.dc = None  # dataclass fields
        self.enum = None  # list of member names
        self.proto_methods = None
        self.runtime_checkable = False
        self.mro = None
        self.v = None
        self.qual = name

    def __repr__(self):
        return self.name


def cls_v(ci):
    if ci.v is None:
        ci.v = mk("cls", ci.name, ci)
    return ci.v


def cinfo(v):
    return v.a[1]


SAFE_EXT = {
    "builtins", "asyncio", "collections.abc", "enum", "http", "typing", "abc", "contextlib", "functools", "types",
    "collections", "socket", "binascii", "json", "struct", "asyncio.exceptions", "json.decoder", "zlib", "gzip",
    "inspect", "http.client", "string", "os", "dataclasses", "concurrent.futures", "itertools", "operator", "re",
}
KNOWN_EXC = {
    # external classes whose hierarchy matters
    "pyqwest.StreamError": Exception,
    "pyqwest.ReadError": Exception,
    "pyqwest.WriteError": Exception,
    "brotli.error": Exception,
    "zstandard.ZstdError": Exception,
    "google.protobuf.message.DecodeError": Exception,
}
_real_cache: dict = {}
_UNRES = object()


def real(dotted):
    """The real stdlib object named by an external reference, or None (never repository code)."""
    r = _real_cache.get(dotted, _UNRES)
    if r is not _UNRES:
        return r
    r = None
    if dotted in KNOWN_EXC:
        n = dotted.rsplit(".", 1)[1]
        r = type(n, (KNOWN_EXC[dotted],), {"__module__": dotted.rsplit(".", 1)[0]})
    else:
        parts = dotted.split(".")
        for i in range(len(parts), 0, -1):
            mod = ".".join(parts[:i])
            if mod in SAFE_EXT:
                try:
                    r = importlib.import_module(mod)
                    for p in parts[i:]:
                        r = getattr(r, p)
                except Exception:
                    r = None
                break
    _real_cache[dotted] = r
    return r


BUILTIN_TYPES = {
    "str": str, "bytes": bytes, "int": int, "float": float, "bool": bool, "NoneType": type(None), "tuple": tuple,
    "list": list, "dict": dict, "set": set, "bytearray": bytearray, "memoryview": memoryview, "frozenset": frozenset,
    "object": object, "type": type, "slice": slice,
}


def eq_atom(x, y):
    if repr(y) < repr(x) or (isc(x) and not isc(y)):
        x, y = y, x
    return mk("eq", x, y)


def sum_floor(t):
    """A lower bound of an integer term that is a sum of lengths; minus infinity for other terms."""
    if t.op == "o":
        if t.a[0] == "len":
            return 0
        if t.a[0] == "sum" and all(x.op == "o" and x.a[0] == "len" for x in t.a[2:]):
            return t.a[1]
    return float("-inf")


class Machine:
    def __init__(self, modmap, opts=None):
        """modmap: dotted module name -> path of source file (repository, harness and prelude modules)."""
        from . import natives

        self.loaded = {}
        self.modmap = modmap
        self.modules: dict = {}
        self.base: dict = {}
        self.clsattr: set = set()  # names assigned to classes at run time
        self.marks: list = []  # heaps remembered by __mark__
        self.classes: dict = {}
        self.opts = opts or {}
        self.initing = 0
        self.nat = natives
        self.codes: dict = {}
        self.executed: set = set()  # (code) analysed
        self.sites: set = set()  # call sites analysed (code.key, idx)
        self.unmodelled: dict = {}
        self.hooks: dict = {}
        self.headers_v = None
        self.covered: dict = {}
        self.on_violation = None
        self._ident: dict = {}
        self.k_join = 10
        self.precise: set = set()  # harness code whose paths are not merged early
        self.tracked: set = set()
        self.tracked_ops = set()

    def is_identity(self, cls):
        """Harness automata: instances of classes marked __identity__."""
        r = self._ident.get(cls)
        if r is None:
            r = self._ident[cls] = cls.op == "cls" and self.lookup(cls, "__identity__") is not None
        return r

    # ------------------------------------------------------------ heap
    def get(self, S, ref):
        r = S.heap.get(ref)
        if r is None:
            r = self.base.get(ref)
            if r is None:
                raise Limit(f"dangling reference {ref!r}")
        return r

    def put(self, S, ref, obj):
        if self.initing:
            self.base[ref] = obj
            return
        if not S.hown:
            S.heap = dict(S.heap)
            S.hown = True
        S.heap[ref] = obj

    def alloc(self, S, obj, site=None):
        if site is None:
            f = S.frames[-1] if S.frames else None
            site = f"{f.code.key}@{f.pc}" if f else "top"
        n = 0
        while True:
            r = mk("r", site, n)
            if r not in S.heap and r not in self.base:
                break
            n += 1
        self.put(S, r, obj)
        return r

    def isref(self, v):
        return v.op == "r"

    def obj(self, S, v):
        return self.get(S, v) if v.op == "r" else None

    # inst helpers
    def new_inst(self, S, clsv, fields=(), site=None):
        names = tuple(n for n, _ in fields)
        return self.alloc(S, mk("inst", clsv, names, *[v for _, v in fields]), site)

    def field(self, obj, name):
        names = obj.a[1]
        for i, n in enumerate(names):
            if n == name:
                return obj.a[2 + i]
        return None

    def setfield(self, S, ref, name, val):
        obj = self.get(S, ref)
        names = obj.a[1]
        if name in names:
            i = names.index(name)
            vals = list(obj.a[2:])
            vals[i] = val
        else:
            # keep field order canonical so that states coincide
            pairs = sorted(list(zip(names, obj.a[2:])) + [(name, val)], key=lambda p: p[0])
            names = tuple(p[0] for p in pairs)
            vals = [p[1] for p in pairs]
        self.put(S, ref, mk("inst", obj.a[0], names, *vals))

    # ------------------------------------------------------------ decisions
    def choice(self, S, n, label=None):
        """Non-deterministic choice, replayed on re-execution of the instruction."""
        i = S.pi
        if i < len(S.pend):
            S.pi = i + 1
            r = S.pend[i]
            if label is not None:
                self.note(S, f"{label}={r}")
            return r
        raise Fork(n)

    def note(self, S, msg):
        f = None
        for g in reversed(S.frames):
            if not g.code.mod.startswith("__prelude"):
                f = g
                break
        S.trace = (S.trace, f"{f.code.path}:{f.code.ins[min(f.pc, len(f.code.ins) - 1)].line} {f.code.name}" if f else "", msg)

    def setfact(self, S, atom, val):
        if not S.fown:
            S.facts = dict(S.facts)
            S.fown = True
        S.facts[atom] = val

    def decide(self, S, atom):
        """Truth of an atom; forks when unknown."""
        if vague(atom):
            return bool(self.choice(S, 2) == 0)
        r = self.known(S, atom)
        if r is not None:
            return r
        r = bool(self.choice(S, 2) == 0)
        self.setfact(S, atom, r)
        self.note(S, f"{atom!r} is {r}")
        return r

    def holds(self, S, atom):
        """Truth of a (re-normalised) atom in S without assuming anything: True, False or None."""
        if vague(atom):
            return None
        op, a = atom.op, atom.a
        pend, pi = S.pend, S.pi
        S.pend, S.pi = (), 0
        try:
            if op == "eq":
                return self.eq(S, *a)
            if op == "lt":
                return self.lt(S, *a)
            if op == "isnone":
                return self.is_none(S, a[0])
            if op == "truthy":
                if a[0].op == "r":
                    return None
                return self.truth(S, a[0])
            if op == "isa":
                return self.isinstance_(S, *a)
            if op == "startswith" and isc(a[0]) and isc(a[1]):
                return cval(a[0]).startswith(cval(a[1]))
            return self.known(S, atom)
        except (Fork, PyRaise, Limit):
            return None
        finally:
            S.pend, S.pi = pend, pi

    def resub(self, k, mp):
        """Substitute and re-normalise (lengths of slices and concatenations have normal forms)."""
        r = subst(k, mp, {})
        return self.relen(r, {})

    def relen(self, v, memo):
        if v.op in ("c", "x", "r"):
            return v
        r = memo.get(v)
        if r is not None:
            return r
        r = v
        if v.op == "o" and v.a[0] == "len" and len(v.a) == 2 and kind(v.a[1]) == "bytes":
            r = self.nat.blength(v.a[1])
        elif v.op != "o" or v.a[0] not in ("in", "ev", "phi"):
            ch = {}
            for x in v.a:
                if type(x) is V:
                    y = self.relen(x, memo)
                    if y is not x:
                        ch[x] = y
            if ch:
                r = subst(v, ch, {})
        memo[v] = r
        return r

    def known(self, S, atom):
        r = S.facts.get(atom)
        if r is not None:
            return r
        op = atom.op
        a = atom.a
        F = S.facts
        if op in ("eq", "truthy", "startswith", "isnone"):
            x, y = a[0], a[1] if len(a) > 1 else None
            if op == "eq" and isc(x):
                x, y = y, x
            vs = F.get(mk("oneof", x)) if x.op == "o" and (y is None or isc(y)) else None
            if vs is not None:
                vs = [v for v in vs if F.get(eq_atom(x, v)) is not False]
                if op == "eq":
                    rs = {cval(v) == cval(y) and v.a[0] == y.a[0] for v in vs}
                elif op == "truthy":
                    rs = {bool(cval(v)) for v in vs}
                elif op == "isnone":
                    rs = {cval(v) is None for v in vs}
                else:
                    rs = {type(cval(v)) is type(cval(y)) and cval(v).startswith(cval(y)) for v in vs if type(cval(v)) in (str, bytes)}
                if len(rs) == 1:
                    return rs.pop()
        if op == "isnone":
            if F.get(mk("truthy", a[0])):
                return False
            # equality with a constant / positive isinstance
            for at, val in F.items():
                if val and at.op == "eq" and a[0] in at.a:
                    other = at.a[1] if at.a[0] is a[0] else at.a[0]
                    if isc(other) and other is not NONE:
                        return False
                if val and at.op == "isa" and at.a[0] is a[0]:
                    return False
        elif op == "truthy":
            if F.get(mk("isnone", a[0])):
                return False
            for at, val in F.items():
                if val and at.op == "eq" and a[0] in at.a:
                    other = at.a[1] if at.a[0] is a[0] else at.a[0]
                    if isc(other):
                        return bool(cval(other))
                    if other.op == "enum":
                        return True
                if val and at.op == "startswith" and at.a[0] is a[0] and isc(at.a[1]) and cval(at.a[1]):
                    return True
                if at.op == "lt" and val and at.a[1].op == "o" and at.a[1].a[0] == "len" and at.a[1].a[1] is a[0] and isc(at.a[0]) and cval(at.a[0]) >= 0:
                    return True
        elif op == "eq":
            x, y = a
            if isc(x):
                x, y = y, x
            if isc(y) or y.op == "enum":
                for at, val in F.items():
                    if val and at.op == "eq" and x in at.a:
                        other = at.a[1] if at.a[0] is x else at.a[0]
                        if other is not y and (isc(other) or other.op == "enum"):
                            return False
                if isc(y):
                    t = F.get(mk("truthy", x))
                    if t is not None and cval(y) is not None:
                        if t and not cval(y):
                            return False
                        if not t and cval(y):
                            return False
                        if not t and not cval(y) and kind(x) == type(cval(y)).__name__:
                            return True
                    if F.get(mk("isnone", x)):
                        return cval(y) is None
                    if isinstance(cval(y), str):
                        for at, val in F.items():
                            if at.op == "startswith" and at.a[0] is x and isc(at.a[1]):
                                if val and not cval(y).startswith(cval(at.a[1])):
                                    return False
                                if not val and cval(y).startswith(cval(at.a[1])):
                                    return False
        elif op == "startswith":
            x, p = a
            if isc(p):
                for at, val in F.items():
                    if at.op == "eq" and val and x in at.a:
                        other = at.a[1] if at.a[0] is x else at.a[0]
                        if isc(other) and isinstance(cval(other), type(cval(p))):
                            return cval(other).startswith(cval(p))
                    if at.op == "startswith" and at.a[0] is x and isc(at.a[1]) and type(cval(at.a[1])) is type(cval(p)):
                        q = cval(at.a[1])
                        if val and q.startswith(cval(p)):
                            return True
                        if val and not cval(p).startswith(q):
                            return False
                        if not val and cval(p).startswith(q):
                            return False
                if F.get(mk("truthy", x)) is False and cval(p):
                    return False
        elif op == "isa":
            x, k = a
            if F.get(mk("isnone", x)):
                return False
            for at, val in F.items():
                if at.op == "isa" and at.a[0] is x:
                    k2 = at.a[1]
                    if val:
                        if self.subclass(k2, k):
                            return True
                        if not self.subclass(k, k2) and self.exclusive(k, k2):
                            return False
                    elif self.subclass(k, k2):
                        return False
        elif op == "lt":
            x, y = a
            if F.get(mk("lt", y, x)):
                return False
            if isc(y) or isc(x):
                for at, val in F.items():
                    if at.op == "lt":
                        p, q = at.a
                        if p is x and isc(q) and isc(y):
                            if val and cval(q) <= cval(y):
                                return True
                            if not val and cval(q) >= cval(y):
                                return False
                        if q is y and isc(p) and isc(x):
                            if val and cval(p) >= cval(x):
                                return True
                            if not val and cval(p) <= cval(x):
                                return False
                        if isc(x) and isc(q) and p is y and val and cval(q) <= cval(x) + (1 if kind(y) == "int" else 0):
                            return False
                        if isc(y) and isc(p) and q is x and val and cval(p) >= cval(y) - (1 if kind(x) == "int" else 0):
                            return False
                    elif at.op == "eq" and val:
                        for z, w in ((at.a[0], at.a[1]), (at.a[1], at.a[0])):
                            if isc(w) and isinstance(cval(w), (int, float)):
                                if z is x and isc(y):
                                    return cval(w) < cval(y)
                                if z is y and isc(x):
                                    return cval(x) < cval(w)
            # len(x) vs 0
            if isc(x) and y.op == "o" and y.a[0] == "len" and cval(x) == 0:
                return F.get(mk("truthy", y.a[1]))
            if isc(x) and cval(x) < 0 and y.op == "o" and y.a[0] == "len":
                return True
            if isc(y) and x.op == "o" and x.a[0] == "len" and cval(y) <= 0:
                return False
            if isc(y) and cval(y) == 1 and x.op == "o" and x.a[0] == "len":
                t = F.get(mk("truthy", x.a[1]))
                return None if t is None else not t
        elif op == "in":
            return self.nat.text_in(a[0], a[1]) if type(a[1]) is V and a[1].op == "o" else None
        return None

    # ------------------------------------------------------------ classes
    def mro(self, v):
        """Linearised list of class values (repo classes and external names)."""
        if v.op == "cls":
            ci = cinfo(v)
            if ci.mro is None:
                seqs = [list(self.mro(b_)) for b_ in ci.bases] + [list(ci.bases)]
                res = [v]
                seqs = [s for s in seqs if s]
                while seqs:
                    for s in seqs:
                        h = s[0]
                        if not any(h in t[1:] for t in seqs):
                            break
                    else:
                        h = seqs[0][0]
                    res.append(h)
                    seqs = [[x for x in t if x is not h] for t in seqs]
                    seqs = [t for t in seqs if t]
                ci.mro = res
            return ci.mro
        return [v]

    def subclass(self, k, k2):
        """k <= k2 ?"""
        if k is k2:
            return True
        if k.op == "union":
            return all(self.subclass(x, k2) for x in k.a)
        if k2.op == "union":
            return any(self.subclass(k, x) for x in k2.a)
        for m in self.mro(k):
            if m is k2:
                return True
            if m.op == "x" and k2.op == "x":
                r1, r2 = real(m.a[0]), real(k2.a[0])
                if isinstance(r1, type) and isinstance(r2, type):
                    try:
                        if issubclass(r1, r2):
                            return True
                    except TypeError:
                        pass
        if k2.op == "x" and k2.a[0] == "builtins.object":
            return True
        return False

    def is_proto(self, k):
        return k.op == "cls" and (cinfo(k).runtime_checkable or any(b_.op == "x" and b_.a[0].endswith("typing.Protocol") for b_ in cinfo(k).bases))

    def exclusive(self, k, k2):
        if self.is_proto(k) or self.is_proto(k2):
            return False
        for z in (k, k2):
            if z.op == "x":
                r = real(z.a[0])
                if r is not None and isinstance(r, type) and getattr(r, "__abstractmethods__", None):
                    return False
        return True

    def class_of(self, S, v):
        """Class value of v or None if unknown."""
        if v.op == "c":
            return ext("builtins." + (v.a[0] if v.a[0] != "NoneType" else "NoneType"))
        if v.op == "t":
            return ext("builtins.tuple")
        if v.op == "enum":
            return v.a[0]
        if v.op == "r":
            ob = self.get(S, v)
            if ob.op == "inst" or ob.op == "hdr":
                return ob.a[0]
            m = {"list": "list", "dict": "dict", "ba": "bytearray", "set": "set"}
            if ob.op in m:
                return ext("builtins." + m[ob.op])
            if ob.op == "gen":
                return ext({"gen": "types.GeneratorType", "coro": "types.CoroutineType", "agen": "types.AsyncGeneratorType"}[ob.a[0]])
            return None
        if v.op in ("cls",):
            return ext("builtins.type")
        if v.op == "o":
            k = kind(v).rstrip("?")
            if k in ("str", "bytes", "int", "float", "bool", "tuple") and not nullable(v):
                return ext("builtins." + k)
        return None

    def isinstance_(self, S, v, k):
        """-> True/False, may fork."""
        if k.op == "nat":
            k = ext("builtins." + k.a[0])
        if k.op == "t":
            for x in k.a:
                if self.isinstance_(S, v, x):
                    return True
            return False
        if k.op == "union":
            for x in k.a:
                if self.isinstance_(S, v, x):
                    return True
            return False
        if k is NONE or (k.op == "x" and k.a[0] == "builtins.NoneType"):
            return self.is_none(S, v)
        if k.op == "x" and k.a[0] == "builtins.object":
            return True
        cv = self.class_of(S, v)
        if cv is not None:
            if self.is_proto(k) and v.op == "r":
                return self.proto_check(S, v, k)
            if cv.op == "x" and k.op == "x":
                r1, r2 = real(cv.a[0]), real(k.a[0])
                if cv.a[0] == "builtins.NoneType":
                    return k.a[0] == "builtins.NoneType"
                if r1 is None or r2 is None:
                    return cv is k
                try:
                    return issubclass(r1, r2)
                except TypeError:
                    return False
            if v.op == "r" and k.op == "x" and self.get(S, v).op == "hdr":
                n = k.a[0].rsplit(".", 1)[-1]
                if n in ("Mapping", "MutableMapping", "Collection", "Iterable", "Container", "Sized"):
                    return cv is self.headers_v
            return self.subclass(cv, k)
        if v.op == "o":
            kk = kind(v)
            if kk == "exc" and not (k.op == "cls" or (k.op == "x" and self.is_exc_class(k))):
                return False
            if nullable(v) and self.is_none(S, v):
                return False
            if kk.rstrip("?") in ("str", "bytes", "int", "float", "bool", "tuple"):
                return self.isinstance_(S, _dummy(kk.rstrip("?")), k)
            if kk.startswith(("list:", "map:")) and k.op == "x":
                r2 = real(k.a[0])
                if isinstance(r2, type):
                    return issubclass(list if kk.startswith("list") else dict, r2)
            if kk.startswith("obj:") and k.op == "x" and k.a[0] in ("builtins.str", "builtins.bytes", "builtins.int", "builtins.bytearray", "builtins.dict", "builtins.list", "builtins.tuple", "builtins.float", "builtins.bool"):
                return False
            return self.decide(S, mk("isa", v, k))
        if v.op in ("fn", "bm", "partial", "nat", "x", "cls"):
            if k.op == "x":
                if k.a[0].endswith("Callable"):
                    return True
                if k.a[0] == "builtins.type":
                    return v.op == "cls"
            return False
        return self.decide(S, mk("isa", v, k))

    def is_exc_class(self, k):
        if k.op == "cls":
            return any(self.is_exc_class(m) for m in self.mro(k)[1:] if m.op == "x")
        if k.op == "x":
            r = real(k.a[0])
            if isinstance(r, type):
                return issubclass(r, BaseException)
            return k.a[0].endswith(("Error", "Exception"))
        return False

    def proto_check(self, S, v, k):
        ci = cinfo(k)
        if ci.proto_methods is None:
            ms = []
            for m in self.mro(k):
                if m.op == "cls":
                    ms += [n for n, x in cinfo(m).ns.items() if not n.startswith("__") and x.op in ("fn", "prop", "smeth", "cmeth")]
            ci.proto_methods = sorted(set(ms))
        ob = self.get(S, v)
        if ob.op not in ("inst", "hdr"):
            return False
        if self.subclass(ob.a[0], k):
            return True
        for n in ci.proto_methods:
            if self.lookup(ob.a[0], n) is None and (ob.op != "inst" or self.field(ob, n) is None):
                return False
        return True

    def lookup(self, clsv, name, after=None):
        """Attribute `name` along the MRO of clsv (after class `after` for super())."""
        seen = after is None
        for m in self.mro(clsv):
            if not seen:
                if m is after:
                    seen = True
                continue
            if m.op == "cls":
                r = cinfo(m).ns.get(name)
                if r is not None:
                    return r
        return None

    def ext_base(self, clsv):
        return [m for m in self.mro(clsv) if m.op == "x"]

    # ------------------------------------------------------------ truth, none, equality
    def is_none(self, S, v):
        if v is NONE:
            return True
        if v.op != "o":
            return False
        if not nullable(v):
            return False
        return self.decide(S, mk("isnone", v))

    def truth(self, S, v):
        """True/False (may fork). For instances with __bool__/__len__ the caller handles the call."""
        op = v.op
        if op == "c":
            return bool(cval(v))
        if op == "t":
            return len(v.a) > 0
        if op == "o":
            if v.a[0] == "not":
                return not self.truth(S, v.a[1])
            if v.a[0] == "atom":
                return self.decide(S, v.a[1])
            if v.a[0] == "m" and v.a[1] in ("startswith",) and len(v.a) == 4 and isc(v.a[3]):
                return self.decide(S, mk("startswith", v.a[2], v.a[3]))
            if v.a[0] in ("catb", "cat") and any(isc(x) and cval(x) for x in v.a[1:]):
                return True
            if v.a[0] in ("be32", "u8"):
                return True
            if v.a[0] == "catb" and any(x.op == "o" and x.a[0] in ("u8", "be32") for x in v.a[1:]):
                return True
            if objectlike(v):
                return not self.is_none(S, v)
            if v.a[0] == "len":
                return self.decide(S, mk("truthy", v.a[1]))
            if v.a[0] == "m" and v.a[1] in ("encode", "decode") and len(v.a) == 3 or v.a[0] == "m" and v.a[1] == "rstrip" and len(v.a) == 4 and isc(v.a[3]) and cval(v.a[3]) in ("=", b"="):
                w = self.nat.strip_dec(v.a[2])  # text and its encoding are empty together; so are data and their base64 form
                if v.a[1] != "rstrip" or self.nat.is_b64(w):
                    return self.truth(S, w)
            if self.nat.is_b64(v):
                return self.truth(S, v.a[2])
            if kind(v) in ("int", "num"):
                return not self.eq(S, v, c(0))
            if nullable(v) and S.facts.get(mk("isnone", v)):
                return False
            return self.decide(S, mk("truthy", v))
        if op == "r":
            ob = self.get(S, v)
            k = ob.op
            if k == "ba":
                return self.truth(S, ob.a[0])
            if k in ("list", "dict", "set", "hdr"):
                segs = ob.a[1:] if k == "hdr" else ob.a
                if k == "hdr":
                    return self.nat.hdr_nonempty(self, S, segs)
                if not segs:
                    return False
                if any(s.op not in ("star", "kvs", "all", "hs", "hall") for s in segs):
                    return True
                return self.decide(S, mk("truthy", o("content", ob)))
            return True
        return True

    def eq(self, S, x, y):
        """Equality as a bool (may fork)."""
        if x is y:
            if x.op == "o" and vague(x):
                return bool(self.choice(S, 2) == 0)
            return True
        if isc(x) and x.a[0] == "HTTPStatus":
            x = c(int(cval(x)))
        if isc(y) and y.a[0] == "HTTPStatus":
            y = c(int(cval(y)))
        if x.op == "hstat":
            x = x.a[0]
        if y.op == "hstat":
            y = y.a[0]
        if x is y:
            return True
        if x.op == "enum" and getattr(cinfo(x.a[0]), "enum_plain", False) and y.op != "enum":
            x = x.a[2]
        if y.op == "enum" and getattr(cinfo(y.a[0]), "enum_plain", False) and x.op != "enum":
            y = y.a[2]
        if x.op == "nat" or y.op == "nat":
            return x is y
        if isc(x) and isc(y):
            return cval(x) == cval(y)
        if x.op == "t" and y.op == "t":
            if len(x.a) != len(y.a):
                return False
            return all(self.eq(S, p, q) for p, q in zip(x.a, y.a))
        for p, q in ((x, y), (y, x)):
            if p.op == "enum":
                if q.op == "enum" or isc(q) or q.op == "r":
                    return False
            if p.op == "r":
                ob = self.get(S, p)
                if ob.op == "ba":
                    return self.eq(S, ob.a[0], q)
                if ob.op in ("list",) and q.op == "r" and self.get(S, q).op == "list":
                    oq = self.get(S, q)
                    if not any(z.op == "star" for z in ob.a + oq.a):
                        if len(ob.a) != len(oq.a):
                            return False
                        return all(self.eq(S, u, w) for u, w in zip(ob.a, oq.a))
                    if ob is oq:
                        return True
                if ob.op == "list" and q.op == "r":
                    return False
                if ob.op == "dict" and q.op == "r" and self.get(S, q).op == "dict" and self.get(S, q) is ob:
                    return True
                if ob.op in ("inst", "list", "dict") and not (q.op == "o"):
                    if q.op == "r" and ob.op == "inst":
                        oq = self.get(S, q)
                        if oq.op == "inst" and oq.a[0] is ob.a[0] and ob.a[0].op == "cls" and cinfo(ob.a[0]).dc is not None:
                            return all(self.eq(S, u, w) for u, w in zip(ob.a[2:], oq.a[2:]))
                    return False
            if p.op in ("cls", "fn", "bm", "nat", "x") and q.op in ("cls", "fn", "bm", "nat", "c", "r", "t", "enum", "x"):
                return False
            if q is NONE:
                return self.is_none(S, p)
            if isc(q) and p.op == "o":
                kp = kind(p)
                tq = type(cval(q)).__name__
                if kp.startswith("obj") or kp == "exc":
                    return False
                if kp in ("str", "bytes") and tq != kp and tq != "bytearray":
                    return False
                if kp in ("int", "float", "bool") and tq in ("str", "bytes"):
                    return False
                if tq == kp and not cval(q) and kp in ("str", "bytes"):
                    return not self.truth(S, p)
                if p.a[0] == "cat" and tq == "str":
                    # fixed prefix / suffix contradiction
                    h, t_ = p.a[1], p.a[-1]
                    if isc(h) and not cval(q).startswith(cval(h)):
                        return False
                    if isc(t_) and not cval(q).endswith(cval(t_)):
                        return False
                    if isc(h) and isc(t_) and len(cval(h)) + len(cval(t_)) > len(cval(q)):
                        return False
                    if isc(h) or isc(t_):
                        from .values import cat
                        rest = cval(q)[len(cval(h)) if isc(h) else 0:len(cval(q)) - (len(cval(t_)) if isc(t_) else 0)]
                        return self.eq(S, cat(*p.a[2 if isc(h) else 1:-1 if isc(t_) else None]), c(rest))
                if p.a[0] == "len" and cval(q) == 0:
                    return not self.truth(S, p)
                if kp == "bool" and tq == "bool":
                    return self.truth(S, p) == cval(q)
            if (p.op == "t") and q.op != "o":
                return False
        if x.op == "o" and y.op == "o" and x.a[0] == y.a[0] == "cat":
            for u, w, f in ((x.a[1], y.a[1], str.startswith), (x.a[-1], y.a[-1], str.endswith)):
                if isc(u) and isc(w) and not (f(cval(u), cval(w)) or f(cval(w), cval(u))):
                    return False
        # canonical argument order
        if repr(y) < repr(x) or (isc(x) and not isc(y)):
            x, y = y, x
        return self.decide(S, mk("eq", x, y))

    def is_(self, S, x, y):
        if x is y:
            return True
        if y is NONE:
            return self.is_none(S, x)
        if x is NONE:
            return self.is_none(S, y)
        for p, q in ((x, y), (y, x)):
            if q is TRUE or q is FALSE:
                if p.op == "o" and kind(p) in ("bool",):
                    return self.truth(S, p) == (q is TRUE)
                if p.op != "o":
                    return False
        if x.op == "o" or y.op == "o":
            if x.op == "r" or y.op == "r":
                a_, b_ = (x, y) if x.op == "r" else (y, x)
                if b_.op == "o" and kind(b_) in ("str", "int", "bytes", "bool", "float"):
                    return False
            if repr(y) < repr(x) or (isc(x) and not isc(y)):
                x, y = y, x
            return self.decide(S, mk("eq", x, y))
        if isc(x) and isc(y):
            return cval(x) == cval(y) and type(cval(x)) is type(cval(y))
        return False

    def lt(self, S, x, y):
        if isc(x) and isc(y):
            try:
                return cval(x) < cval(y)
            except TypeError:
                self.raise_ext(S, "builtins.TypeError", c("unorderable"))
        if x is y:
            if vague(x):
                return bool(self.choice(S, 2) == 0)
            return False
        if x.op == "t" and y.op == "t" and all(isc(z) for z in x.a + y.a):
            return tuple(cval(z) for z in x.a) < tuple(cval(z) for z in y.a)
        if isc(x) and x.a[0] == "HTTPStatus":
            x = c(int(cval(x)))
        if isc(y) and y.a[0] == "HTTPStatus":
            y = c(int(cval(y)))
        for z in (x, y):
            if z is NONE or z.op in ("r", "fn", "cls") or kind(z) in ("NoneType",):
                if z.op != "r" or self.get(S, z).op != "inst":
                    self.raise_ext(S, "builtins.TypeError", c("'<' not supported between instances"))
            if nullable(z) and kind(z) not in ("any", "json") and self.is_none(S, z):
                self.raise_ext(S, "builtins.TypeError", c("'<' not supported between NoneType"))
        # a whole float stands for the integer
        if isc(x) and kind(y) == "int" and type(cval(x)) is float and cval(x).is_integer():
            x = c(int(cval(x)))
        if isc(y) and kind(x) == "int" and type(cval(y)) is float and cval(y).is_integer():
            y = c(int(cval(y)))
        # move constants: sum(k, ts) < sum(k2, ts2)
        x, y = self.balance(x, y)
        if isc(x) and isc(y):
            return cval(x) < cval(y)
        if isc(x) and cval(x) < sum_floor(y):
            return True
        if isc(y) and cval(y) <= sum_floor(x):
            return False
        if isc(x) and y.op == "o" and y.a[0] == "len" and cval(x) == 0:
            return self.truth(S, y)
        if isc(y) and x.op == "o" and x.a[0] == "len" and cval(y) == 1:
            return not self.truth(S, x)
        if kind(x) == "int" and isc(y) and type(cval(y)) is int:
            # x < n  <=>  not (n-1 < x): canonical form with the constant on the left
            return not self.decide(S, mk("lt", c(cval(y) - 1), x))
        return self.decide(S, mk("lt", x, y))

    def balance(self, x, y):
        def terms(v):
            if isc(v) and isinstance(cval(v), int):
                return [], cval(v)
            if v.op == "o" and v.a[0] == "sum":
                return list(v.a[2:]), v.a[1]
            return [v], 0

        if kind(x) not in ("int",) and kind(y) not in ("int",):
            return x, y
        tx, cx = terms(x)
        ty, cy = terms(y)
        for t in list(tx):
            if t in ty:
                tx.remove(t)
                ty.remove(t)
        pos_x, pos_y = [], []
        for t in tx:
            (pos_y.append(t.a[1]) if t.op == "o" and t.a[0] == "neg" else pos_x.append(t))
        for t in ty:
            (pos_x.append(t.a[1]) if t.op == "o" and t.a[0] == "neg" else pos_y.append(t))
        d = cx - cy
        if not pos_x:
            return c(d) if True else None, sum_(pos_y, 0)
        if not pos_y:
            return sum_(pos_x, 0), c(-d)
        if d > 0:
            return sum_(pos_x, d), sum_(pos_y, 0)
        return sum_(pos_x, 0), sum_(pos_y, -d)

    # ------------------------------------------------------------ exceptions
    def exc_inst(self, S, clsv, *args):
        return self.new_inst(S, clsv, (("args", tup(*args)),))

    def raise_ext(self, S, name, *args):
        raise PyRaise(self.exc_inst(S, ext(name), *args))

    # ------------------------------------------------------------ aging of event terms
    def live_terms(self, S):
        s = set()
        for f in S.frames:
            for v in f.loc:
                s |= deep(v)
            for v in f.stk:
                s |= deep(v)
            s |= deep(f.exc)
            for z in f.tag:
                if type(z) is V:
                    s |= deep(z)
            if f.aux is not None and type(f.aux) is V:
                s |= deep(f.aux)
        for r, v in S.heap.items():
            s |= deep(v)
        for a_ in S.facts:
            s |= deep(a_)
        return s

    def fresh(self, S, t):
        """t is about to be produced by an impure operation: rename its previous incarnation, if any."""
        present = False
        for f in S.frames:
            for v in f.loc:
                if t in deep(v):
                    present = True
                    break
            if present:
                break
            for v in f.stk:
                if t in deep(v):
                    present = True
                    break
            if present:
                break
        if not present:
            for v in S.heap.values():
                if t in deep(v):
                    present = True
                    break
        if not present:
            for v in S.facts:
                if t in deep(v):
                    present = True
                    break
        if present:
            self.age(S, t)
        return t

    def age(self, S, t):
        """Renumber the earlier incarnations of t: the last few keep their identity, older ones are summarised."""
        live = self.live_terms(S)
        older = o("older", t)
        chain = []
        for x in live:
            if x is t:
                chain.append((0, x))
            elif x.op == "o" and x.a[0] == "old":
                d, y = 0, x
                while y.op == "o" and y.a[0] == "old":
                    d, y = d + 1, y.a[1]
                if y is t:
                    chain.append((d, x))
        chain.sort(key=lambda p: p[0])
        mp = {}
        nxt = t
        n = 0
        for d, x in chain:
            nxt = o("old", nxt)
            n += 1
            mp[x] = nxt if n < 8 else older
        self.rename(S, mp)
        if n >= 8 and any(older in deep(k) for k in S.facts):
            # the summary may now stand for several values: nothing is known about it
            S.facts = {k: v for k, v in S.facts.items() if older not in deep(k)}
            S.fown = True

    def rename(self, S, m):
        memo = {}
        # do not rename under a mapping target
        for v in m.values():
            if v not in m:
                memo[v] = v
        for f in S.frames:
            f.loc = [subst(v, m, memo) for v in f.loc]
            f.stk = [subst(v, m, memo) for v in f.stk]
            f.exc = subst(f.exc, m, memo)
            f.tag = tuple(subst(z, m, memo) if type(z) is V else z for z in f.tag)
            if type(f.aux) is V:
                f.aux = subst(f.aux, m, memo)
        S.heap = {r: subst(v, m, memo) for r, v in S.heap.items()}
        S.hown = True
        nf = {}
        for k, v in S.facts.items():
            nk = subst(k, m, memo)
            if nk in nf and nf[nk] != v:
                del nf[nk]
            else:
                nf[nk] = v
        S.facts = nf
        S.fown = True

    # ------------------------------------------------------------ modules
    def import_module(self, name):
        if name in self.modules:
            return mk("mod", name)
        path = self.modmap.get(name)
        if path is None:
            return ext(name)
        # parents first
        if "." in name:
            par = name.rsplit(".", 1)[0]
            if par in self.modmap and par not in self.modules:
                self.import_module(par)
                if name in self.modules:
                    return mk("mod", name)
        return self.load_module(name, open(path, encoding="utf-8").read(), path, path)

    def load_module(self, name, src, path, where):
        co = compile(src, path, "exec", dont_inherit=True)
        ci = CodeInfo(co, name, self.shortpath(path))
        self.codes[name] = ci
        g = self.modules[name] = {}
        g["__name__"] = c(name)
        g["__file__"] = c(path)
        g["__doc__"] = NONE
        pkg = name if path.endswith("__init__.py") else name.rsplit(".", 1)[0] if "." in name else ""
        g["__package__"] = c(pkg)
        self.initing += 1
        try:
            S0 = S()
            S0.frames.append(Frame(ci, 0, [UNB] * ci.nloc, [], ("module",), ns=name))
            rv = self.run_to_end(S0)
        finally:
            self.initing -= 1
        if rv and rv[0] == "raise":
            from .explore import describe_exc

            raise Limit(f"module {name} raises while it is imported: {describe_exc(self, S0, rv[1])}")
        if "." in name:
            par, leaf = name.rsplit(".", 1)
            if par in self.modules:
                self.modules[par].setdefault(leaf, mk("mod", name))
        return mk("mod", name)

    def shortpath(self, path):
        root = self.opts.get("root", "")
        return path[len(root):].lstrip("/") if root and path.startswith(root) else path

    def run_to_end(self, S):
        """Deterministic run (module initialisation)."""
        from .interp import step

        n = 0
        while S.frames:
            n += 1
            if n > 2_000_000:
                raise Limit("module initialisation does not terminate")
            S.pend = ()
            S.pi = 0
            try:
                step(self, S)
            except Fork:
                # module-level choice on an external: take the first alternative deterministically
                S.pend = S.pend + (0,)
                raise Limit(f"undetermined branch while initialising module at {self.where(S)}")
        return S.retval

    def where(self, S):
        for f in reversed(S.frames):
            if not f.code.mod.startswith("__prelude"):
                return f"{f.code.path}:{f.code.ins[min(f.pc, len(f.code.ins) - 1)].line} in {f.code.name}"
        return "?"

    def repo_where(self, S):
        """Innermost frame of the analysed code (not of a driver or a library model)."""
        for f in reversed(S.frames):
            if not f.code.path.startswith("/"):
                return f"{f.code.path}:{f.code.ins[min(f.pc, len(f.code.ins) - 1)].line} in {f.code.name}"
        for t in (S.trace,):
            while t is not None:
                w = t[1]
                if w and not w.startswith("/") and not w.startswith("?"):
                    return "after " + w
                t = t[0]
        return self.where(S)

    def stack_desc(self, S):
        out = []
        for f in S.frames:
            out.append(f"{f.code.path}:{f.code.ins[min(f.pc, len(f.code.ins) - 1)].line} {f.code.name}")
        return out

    def getglobal(self, S, mod, name):
        r = S.heap.get(mk("r", f"glob:{mod}:{name}", 0))
        if r is not None:
            return r.a[0]
        g = self.modules[mod].get(name)
        if g is not None:
            return g
        b_ = self.nat.BUILTINS.get(name)
        if b_ is not None:
            return b_
        pre = self.modules.get("__prelude__")
        if pre is not None and ("builtin_" + name) in pre:
            return pre["builtin_" + name]
        if hasattr(builtins, name):
            return ext("builtins." + name)
        return None


def _dummy(k):
    return {"str": c("x"), "bytes": c(b"x"), "int": c(1), "float": c(1.0), "bool": TRUE, "tuple": tup()}[k]
