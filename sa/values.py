"""Interned abstract values.

Every abstract value is a `V`: an operator plus arguments, hash-consed so that structural equality is
object identity.  Value numbering: two program expressions computed by the same pure operations from the
same inputs are the same `V`.
"""

from __future__ import annotations

_table: dict = {}


class V:
    __slots__ = ("op", "a", "_leaves", "_h", "_rep")

    def __repr__(self):
        r = self._rep
        if r is None:
            r = self._rep = _show(self)
        return r


def _show(v):
    op, a = v.op, v.a
    if op == "c":
        return repr(a[1])
    if op == "t":
        return "(" + ", ".join(map(repr, a)) + ")"
    if op == "r":
        return "&" + str(a[0]) + (f"#{a[1]}" if a[1] else "")
    if op == "x":
        return a[0]
    if op == "fn":
        return f"<fn {a[0].name}>"
    if op == "bm":
        return f"{a[0]!r}.{a[1]!r}"
    if op == "enum":
        return f"{a[0].a[0]}.{a[1]}" if isinstance(a[0], V) else f"{a[0]}.{a[1]}"
    if op == "o":
        k = a[0]
        if k == "in":
            return f"${a[1]}"
        if k == "m":
            return f"{a[2]!r}.{a[1]}({', '.join(map(repr, a[3:]))})"
        if k == "attr":
            return f"{a[1]!r}.{a[2]}"
        return f"{k}({', '.join(map(repr, a[1:]))})"
    return f"{op}({', '.join(map(repr, a))})"


def _key(x):
    if isinstance(x, V):
        return x
    if isinstance(x, tuple):
        return tuple(_key(y) for y in x)
    return (type(x).__name__, x)


def mk(op, *a):
    # primitive args are tagged by type so that 1, True and 1.0 stay distinct
    k = (op,) + tuple(x if (type(x) is V or type(x) is str) else _key(x) for x in a)
    v = _table.get(k)
    if v is None:
        v = V()
        v.op = op
        v.a = a
        v._leaves = None
        v._h = None
        v._rep = None
        _table[k] = v
    return v


def c(x):
    return mk("c", type(x).__name__, x)


NONE = c(None)
TRUE = c(True)
FALSE = c(False)
NULL = mk("null")
UNB = mk("unb")
EMPTY_STR = c("")
EMPTY_BYTES = c(b"")


def b(x):
    return TRUE if x else FALSE


def tup(*xs):
    return mk("t", *xs)


def ext(n):
    return mk("x", n)


def o(op, *args):
    return mk("o", op, *args)


def inp(name, kind="any"):
    return mk("o", "in", name, kind)


def isc(v):
    return v.op == "c"


def cval(v):
    return v.a[1]


def is_tuple(v):
    return v.op == "t"


# leaf operators: what a term is ultimately "about"
LEAF_O = {"in", "ev", "phi", "elem", "old", "older", "each"}


def leaves(v):
    """The leaf terms of v (inputs, event results, references), used for fact pruning."""
    l = v._leaves
    if l is None:
        if v.op == "r":
            l = frozenset((v,))
        elif v.op == "o" and v.a[0] in LEAF_O:
            l = frozenset((v,))
        elif v.op == "c" or v.op == "x":
            l = frozenset()
        else:
            s = set()
            for x in v.a:
                if type(x) is V:
                    s |= leaves(x)
                elif type(x) is tuple:
                    for y in x:
                        if type(y) is V:
                            s |= leaves(y)
            l = frozenset(s)
        v._leaves = l
    return l


_deep: dict = {}
_vague: dict = {}


def vague(v):
    """Does the term contain a summary of several earlier values (so that identity is not equality)?"""
    r = _vague.get(v)
    if r is None:
        r = _vague[v] = any(x.op == "o" and x.a[0] == "older" for x in deep(v))
    return r


def deep(v):
    """All sub-terms (through leaves as well)."""
    d = _deep.get(v)
    if d is None:
        s = {v}
        if v.op != "c":
            for x in v.a:
                if type(x) is V:
                    s |= deep(x)
                elif type(x) is tuple:
                    for y in x:
                        if type(y) is V:
                            s |= deep(y)
        d = _deep[v] = frozenset(s)
    return d


def subst(v, m, memo):
    """Replace sub-terms according to m (dict V->V)."""
    r = m.get(v)
    if r is not None:
        return r
    if v.op == "c" or v.op == "x":
        return v
    r = memo.get(v)
    if r is not None:
        return r
    ch = False
    out = []
    for x in v.a:
        if type(x) is V:
            y = subst(x, m, memo)
            if y is not x:
                ch = True
            out.append(y)
        elif type(x) is tuple and any(type(z) is V for z in x):
            y = tuple(subst(z, m, memo) if type(z) is V else z for z in x)
            if y != x:
                ch = True
            out.append(y)
        else:
            out.append(x)
    r = mk(v.op, *out) if ch else v
    if ch and v.op == "o":
        r = renorm(r)
    memo[v] = r
    return r


def renorm(v):
    """Re-normalise an opaque term after substitution."""
    a = v.a
    if a[0] == "cat":
        return cat(*a[1:])
    if a[0] == "catb":
        return catb(*a[1:])
    if a[0] == "slice" and len(a) == 4:
        return slice_(a[1], a[2], a[3])
    if a[0] == "sum":
        return sum_(list(a[2:]), a[1])
    return v


def reset():
    # keep the constants created at import
    keep = {k: v for k, v in _table.items() if v in _perm}
    _table.clear()
    _table.update(keep)
    _deep.clear()


_perm: set = set()


# ---------------------------------------------------------------- kinds
STR_M = {
    "lower", "upper", "strip", "lstrip", "rstrip", "replace", "decode", "removeprefix", "removesuffix",
    "join", "format", "title", "casefold", "hex", "capitalize", "zfill", "ljust", "rjust", "isoformat",
}
INT_M = {"find", "rfind", "index", "rindex", "count", "to_int", "bit_length"}
BOOL_M = {
    "startswith", "endswith", "isdigit", "isdecimal", "isascii", "isalpha", "isalnum", "isspace",
    "is_set", "isidentifier", "islower", "isupper", "isnumeric",
}
LIST_M = {"split", "rsplit", "splitlines"}
TUP_M = {"partition", "rpartition"}


def kind(v):
    """Static type guess: str, bytes, int, float, bool, NoneType, tuple, obj, any; trailing '?' = or None."""
    op = v.op
    if op == "c":
        return "int" if v.a[0] == "HTTPStatus" else v.a[0]
    if op == "t":
        return "tuple"
    if op == "o":
        a = v.a
        k = a[0]
        if k in ("in", "ev"):
            return a[2]
        if k == "old" or k == "older":
            return kind(a[1])
        if k == "phi":
            return a[2]
        if k in ("elem", "each"):
            return elem_kind(a[1])
        if k == "cat" or k == "str" or k == "fmt" or k == "type_name":
            return "str"
        if k == "catb" or k in ("u8", "be32", "be", "enc") or k == "tobytes":
            return "bytes" if k != "be" else "int"
        if k == "len" or k == "sum" or k == "int":
            return "int"
        if k == "float":
            return "float"
        if k == "bool" or k == "not":
            return "bool"
        if k == "slice" or k == "repeat":
            return kind(a[1])
        if k == "item":
            kk = kind(a[1])
            if kk == "str":
                return "str"
            if kk == "bytes":
                return "int"
            if kk.startswith("list:"):
                return kk[5:]
            if kk.startswith("map:"):
                return kk[4:]
            if kk.startswith("json"):
                return "json"
            if a[1].op == "o" and a[1].a[0] == "m" and a[1].a[1] in ("split", "rsplit", "partition", "rpartition", "splitlines"):
                return kind(a[1].a[2])
            return "any"
        if k == "m":
            n = a[1]
            if n == "encode":
                return "bytes"
            if n == "decode":
                return "str"
            if n in STR_M:
                rk = kind(a[2])
                return rk if rk in ("str", "bytes") else "str"
            if n in BOOL_M:
                return "bool"
            if n in INT_M:
                return "int"
            if n in LIST_M:
                return "list:" + kind(a[2])
            if n in TUP_M:
                return "list:" + kind(a[2])
            return "any"
        if k == "mget":
            kk = kind(a[1])
            if kk.startswith("json"):
                return "json"
            base = kk[4:] if kk.startswith("map:") else "any"
            return base
            if len(a) > 3:
                d = kind(a[3])
                if d == "NoneType":
                    return base if base == "any" else base + "?"
                return base if d == base else (base if base == "any" and False else base)
            return base if base == "any" else base + "?"
        if k == "call":
            return CALL_KIND.get(a[1].a[0] if a[1].op == "x" else "", "any")
        if k == "num":
            return "num"
        if k == "ap":
            return a[2]
        if k == "L":
            return "list:any"
        if k == "attr" and a[2] in ("status_code",):
            return "int"
        return "any"
    if op == "hstat":
        return "int"
    if op == "enum":
        return "enum"
    return "obj"


CALL_KIND = {
    "urllib.parse.parse_qs": "map:list:str",
    "urllib.parse.urlencode": "str",
    "urllib.parse.quote": "str",
    "urllib.parse.unquote": "str",
    "base64.b64encode": "bytes",
    "base64.urlsafe_b64encode": "bytes",
    "base64.b64decode": "bytes",
    "base64.urlsafe_b64decode": "bytes",
    "json.dumps": "str",
    "time.monotonic": "float",
    "time.perf_counter": "float",
    "gzip.compress": "bytes",
    "gzip.decompress": "bytes",
}


def elem_kind(v):
    k = kind(v)
    if k.startswith("list:"):
        return k[5:]
    if k.startswith("iter:"):
        return k[5:]
    if k == "bytes":
        return "int"
    if k == "str":
        return "str"
    if v.op == "o" and v.a[0] == "items":
        return "tuple"
    if k.startswith("map:"):
        return "str"
    if k.startswith("json"):
        return "json"
    return "any"


def nullable(v):
    if v.op == "c":
        return v.a[1] is None
    if v.op != "o":
        return False
    k = kind(v)
    return k == "any" or k == "json" or k.endswith("?") or k == "NoneType"


# kinds whose truth value is exactly "is not None"
def objectlike(v):
    k = kind(v).rstrip("?")
    return k.startswith("obj") or k == "exc"


# ---------------------------------------------------------------- term constructors
def cat(*parts):
    """Canonical string concatenation."""
    out = []
    for p in parts:
        if p.op == "o" and p.a[0] == "cat":
            seq = p.a[1:]
        else:
            seq = (p,)
        for q in seq:
            if isc(q) and cval(q) == "":
                continue
            if out and isc(q) and isc(out[-1]) and type(cval(q)) is str and type(cval(out[-1])) is str:
                out[-1] = c(cval(out[-1]) + cval(q))
            else:
                out.append(q)
    if not out:
        return EMPTY_STR
    if len(out) == 1:
        return out[0]
    return o("cat", *out)


def catb(*parts):
    out = []
    for p in parts:
        seq = p.a[1:] if (p.op == "o" and p.a[0] == "catb") else (p,)
        for q in seq:
            if isc(q) and type(cval(q)) in (bytes, bytearray) and len(cval(q)) == 0:
                continue
            if out and isc(q) and isc(out[-1]):
                out[-1] = c(bytes(cval(out[-1])) + bytes(cval(q)))
            else:
                out.append(q)
    if not out:
        return EMPTY_BYTES
    if len(out) == 1:
        return out[0]
    return o("catb", *out)


def sum_(terms, const):
    ts = []
    for t in terms:
        if isc(t) and type(cval(t)) in (int, bool):
            const += int(cval(t))
        elif t.op == "o" and t.a[0] == "sum":
            const += t.a[1]
            ts.extend(t.a[2:])
        else:
            ts.append(t)
    if not ts:
        return c(const)
    # cancel x and neg(x)
    res = []
    for t in ts:
        n = t.a[1] if (t.op == "o" and t.a[0] == "neg") else o("neg", t)
        if n in res:
            res.remove(n)
        else:
            res.append(t)
    if not res:
        return c(const)
    res.sort(key=repr)
    if len(res) == 1 and const == 0:
        return res[0]
    return o("sum", const, *res)


def neg(t):
    if isc(t):
        return c(-cval(t))
    if t.op == "o" and t.a[0] == "neg":
        return t.a[1]
    if t.op == "o" and t.a[0] == "sum":
        return sum_([neg(x) for x in t.a[2:]], -t.a[1])
    return o("neg", t)


ZERO = c(0)


def slice_(v, lo, hi):
    """Canonical v[lo:hi] (step 1)."""
    if isc(lo) and cval(lo) is None:
        lo = ZERO
    if isc(v) and isc(lo) and isc(hi):
        return c(cval(v)[cval(lo):cval(hi)])
    if v.op == "t" and isc(lo) and isc(hi):
        return tup(*v.a[cval(lo):cval(hi)])
    if lo is ZERO and isc(hi) and cval(hi) is None:
        return v
    if v.op == "o" and v.a[0] == "slice" and len(v.a) == 4:
        base, l0, h0 = v.a[1:]
        nonneg = (isc(lo) and cval(lo) >= 0 if isc(lo) and cval(lo) is not None else False) and (
            (isc(hi) and (cval(hi) is None or cval(hi) >= 0)))
        if nonneg:
            nl = sum_([l0, lo], 0)
            if cval(hi) is None:
                return slice_(base, nl, h0)
            nh = sum_([l0, hi], 0)
            # inside bounds known constant
            if isc(h0) and cval(h0) is not None and isc(nh) and cval(nh) <= cval(h0):
                return slice_(base, nl, nh)
            if isc(h0) and cval(h0) is None:
                return slice_(base, nl, nh)
    return o("slice", v, lo, hi)


# ---------------------------------------------------------------- stars (zero or more repetitions)
def star(t):
    return mk("star", t)


_perm.update(_table.values())
