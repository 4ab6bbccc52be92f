"""Models of the built-in types, of the library functions the analysed code uses, and of unknown externals."""

from __future__ import annotations

import http

from . import interp as I
from .machine import (
    PENDING, ClassInfo, Fork, Frame, Limit, PyRaise, Pruned, Violation, cinfo, cls_v, real, _real_cache,
)
from .values import vague
from .values import *  # noqa: F403
from .values import (
    V, mk, o, c, b, tup, ext, NONE, TRUE, FALSE, NULL, UNB, isc, cval, kind, cat, catb, sum_, neg, slice_, star,
    nullable, elem_kind, inp, deep, subst, EMPTY_STR, EMPTY_BYTES, ZERO,
)

NATIVES: dict = {}
BUILTINS: dict = {}


def native(*names, builtin=True):
    def d(fn):
        for n in names:
            NATIVES[n] = fn
            if builtin and not n.startswith("_hidden"):
                BUILTINS[n] = mk("nat", n)
        return fn
    return d


def prelude(m, name):
    p = m.modules.get("__prelude__")
    return p.get(name) if p else None


def call_pre(m, s, name, args, tag=("push",)):
    fn = prelude(m, name)
    if fn is None:
        raise Limit(f"prelude function {name} missing")
    return I.call_into(m, s, fn, args, {}, tag)


# ================================================================ snapshots
def snap(m, s, v, depth=0):
    """Content term of v: heap objects are replaced by their current contents."""
    if depth > 12:
        return v
    op = v.op
    if op == "c" or op == "x":
        return v
    if op == "t":
        if all(x.op == "c" for x in v.a):
            return v
        return tup(*[snap(m, s, x, depth + 1) for x in v.a])
    if op == "r":
        ob = s.heap.get(v) or m.base.get(v)
        if ob is None:
            return v
        k = ob.op
        if k == "ba":
            return ob.a[0]
        if k == "list":
            return o("L", *[snap(m, s, x, depth + 1) for x in ob.a])
        if k == "liter":
            return o("L", *[snap(m, s, x, depth + 1) for x in ob.a])
        if k == "oiter":
            return ob.a[0]
        if k == "set":
            return o("St", *[snap(m, s, x, depth + 1) for x in ob.a])
        if k == "dict":
            return o("D", *[snap(m, s, x, depth + 1) for x in ob.a])
        if k == "inst":
            cv = ob.a[0]
            if cv.op == "cls" and m.lookup(cv, "__identity__") is not None:
                return v
            return o("I", cv, ob.a[1], *[snap(m, s, x, depth + 1) for x in ob.a[2:]])
        return v
    if op in ("star", "kv", "kvs", "kvp"):
        return mk(op, *[snap(m, s, x, depth + 1) for x in v.a])
    if op == "o" and v.a[0] in ("L", "D", "St", "I", "cat", "catb", "m", "call", "content"):
        ch = False
        out = []
        for x in v.a:
            if type(x) is V:
                y = snap(m, s, x, depth + 1)
                ch = ch or y is not x
                out.append(y)
            else:
                out.append(x)
        return mk("o", *out) if ch else v
    return v


def as_value(m, s, v):
    if v.op == "r":
        ob = m.get(s, v)
        if ob.op == "ba":
            return ob.a[0]
    return v


# ================================================================ names of externals
REAL_VALUE_MODULES = ("http.HTTPStatus.", "socket.", "string.")
TRUE_NAMES = {"typing.TYPE_CHECKING": FALSE, "typing_extensions.TYPE_CHECKING": FALSE}


def ext_name(m, dotted):
    r = TRUE_NAMES.get(dotted)
    if r is not None:
        return r
    p = m.modules.get("__prelude__")
    if p is not None:
        k = "x_" + dotted.replace(".", "_")
        if k in p:
            return p[k]
        if dotted.startswith("builtins.") and ("builtin_" + dotted[9:]) in p:
            return p["builtin_" + dotted[9:]]
    if dotted in m.modmap and dotted not in ("__prelude__",):
        return m.import_module(dotted)
    if dotted == "sys.version_info":
        return tup(c(3), c(12), c(3), c("final"), c(0))
    if dotted in ("sys.version",):
        return c("3.12")
    if dotted == "sys.maxsize":
        return c(2**63 - 1)
    if dotted.startswith("builtins."):
        n = dotted[9:]
        if n in BUILTINS:
            return BUILTINS[n]
    x = real(dotted)
    if type(x) in (int, str, float, bool, bytes):
        return c(x)
    if isinstance(x, http.HTTPStatus):
        return c(x)
    return ext(dotted)


# ================================================================ enums
def make_enum(m, s, clsv, ci):
    members = []
    for n, v in list(ci.ns.items()):
        if n.startswith("_") and n.endswith("_"):
            continue
        if n.startswith("__") or v.op in ("fn", "prop", "smeth", "cmeth", "cprop", "nat", "bm", "cls"):
            continue
        if v.op == "typing":
            continue
        if v.op == "o" and v.a[0] == "call" and v.a[1].op == "x" and v.a[1].a[0] == "enum.auto":
            v = c(len(members) + 1)
        mv = mk("enum", clsv, n, v)
        for old in members:
            if old.a[2] is v:
                mv = old
        if mv.a[1] == n:
            members.append(mv)
        ci.ns[n] = mv
    base = set()
    for b_ in m.mro(clsv):
        if b_.op == "x":
            base.add(b_.a[0])
    if base & {"enum.IntEnum", "enum.StrEnum", "builtins.str", "builtins.int"}:
        ci.enum_plain = True
    else:
        ci.enum_plain = False
    ci.enum = members


def enum_lookup(m, s, clsv, v):
    ci = cinfo(clsv)
    if v.op == "enum" and v.a[0] is clsv:
        return v
    for e in ci.enum:
        if e.a[2] is v or (isc(e.a[2]) and isc(v) and cval(e.a[2]) == cval(v)):
            return e
    if isc(v) or v.op in ("t", "enum", "r"):
        m.raise_ext(s, "builtins.ValueError", c(f"not a valid {ci.name}"))
    # unknown value: case split over the members
    poss = [e for e in ci.enum if m.known(s, _eqatom(v, e.a[2])) is not False]
    for e in poss:
        if m.known(s, _eqatom(v, e.a[2])) is True:
            return e
    k = m.choice(s, len(poss) + 1)
    if k == len(poss):
        for e in poss:
            m.setfact(s, _eqatom(v, e.a[2]), False)
        m.note(s, f"{v!r} is not a {ci.name} value")
        m.raise_ext(s, "builtins.ValueError", cat(v, c(f" is not a valid {ci.name}")))
    m.setfact(s, _eqatom(v, poss[k].a[2]), True)
    m.note(s, f"{v!r} == {poss[k].a[2]!r}")
    return poss[k]


def _eqatom(x, y):
    if repr(y) < repr(x) or (isc(x) and not isc(y)):
        x, y = y, x
    return mk("eq", x, y)


# ================================================================ dataclasses
def _is_classvar(a):
    if isc(a) and isinstance(cval(a), str):
        return cval(a).startswith(("ClassVar", "typing.ClassVar"))
    return a.op == "x" and a.a[0].endswith("ClassVar")


def make_dataclass(m, s, clsv, kw):
    ci = cinfo(clsv)
    fields = []
    for b_ in reversed(m.mro(clsv)[1:]):
        if b_.op == "cls" and cinfo(b_).dc is not None:
            for f in cinfo(b_).dc:
                fields = [g for g in fields if g[0] != f[0]] + [f]
    for n, a in ci.ann:
        if _is_classvar(a):
            continue
        d = ci.ns.get(n)
        fac = None
        init = True
        if d is not None and d.op == "dcfield":
            fac = d.a[1] if d.a[1] is not NULL else None
            init = d.a[2]
            d = d.a[0] if d.a[0] is not NULL else None
            if d is None:
                ci.ns.pop(n, None)
            else:
                ci.ns[n] = d
        fields = [g for g in fields if g[0] != n] + [(n, d, fac, init)]
    ci.dc = fields
    ci.dc_frozen = kw.get("frozen") is TRUE
    return clsv


def dc_new(m, s, clsv, args, kw, tag):
    ci = cinfo(clsv)
    init = m.lookup(clsv, "__init__")
    if init is not None:
        ref = m.new_inst(s, clsv, ())
        r = I.call_into(m, s, init, [ref] + list(args), kw, ("init", ref))
        return PENDING if r is PENDING else ref
    vals = {}
    names = [f[0] for f in ci.dc if f[3]]
    if len(args) > len(names):
        m.raise_ext(s, "builtins.TypeError", c(f"{ci.name}() too many arguments"))
    for n, a in zip(names, args):
        vals[n] = a
    for k, v in kw.items():
        if k not in names:
            m.raise_ext(s, "builtins.TypeError", c(f"{ci.name}() unexpected keyword {k}"))
        vals[k] = v
    pend = []
    for n, d, fac, _i in ci.dc:
        if n not in vals:
            if fac is not None:
                r = I.call_into(m, s, fac, [], {})
                if r is PENDING:
                    s.frames.pop()
                    r = o("new", fac)
                vals[n] = r
            elif d is not None:
                vals[n] = d
            else:
                m.raise_ext(s, "builtins.TypeError", c(f"{ci.name}() missing argument {n}"))
    fields = [(n, vals[n]) for n, *_ in ci.dc]
    if m.is_exc_class(clsv):
        fields.append(("args", tup(*args)))
    f = s.frames[-1]
    ref = m.new_inst(s, clsv, fields, site=f"{ci.mod}.{ci.qual}@{f.code.key}:{f.pc}")
    pi = m.lookup(clsv, "__post_init__")
    if pi is not None:
        I.call_into(m, s, pi, [ref], {}, ("init", ref))
        return PENDING
    return ref


# ================================================================ dict / list primitives
def dict_set(d, k, v):
    out = []
    done = False
    for e in d.a:
        if e.op == "kv" and (e.a[0] is k or (isc(e.a[0]) and isc(k) and cval(e.a[0]) == cval(k))):
            out.append(mk("kv", e.a[0], v))
            done = True
        else:
            out.append(e)
    if not done:
        out.append(mk("kv", k, v))
    return mk("dict", *out)


def dict_update(m, s, d, v):
    if v.op == "dict":
        src = v
    elif v.op == "r":
        ob = m.get(s, v)
        if ob.op == "dict":
            src = ob
        elif ob.op == "list" or ob.op == "liter":
            src = mk("dict")
            for e in ob.a:
                if e.op == "t" and len(e.a) == 2:
                    src = dict_set(src, e.a[0], e.a[1])
                elif e.op == "star" and e.a[0].op == "t":
                    src = mk("dict", *src.a, mk("kvs", e.a[0].a[0], e.a[0].a[1]))
                else:
                    src = mk("dict", *src.a, mk("kvs", o("item", e, ZERO), o("item", e, c(1))))
        else:
            src = mk("dict", mk("all", snap(m, s, v)))
    elif v.op == "t":
        src = mk("dict")
        for e in v.a:
            x = unpack(m, s, e, 2)
            src = dict_set(src, x[0], x[1])
    else:
        src = mk("dict", mk("all", v))
    for e in src.a:
        if e.op == "kv":
            d = dict_set(d, e.a[0], e.a[1])
        elif e not in d.a:
            d = mk("dict", *d.a, e)
    return d


def defkey(v):
    return isc(v) or v.op in ("enum", "cls", "fn", "x") or (v.op == "t" and all(defkey(x) for x in v.a))


def dict_find(m, s, ob, k):
    """-> value or None when absent (may fork)."""
    if isc(k) and isinstance(cval(k), (list, dict)):
        m.raise_ext(s, "builtins.TypeError", c("unhashable"))
    k = as_value(m, s, k)
    if k.op == "r" and m.get(s, k).op in ("list", "dict", "set"):
        m.raise_ext(s, "builtins.TypeError", c("unhashable type"))
    ents = ob.a
    for e in ents:
        if e.op == "kv" and e.a[0] is k:
            return e.a[1]
    if defkey(k) and all(e.op == "kv" and defkey(e.a[0]) for e in ents):
        for e in ents:
            if isc(k) and isc(e.a[0]) and cval(k) == cval(e.a[0]):
                return e.a[1]
        return None
    # unknown key: one n-way split over the constant keys (mutually exclusive), then the rest
    consts = [e for e in ents if e.op == "kv" and defkey(e.a[0])]
    if not defkey(k) and len(consts) > 1 and len(consts) == len(ents) and k.op == "o" and not (k.a[0] == "cat" and (isc(k.a[1]) or isc(k.a[-1]))):
        poss = []
        for e in consts:
            r = m.known(s, _eqatom(k, e.a[0]))
            if r is True:
                return e.a[1]
            if r is None and not _kind_clash(k, e.a[0]):
                poss.append(e)
        if not poss:
            return None
        j = m.choice(s, len(poss) + 1)
        if j == len(poss):
            for e in poss:
                m.setfact(s, _eqatom(k, e.a[0]), False)
            m.note(s, f"{k!r} is none of {[e.a[0] for e in poss]!r}")
            return None
        m.setfact(s, _eqatom(k, poss[j].a[0]), True)
        m.note(s, f"{k!r} == {poss[j].a[0]!r}")
        return poss[j].a[1]
    for e in reversed(ents):
        if e.op == "kv":
            if m.eq(s, k, e.a[0]):
                return e.a[1]
        elif e.op == "kvs":
            if m.decide(s, mk("in", k, e)):
                return o("mget", e.a[1], k) if True else None
        elif e.op == "all":
            if m.decide(s, mk("in", k, e.a[0])):
                return o("mget", e.a[0], k)
    return None


def _kind_clash(x, y):
    kx, ky = kind(x).rstrip("?"), kind(y)
    if kx in ("str", "bytes", "int") and ky in ("str", "bytes", "int", "float", "enum", "NoneType"):
        return kx != ky
    return False


def list_append(ob, v):
    return mk("list", *ob.a, v)


def as_segments(m, s, v):
    """Elements of v as a list of segments (star = zero or more), or None when it must be iterated by code."""
    op = v.op
    if op == "t":
        return list(v.a)
    if op == "fset":
        return list(v.a)
    if isc(v):
        x = cval(v)
        if isinstance(x, str):
            return [c(ch) for ch in x]
        if isinstance(x, (bytes, bytearray)):
            return [c(i) for i in x]
        m.raise_ext(s, "builtins.TypeError", c("object is not iterable"))
    if op == "rng":
        return [c(i) for i in range(*[cval(x) for x in v.a])]
    if op == "dview":
        ob = m.get(s, v.a[0])
        out = []
        for e in ob.a:
            if e.op == "kv":
                x = {"k": e.a[0], "v": e.a[1], "i": tup(e.a[0], e.a[1])}[v.a[1]]
                out.append(x)
            elif e.op == "kvs":
                out.append(star({"k": e.a[0], "v": e.a[1], "i": tup(e.a[0], e.a[1])}[v.a[1]]))
            else:
                src = e.a[0]
                ek = o("each", src)
                out.append(star({"k": ek, "v": o("mget", src, ek), "i": tup(ek, o("mget", src, ek))}[v.a[1]]))
        return out
    if op == "r":
        ob = m.get(s, v)
        k = ob.op
        if k in ("list", "set"):
            return list(ob.a)
        if k == "liter":
            m.put(s, v, mk("liter"))
            return list(ob.a)
        if k == "oiter":
            return [star(o("each", ob.a[0]))]
        if k == "dict":
            return as_segments(m, s, mk("dview", v, "k"))
        if k == "ba":
            return as_segments(m, s, ob.a[0])
        if k == "inst" and ob.a[0].op == "cls" and getattr(cinfo(ob.a[0]), "nt", False):
            return [m.field(ob, f[0]) for f in cinfo(ob.a[0]).dc]
        return None
    if op == "cls" and cinfo(v).enum is not None:
        return list(cinfo(v).enum)
    if op == "o":
        if v.a[0] in ("L", "tuple_of"):
            return list(v.a[1:]) if v.a[0] == "L" else list(v.a[1].a)
        if v is NONE:
            m.raise_ext(s, "builtins.TypeError", c("NoneType not iterable"))
        kk = kind(v)
        if kk in ("int", "float", "bool", "NoneType"):
            m.raise_ext(s, "builtins.TypeError", c("object is not iterable"))
        return [star(o("each", v))]
    if op == "x":
        return [star(o("each", v))]
    m.raise_ext(s, "builtins.TypeError", c("object is not iterable"))


def get_iter(m, s, v):
    if v.op == "r":
        ob = m.get(s, v)
        if ob.op in ("gen", "liter", "oiter"):
            if ob.op == "gen" and ob.a[0] != "gen":
                m.raise_ext(s, "builtins.TypeError", c(f"'{ob.a[0]}' object is not iterable"))
            return v
        if ob.op == "inst":
            if ob.a[0].op == "cls" and getattr(cinfo(ob.a[0]), "nt", False):
                return m.alloc(s, mk("liter", *as_segments(m, s, v)))
            if ob.a[0].op == "cls" and m.lookup(ob.a[0], "__next__") is not None:
                return v
            m.raise_ext(s, "builtins.TypeError", c(f"'{ob.a[0]!r}' object is not iterable"))
    if v.op == "o" and v.a[0] not in ("L", "tuple_of"):
        if kind(v).rstrip("?") in ("int", "float", "bool", "NoneType"):
            m.raise_ext(s, "builtins.TypeError", c("object is not iterable"))
        if nullable(v) and kind(v) != "any" and m.is_none(s, v):
            m.raise_ext(s, "builtins.TypeError", c("NoneType is not iterable"))
        if kind(v) == "json":
            if not m.decide(s, mk("iterable", v)):
                m.raise_ext(s, "builtins.TypeError", c("object is not iterable"))
        return m.alloc(s, mk("oiter", v))
    segs = as_segments(m, s, v)
    if v.op == "r" and m.get(s, v).op == "list":
        # live iteration over a list object
        return m.alloc(s, mk("liter", *segs))
    return m.alloc(s, mk("liter", *segs))


def iter_next(m, s, it):
    ob = m.get(s, it)
    if ob.op == "oiter":
        src = ob.a[0]
        # a non-empty source gives at least one element: approximated (each step may end)
        if m.choice(s, 2) == 0:
            return I.STOP
        e = o("elem", src)
        m.fresh(s, e)
        return e
    if ob.op == "liter":
        segs = ob.a
        if not segs:
            return I.STOP
        h = segs[0]
        if h.op != "star":
            m.put(s, it, mk("liter", *segs[1:]))
            return h
        if m.choice(s, 2) == 0:
            m.put(s, it, mk("liter", *segs[1:]))
            return iter_next(m, s, it)
        t = h.a[0]
        mp = {}
        for x in deep(t):
            if x.op == "o" and x.a[0] == "each":
                e = o("elem", x.a[1])
                mp[x] = e
        for e in mp.values():
            m.fresh(s, e)
        return subst(t, mp, {}) if mp else t
    raise Limit(f"iteration over {ob.op} at {m.where(s)}")


def opaque_anext(m, s, g):
    if g.op != "o":
        m.raise_ext(s, "builtins.TypeError", c("'async for' requires an async iterator"))
    if m.choice(s, 2) == 0:
        return I.STOP
    e = o("elem", g)
    m.fresh(s, e)
    return e


def opaque_await(m, s, v):
    if v.op in ("c", "t", "enum", "cls"):
        m.raise_ext(s, "builtins.TypeError", c("object can't be used in 'await' expression"))
    return o("await", v)


def unpack(m, s, v, n):
    if v.op == "t":
        if len(v.a) != n:
            m.raise_ext(s, "builtins.ValueError", c("unpack size mismatch"))
        return list(v.a)
    if v.op == "r":
        ob = m.get(s, v)
        if ob.op == "gen" or (ob.op == "inst" and not getattr(cinfo(ob.a[0]) if ob.a[0].op == "cls" else None, "nt", False)):
            raise Limit(f"unpacking of {ob.op} at {m.where(s)}")
    segs = as_segments(m, s, v)
    if not any(x.op == "star" for x in segs):
        if len(segs) != n:
            m.raise_ext(s, "builtins.ValueError", c("unpack size mismatch"))
        return segs
    src = snap(m, s, v)
    # opaque sequence: its length may differ
    if src.op == "o" and src.a[0] == "m" and src.a[1] in ("partition", "rpartition") and n == 3:
        return [o("item", src, c(i)) for i in range(n)]
    known_len = kind(src) in ("tuple",) or (src.op == "o" and src.a[0] in ("elem", "each", "old") and kind(src) in ("any", "tuple"))
    if not known_len:
        if not m.decide(s, mk("haslen", src, c(n))):
            m.raise_ext(s, "builtins.ValueError", c("unpack size mismatch"))
    return [o("item", src, c(i)) for i in range(n)]


# ================================================================ indexing
def getitem(m, s, v, k):
    op = v.op
    if k.op == "slc":
        if k.a[2] is not NONE and k.a[2] is not c(1):
            if isc(v) and all(isc(x) for x in k.a):
                return c(cval(v)[slice(*[cval(x) for x in k.a])])
            segs = as_segments(m, s, v) if op in ("t", "r") else None
            if segs is not None and not any(x.op == "star" for x in segs) and all(isc(x) for x in k.a):
                r = segs[slice(*[cval(x) for x in k.a])]
                return tup(*r) if op == "t" else m.alloc(s, mk("list", *r))
            return o("item", snap(m, s, v), k)
        return getslice(m, s, v, k.a[0], k.a[1])
    if op == "c":
        if isc(k):
            try:
                return c(cval(v)[cval(k)])
            except Exception as e:
                m.raise_ext(s, "builtins." + type(e).__name__, c(str(e)))
        if v is NONE:
            m.raise_ext(s, "builtins.TypeError", c("'NoneType' object is not subscriptable"))
        return o("item", v, k)
    if op == "t":
        if isc(k):
            try:
                return v.a[cval(k)]
            except IndexError:
                m.raise_ext(s, "builtins.IndexError", c("tuple index out of range"))
            except TypeError:
                m.raise_ext(s, "builtins.TypeError", c("tuple indices"))
        return o("item", v, k)
    if op == "x":
        return v
    if op in ("typing", "union", "fn", "nat"):
        return v
    if op == "cls":
        if cinfo(v).enum is not None:
            r = cinfo(v).ns.get(cval(k)) if isc(k) else None
            if r is None:
                m.raise_ext(s, "builtins.KeyError", k)
            return r
        return v
    if op == "r":
        ob = m.get(s, v)
        if ob.op == "dict":
            r = dict_find(m, s, ob, k)
            if r is None:
                if k.op == "r":
                    k = snap(m, s, k)
                m.raise_ext(s, "builtins.KeyError", k)
            return r
        if ob.op == "ba":
            return byte_item(m, s, ob.a[0], k)
        if ob.op == "list":
            if isc(k) and isinstance(cval(k), int):
                i = cval(k)
                pre = []
                segs = ob.a if i >= 0 else tuple(reversed(ob.a))
                n = i if i >= 0 else -i - 1
                for x in segs:
                    if x.op == "star":
                        break
                    pre.append(x)
                if n < len(pre):
                    return pre[n]
                if len(pre) == len(ob.a):
                    m.raise_ext(s, "builtins.IndexError", c("list index out of range"))
                if not m.decide(s, mk("haslen>", o("content", ob), c(n))):
                    m.raise_ext(s, "builtins.IndexError", c("list index out of range"))
            return o("item", snap(m, s, v), k)
        if ob.op == "inst" and ob.a[0].op == "cls" and getattr(cinfo(ob.a[0]), "nt", False):
            return getitem(m, s, tup(*as_segments(m, s, v)), k)
        m.raise_ext(s, "builtins.TypeError", c(f"'{ob.op}' object is not subscriptable"))
    if op == "o":
        kk = kind(v)
        if kk.startswith("map:") or v.a[0] in ("mget",) and kk == "any" and False:
            if not m.decide(s, mk("in", k, v)):
                m.raise_ext(s, "builtins.KeyError", k)
            return o("mget", v, k)
        if kk == "bytes":
            return byte_item(m, s, v, k)
        if kk == "json" or kk == "json?":
            if isc(k) and isinstance(cval(k), str):
                if not m.decide(s, mk("isa", v, ext("builtins.dict"))):
                    m.raise_ext(s, "builtins.TypeError", c("not a mapping"))
                if not m.decide(s, mk("in", k, v)):
                    m.raise_ext(s, "builtins.KeyError", k)
                return o("mget", v, k)
            if not m.decide(s, mk("indexable", v, k)):
                m.raise_ext(s, "builtins.IndexError", k)
            return o("item", v, k)
        if nullable(v) and kk != "any" and m.is_none(s, v):
            m.raise_ext(s, "builtins.TypeError", c("'NoneType' object is not subscriptable"))
        if v.a[0] in ("L", "tuple_of") and isc(k):
            segs = as_segments(m, s, v)
            if not any(x.op == "star" for x in segs):
                try:
                    return segs[cval(k)]
                except IndexError:
                    m.raise_ext(s, "builtins.IndexError", c("index out of range"))
        if v.a[0] == "D":
            r = dict_find(m, s, mk("dict", *v.a[1:]), k)
            if r is None:
                m.raise_ext(s, "builtins.KeyError", k)
            return r
        return o("item", v, k)
    raise Limit(f"subscript of {v!r} at {m.where(s)}")


def byte_item(m, s, v, k):
    if v.op == "o" and v.a[0] == "catb" and isc(k) and isinstance(cval(k), int) and cval(k) >= 0:
        off = 0
        for p in v.a[1:]:
            n = blen(p)
            if n is None:
                break
            if cval(k) < off + n:
                if isc(p):
                    return c(cval(p)[cval(k) - off])
                if p.a[0] == "u8":
                    return p.a[1]
                break
            off += n
    if isc(v) and isc(k):
        try:
            return c(cval(v)[cval(k)])
        except IndexError:
            m.raise_ext(s, "builtins.IndexError", c("index out of range"))
    return o("item", v, k)


def blen(p):
    if isc(p):
        return len(cval(p))
    if p.op == "o" and p.a[0] == "u8":
        return 1
    if p.op == "o" and p.a[0] == "be32":
        return 4
    return None


def getslice(m, s, v, lo, hi):
    op = v.op
    if op == "r":
        ob = m.get(s, v)
        if ob.op == "ba":
            return m.alloc(s, mk("ba", bslice(m, s, ob.a[0], lo, hi)))
        if ob.op == "list":
            segs = ob.a
            if (isc(lo) and isc(hi)) and not any(x.op == "star" for x in segs):
                return m.alloc(s, mk("list", *segs[cval(lo):cval(hi)]))
            if isc(lo) and hi is NONE and (cval(lo) or 0) >= 0 and not any(x.op == "star" for x in segs[: cval(lo) or 0]):
                return m.alloc(s, mk("list", *segs[cval(lo) or 0:]))
            return m.alloc(s, mk("list", star(o("each", o("slice", o("content", ob), lo, hi)))))
    if op == "t" and not (isc(lo) and isc(hi)):
        return o("slice", v, lo, hi)
    if op == "x":
        return o("slice", v, lo, hi)
    if kind(v) == "bytes":
        return bslice(m, s, v, lo, hi)
    if kind(v) == "str" and isc(lo) and hi is NONE and v.op == "o" and v.a[0] == "cat" and isc(v.a[1]):
        n = cval(lo) or 0
        h = cval(v.a[1])
        if 0 <= n <= len(h):
            return cat(c(h[n:]), *v.a[2:])
    return slice_(v, lo, hi)


def lenterm(p):
    l = blen(p)
    return c(l) if l is not None else o("len", p)


def known_nonneg(t):
    if isc(t):
        return cval(t) >= 0
    if t.op != "o":
        return False
    if t.a[0] == "len":
        return True
    return t.a[0] == "sum" and t.a[1] >= 0 and all(x.op == "o" and x.a[0] == "len" for x in t.a[2:])


def bslice(m, s, v, lo, hi):
    if lo is NONE:
        lo = ZERO
    if v.op == "o" and v.a[0] != "catb" and lo is lenterm(v) and hi is NONE:
        return EMPTY_BYTES
    if v.op == "o" and v.a[0] == "catb" and not isc(lo):
        # drop whole leading parts that a symbolic offset provably covers
        parts = list(v.a[1:])
        l, h = lo, hi
        while parts and not (isc(l) and cval(l) == 0):
            lt = lenterm(parts[0])
            d = sum_([l, neg(lt)], 0)
            if not known_nonneg(d):
                break
            parts.pop(0)
            l = d
            h = h if h is NONE else sum_([h, neg(lt)], 0)
        if not parts:
            return EMPTY_BYTES
        if isc(l) and (h is NONE or known_nonneg(h)):
            return bslice(m, s, catb(*parts), l, h)
    if v.op == "o" and v.a[0] == "catb" and isc(lo) and cval(lo) >= 0:
        parts = list(v.a[1:])
        n = cval(lo)
        # drop whole leading parts of known length
        while parts and n > 0:
            l = blen(parts[0])
            if l is None:
                break
            if l <= n:
                n -= l
                parts.pop(0)
                hi = hi if hi is NONE else sum_([hi, c(-l)], 0)
            elif isc(parts[0]):
                parts[0] = c(cval(parts[0])[n:])
                hi = hi if hi is NONE else sum_([hi, c(-n)], 0)
                n = 0
            else:
                break
        if n == 0:
            if hi is NONE:
                return catb(*parts)
            # take leading parts of known length
            out = []
            rest = parts
            h = hi
            while rest:
                if isc(h) and cval(h) == 0:
                    return catb(*out)
                l = blen(rest[0])
                lt = c(l) if l is not None else o("len", rest[0])
                if isc(h) and l is not None:
                    if cval(h) >= l:
                        out.append(rest[0])
                        h = c(cval(h) - l)
                        rest = rest[1:]
                        continue
                    if isc(rest[0]):
                        out.append(c(cval(rest[0])[: cval(h)]))
                        return catb(*out)
                if h is lt:
                    out.append(rest[0])
                    return catb(*out)
                d = sum_([h, neg(lt)], 0)
                if isc(d) and cval(d) == 0:
                    out.append(rest[0])
                    return catb(*out)
                if not isc(h) and known_nonneg(d):
                    out.append(rest[0])
                    h = d
                    rest = rest[1:]
                    continue
                break
            return catb(*out, slice_(catb(*rest), ZERO, h)) if rest else catb(*out)
        return slice_(catb(*parts), c(n), hi)
    return slice_(v, lo, hi)


def setitem(m, s, v, k, val):
    if v.op == "r":
        ob = m.get(s, v)
        if ob.op == "dict":
            h = m.hooks.get("setitem")
            if h:
                h(m, s, v, k, val)
            if k.op == "r" and m.get(s, k).op == "ba":
                m.raise_ext(s, "builtins.TypeError", c("unhashable"))
            nd = dict_set(ob, k, val)
            m.put(s, v, nd)
            return
        if ob.op == "list":
            h = m.hooks.get("setitem")
            if h:
                h(m, s, v, k, val)
            if isc(k) and isinstance(cval(k), int) and not any(x.op == "star" for x in ob.a):
                segs = list(ob.a)
                try:
                    segs[cval(k)] = val
                except IndexError:
                    m.raise_ext(s, "builtins.IndexError", c("assignment index"))
                m.put(s, v, mk("list", *segs))
                return
            m.put(s, v, mk("list", *[x if x.op == "star" else star(x) for x in ob.a], star(val)))
            return
        if ob.op == "ba":
            m.put(s, v, mk("ba", o("setbyte", ob.a[0], k, val)))
            return
        raise Limit(f"item assignment on {ob.op} at {m.where(s)}")
    if v.op in ("o", "x"):
        h = m.hooks.get("setitem")
        if h:
            h(m, s, v, k, val)
        return
    m.raise_ext(s, "builtins.TypeError", c("object does not support item assignment"))


def delitem(m, s, v, k):
    if v.op == "r":
        ob = m.get(s, v)
        if ob.op == "dict":
            h = m.hooks.get("setitem")
            if h:
                h(m, s, v, k, None)
            r = dict_find(m, s, ob, k)
            if r is None:
                m.raise_ext(s, "builtins.KeyError", k)
            m.put(s, v, dict_del(m, s, ob, k))
            return
        if ob.op == "ba":
            if k.op == "slc" and (k.a[0] is NONE or k.a[0] is ZERO) and k.a[2] is NONE:
                m.put(s, v, mk("ba", bslice(m, s, ob.a[0], k.a[1], NONE)))
                return
            m.put(s, v, mk("ba", o("delslice", ob.a[0], k)))
            return
        if ob.op == "list":
            if isc(k) and not any(x.op == "star" for x in ob.a):
                segs = list(ob.a)
                try:
                    del segs[cval(k)]
                except IndexError:
                    m.raise_ext(s, "builtins.IndexError", c("list index"))
                m.put(s, v, mk("list", *segs))
                return
            if k.op == "slc" and k.a[0] is NONE and k.a[1] is NONE:
                m.put(s, v, mk("list"))
                return
            m.put(s, v, mk("list", *[x if x.op == "star" else star(x) for x in ob.a]))
            return
    if v.op in ("o", "x"):
        return
    raise Limit(f"del item of {v!r} at {m.where(s)}")


def dict_del(m, s, ob, k):
    out = []
    for e in ob.a:
        if e.op == "kv":
            if e.a[0] is k or (isc(k) and isc(e.a[0]) and cval(k) == cval(e.a[0])):
                continue
            if not (defkey(k) and defkey(e.a[0])) and m.known(s, _eqatom(k, e.a[0])) is True:
                continue
        out.append(e)
    return mk("dict", *out)


def contains(m, s, cont, x):
    x = as_value(m, s, x)
    op = cont.op
    if op == "c":
        cv = cval(cont)
        if cv is None:
            m.raise_ext(s, "builtins.TypeError", c("argument of type 'NoneType' is not iterable"))
        if isc(x):
            try:
                return cval(x) in cv
            except TypeError as e:
                m.raise_ext(s, "builtins.TypeError", c(str(e)))
        return m.decide(s, mk("in", x, cont))
    if op in ("t", "fset"):
        for y in cont.a:
            if m.eq(s, x, y):
                return True
        return False
    if op == "dview":
        if cont.a[1] == "k":
            return contains(m, s, cont.a[0], x)
        for y in as_segments(m, s, cont):
            if y.op == "star":
                if m.decide(s, mk("in", x, y)):
                    return True
            elif m.eq(s, x, y):
                return True
        return False
    if op == "r":
        ob = m.get(s, cont)
        if ob.op == "dict":
            return dict_find(m, s, ob, x) is not None
        if ob.op in ("list", "set", "liter"):
            for y in ob.a:
                if y.op == "star":
                    if m.decide(s, mk("in", snap(m, s, x), y)):
                        return True
                elif m.eq(s, x, y):
                    return True
            return False
        if ob.op == "ba":
            return contains(m, s, ob.a[0], x)
        if ob.op == "inst":
            m.raise_ext(s, "builtins.TypeError", c("argument is not iterable"))
    if op == "cls" and cinfo(cont).enum is not None:
        if x.op == "enum":
            return x.a[0] is cont
        for e in cinfo(cont).enum:
            if m.eq(s, x, e.a[2]):
                return True
        return False
    if op == "rng":
        return m.eq(s, x, x) and any(m.eq(s, x, y) for y in as_segments(m, s, cont))
    if op == "o" and cont.a[0] in ("L", "D"):
        segs = as_segments(m, s, cont) if cont.a[0] == "L" else None
        if segs is None:
            return dict_find(m, s, mk("dict", *cont.a[1:]), x) is not None
        return any(m.eq(s, x, y) for y in segs)
    if op == "o" and kind(cont).rstrip("?") in ("str",) and isc(x) and cont.a[0] == "cat":
        if any(isc(p) and cval(x) in cval(p) for p in cont.a[1:]):
            return True
    if op == "o" and nullable(cont) and kind(cont) != "any" and m.is_none(s, cont):
        m.raise_ext(s, "builtins.TypeError", c("argument of type 'NoneType' is not iterable"))
    return m.decide(s, mk("in", snap(m, s, x), snap(m, s, cont)))


def length(m, s, v):
    op = v.op
    if op == "c":
        try:
            return c(len(cval(v)))
        except TypeError as e:
            m.raise_ext(s, "builtins.TypeError", c(str(e)))
    if op in ("t", "fset"):
        return c(len(v.a))
    if op == "r":
        ob = m.get(s, v)
        if ob.op == "ba":
            return blength(ob.a[0])
        if ob.op in ("list", "dict", "set"):
            if any(x.op in ("star", "kvs", "all") for x in ob.a):
                return o("len", o("content", ob))
            return c(len(ob.a))
        m.raise_ext(s, "builtins.TypeError", c(f"object of type {ob.op} has no len()"))
    if op == "dview":
        return length(m, s, v.a[0])
    if op == "rng":
        return c(len(as_segments(m, s, v)))
    if op == "cls" and cinfo(v).enum is not None:
        return c(len(cinfo(v).enum))
    if op == "o":
        if kind(v) == "bytes":
            return blength(v)
        if v.a[0] == "L" and not any(x.op == "star" for x in v.a[1:]):
            return c(len(v.a) - 1)
        if nullable(v) and kind(v) != "any" and m.is_none(s, v):
            m.raise_ext(s, "builtins.TypeError", c("object of type 'NoneType' has no len()"))
        return o("len", v)
    m.raise_ext(s, "builtins.TypeError", c("object has no len()"))


def blength(v):
    if isc(v):
        return c(len(cval(v)))
    if v.op == "o" and v.a[0] == "catb":
        k = 0
        ts = []
        for p in v.a[1:]:
            n = blen(p)
            if n is None:
                ts.append(blength(p))
            else:
                k += n
        return sum_(ts, k)
    n = blen(v)
    if n is not None:
        return c(n)
    return o("len", v)


# ================================================================ text
def str_(m, s, v):
    """str(v); PENDING when a __str__ frame was pushed (tag push)."""
    op = v.op
    if op == "c":
        return c(str(cval(v)))
    if op == "enum":
        if getattr(cinfo(v.a[0]), "enum_plain", False):
            return str_(m, s, v.a[2])
        return c(f"{cinfo(v.a[0]).name}.{v.a[1]}")
    if op == "r":
        ob = m.get(s, v)
        if ob.op == "inst":
            cv = ob.a[0]
            if cv.op == "cls":
                f = m.lookup(cv, "__str__")
                if f is not None:
                    return I.call_into(m, s, f, [v], {})
            if m.is_exc_class(cv):
                args = m.field(ob, "args")
                if args is not None and args.op == "t":
                    if len(args.a) == 0:
                        return EMPTY_STR
                    if len(args.a) == 1:
                        if cv.op == "x" and cv.a[0] == "builtins.KeyError":
                            return o("repr", snap(m, s, args.a[0]))
                        return str_(m, s, args.a[0])
                return o("str", snap(m, s, v))
            if cv.op == "cls":
                f = m.lookup(cv, "__repr__")
                if f is not None:
                    return I.call_into(m, s, f, [v], {})
        return o("str", snap(m, s, v))
    if op == "o":
        k = kind(v)
        if k == "str":
            return v
        return o("str", v)
    return o("str", snap(m, s, v))


def repr_(m, s, v):
    if isc(v):
        return c(repr(cval(v)))
    return o("repr", snap(m, s, v))


def percent(m, s, x, y):
    if isc(x) and isc(y):
        return c(cval(x) % cval(y))
    args = list(y.a) if y.op == "t" else [y]
    if isc(x):
        parts = cval(x).split("%s")
        if len(parts) == len(args) + 1 and "%" not in "".join(parts):
            out = [c(parts[0])]
            for a, p in zip(args, parts[1:]):
                sv = str_(m, s, a)
                if sv is PENDING:
                    s.frames.pop()
                    sv = o("str", snap(m, s, a))
                out += [sv, c(p)]
            return cat(*out)
    return o("fmt", x, tup(*[snap(m, s, a) for a in args]))


# ================================================================ attributes of non-instances
LIST_METHODS = {"append", "extend", "pop", "insert", "remove", "clear", "index", "count", "copy", "reverse", "sort", "popleft", "appendleft"}
DICT_METHODS = {"get", "items", "keys", "values", "setdefault", "pop", "update", "clear", "copy", "popitem", "fromkeys"}
SET_METHODS = {"add", "discard", "remove", "update", "copy", "clear", "union", "issubset", "pop", "intersection", "difference"}
BA_METHODS = {"extend", "append", "clear", "decode", "find", "split", "startswith", "endswith", "strip", "hex", "rstrip", "lstrip", "partition", "join", "copy", "index", "count", "rpartition", "replace"}
GEN_METHODS = {"send", "throw", "close", "aclose", "asend", "athrow", "__next__", "__anext__", "__iter__", "__aiter__", "__await__"}


def obj_attr(m, s, v, ob, name):
    k = ob.op
    if k == "list" and name in LIST_METHODS:
        return mk("natm", name, v)
    if k == "dict" and (name in DICT_METHODS or name in ("__getitem__", "__setitem__", "__contains__")):
        return mk("natm", name, v)
    if k == "set" and name in SET_METHODS:
        return mk("natm", name, v)
    if k == "ba" and name in BA_METHODS:
        return mk("natm", name, v)
    if k == "gen":
        ok = {"gen": {"send", "throw", "close", "__next__", "__iter__"}, "coro": {"send", "throw", "close", "__await__"},
              "agen": {"aclose", "asend", "athrow", "__anext__", "__aiter__"}}[ob.a[0]]
        if name in ok:
            return mk("natm", name, v)
        if name == "__class__":
            return m.class_of(s, v)
        if name in ("__name__", "__qualname__"):
            return c("gen")
        return None
    if k in ("liter", "oiter") and name in ("__next__", "__iter__"):
        return mk("natm", name, v)
    if name == "__class__":
        return m.class_of(s, v)
    if name == "__len__" and k in ("list", "dict", "set", "ba"):
        return mk("natm", name, v)
    if name == "__iter__" and k in ("list", "dict", "set", "ba"):
        return mk("natm", name, v)
    return None


def inst_attr(m, s, v, ob, name):
    cv = ob.a[0]
    if m.is_exc_class(cv):
        if name in ("__cause__", "__context__", "__traceback__"):
            return NONE
        if name == "__notes__":
            return None
        if name in ("with_traceback", "add_note"):
            return mk("natm", name, v)
        if name == "args":
            return tup()
        if name == "value" and cv.op == "x":
            return NONE
    if name in ("__doc__", "__module__"):
        return NONE
    if cv.op == "cls" and getattr(cinfo(cv), "nt", False):
        if name == "_replace":
            return mk("partial", mk("nat", "dc_replace"), tup(v), (), tup())
        if name == "_asdict":
            return mk("partial", mk("nat", "dc_asdict"), tup(v), (), tup())
    if cv.op == "x":
        return o("attr", v, name)
    # attribute inherited from an unknown external base
    for b_ in m.mro(cv):
        if b_.op == "x" and b_.a[0] not in ("builtins.object", "typing.Protocol", "typing_extensions.Protocol", "abc.ABC", "enum.Enum") and real(b_.a[0]) is None:
            if not name.startswith("__"):
                return mk("natm", name, v)
    return None


def cls_attr(m, s, v, ci, name):
    if name in ("__name__", "__qualname__"):
        return c(ci.name)
    if name == "__module__":
        return c(ci.mod)
    if name == "__doc__":
        return ci.ns.get("__doc__", NONE)
    if name == "__members__" and ci.enum is not None:
        return m.alloc(s, mk("dict", *[mk("kv", c(e.a[1]), e) for e in ci.enum]))
    if name == "__mro__":
        return tup(*m.mro(v))
    if name == "__dict__":
        return m.alloc(s, mk("dict", *[mk("kv", c(n), x) for n, x in ci.ns.items()]))
    if name == "__annotations__":
        return m.alloc(s, mk("dict", *[mk("kv", c(n), x) for n, x in ci.ann]))
    if name == "_make" and getattr(ci, "nt", False):
        return mk("partial", mk("nat", "nt_make"), tup(v), (), tup())
    if name in ("__init__", "__new__") or name == "__init_subclass__":
        return mk("nat", "_noop")
    if name in ("fromkeys",):
        return None
    for b_ in m.mro(v):
        if b_.op == "x" and real(b_.a[0]) is None and b_.a[0] not in ("typing.Protocol", "typing_extensions.Protocol"):
            return o("attr", v, name)
    return None


def other_attr(m, s, v, name, default=None):
    op = v.op
    if op == "x":
        r = ext_name(m, v.a[0] + "." + name)
        return r
    if op == "c":
        cv = cval(v)
        if cv is None:
            if default is not None:
                return default
            m.raise_ext(s, "builtins.AttributeError", c(f"'NoneType' object has no attribute '{name}'"))
        if isinstance(cv, http.HTTPStatus) and name in ("value", "phrase", "name", "description", "is_success"):
            return c(getattr(cv, name))
        if hasattr(cv, name):
            return mk("natm", name, v)
        if default is not None:
            return default
        m.raise_ext(s, "builtins.AttributeError", c(f"'{type(cv).__name__}' object has no attribute '{name}'"))
    if op == "t":
        if name in ("index", "count"):
            return mk("natm", name, v)
        if default is not None:
            return default
        m.raise_ext(s, "builtins.AttributeError", c(f"'tuple' object has no attribute '{name}'"))
    if op == "enum":
        if name == "value" or name == "_value_":
            return v.a[2]
        if name == "name" or name == "_name_":
            return c(v.a[1])
        a = m.lookup(v.a[0], name)
        if a is not None:
            if a.op == "prop":
                return I.call_into(m, s, a.a[0], [v], {})
            return I.bind_attr(m, s, a, v, v.a[0])
        if getattr(cinfo(v.a[0]), "enum_plain", False):
            return other_attr(m, s, v.a[2], name, default)
        if name == "__class__":
            return v.a[0]
        if default is not None:
            return default
        m.raise_ext(s, "builtins.AttributeError", c(name))
    if op == "nat" and v.a[0] in NAT_TYPES:
        if v.a[0] == "int" and name == "from_bytes":
            return mk("nat", "int_from_bytes")
        if v.a[0] == "dict" and name == "fromkeys":
            return prelude(m, "_dict_fromkeys")
        if v.a[0] == "bytes" and name == "fromhex":
            return ext("builtins.bytes.fromhex")
        if name in ("__name__", "__qualname__"):
            return c(v.a[0])
        return mk("ubm", v.a[0], name)
    if op in ("fn", "bm", "partial", "nat", "natm", "smeth", "cmeth", "prop"):
        f = v
        while f.op in ("bm", "smeth", "cmeth"):
            f = f.a[1] if f.op == "bm" else f.a[0]
        if name == "__self__" and v.op == "bm":
            return v.a[0]
        if name == "__func__" and v.op == "bm":
            return v.a[1]
        if name == "__name__":
            return c(f.a[0].co.co_name) if f.op == "fn" else c("fn")
        if name in ("__qualname__",):
            return c(f.a[0].name) if f.op == "fn" else c("fn")
        if name in ("__doc__", "__wrapped__", "__module__", "__annotations__"):
            if default is not None:
                return default
            return NONE
        if name == "__isabstractmethod__":
            return FALSE
        if name == "__call__":
            return v
        if op == "partial":
            if name == "func":
                return v.a[0]
            if name == "args":
                return v.a[1]
            if name == "keywords":
                return m.alloc(s, mk("dict", *[mk("kv", c(n), x) for n, x in zip(v.a[2], v.a[3].a)]))
        if op == "prop" and name in ("setter", "getter", "deleter"):
            return mk("natm", name, v)
        if op == "prop" and name == "fget":
            return v.a[0]
        if default is not None:
            return default
        if name in ("register", "cache_clear", "cache_info"):
            return mk("nat", "_ident")
        m.raise_ext(s, "builtins.AttributeError", c(f"function has no attribute '{name}'"))
    if op == "o":
        if nullable(v) and kind(v) != "any" and m.is_none(s, v):
            if default is not None:
                return default
            m.raise_ext(s, "builtins.AttributeError", c(f"'NoneType' object has no attribute '{name}'"))
        if kind(v) == "any" and S_isnone(s, v):
            if default is not None:
                return default
            m.raise_ext(s, "builtins.AttributeError", c(f"'NoneType' object has no attribute '{name}'"))
        k = kind(v).rstrip("?")
        if k == "exc":
            if name in ("__cause__", "__context__", "__traceback__"):
                return NONE if name != "__traceback__" else o("attr", v, name)
            if name in ("with_traceback", "add_note"):
                return mk("natm", name, v)
            return o("attr", v, name)
        if k in ("str", "bytes", "int", "float", "bool"):
            if not hasattr({"str": str, "bytes": bytes, "int": int, "float": float, "bool": bool}[k], name):
                if default is not None:
                    return default
                m.raise_ext(s, "builtins.AttributeError", c(f"'{k}' object has no attribute '{name}'"))
            return mk("natm", name, v)
        if name in ("__class__",):
            return o("type", v)
        if name in ("__name__", "__qualname__"):
            return o("type_name", v)
        if default is not None and not k.startswith(("list:", "map:")):
            if not m.decide(s, mk("hasattr", v, c(name))):
                return default
        if k.startswith(("list:", "map:")) or k == "json":
            return mk("natm", name, v)
        return mk("oattr", v, name)
    if op == "hstat":
        if name == "value":
            return v.a[0]
        return o("ap", "hstat_" + name, "str", v.a[0])
    if op == "oattr":
        return mk("oattr", o("attr", v.a[0], v.a[1]), name)
    if op in ("typing", "union"):
        if default is not None:
            return default
        return v
    if op == "dview":
        if name in ("__iter__", "isdisjoint", "__len__"):
            return mk("natm", name, v)
    if op == "super":
        obj = v.a[1]
        cv = obj if obj.op == "cls" else m.get(s, obj).a[0]
        a = m.lookup(cv, name, after=v.a[0])
        if a is None:
            return super_ext(m, s, cv, v.a[0], name, obj)
        if a.op == "prop":
            return I.call_into(m, s, a.a[0], [obj], {})
        return I.bind_attr(m, s, a, obj, cv)
    if op == "agm":
        if name == "__await__":
            return mk("natm", name, v)
    if default is not None:
        return default
    raise Limit(f"attribute {name} of {v!r} at {m.where(s)}")


def S_isnone(s, v):
    return s.facts.get(mk("isnone", v)) is True


def super_ext(m, s, cv, cl, name, slf):
    if name == "__init__":
        if m.is_exc_class(cv) and slf.op == "r":
            return mk("partial", mk("nat", "_exc_init"), tup(slf), (), tup())
        return mk("nat", "_noop")
    if name in ("__init_subclass__", "__post_init__", "__del__"):
        return mk("nat", "_noop")
    if name == "__setattr__":
        return mk("partial", mk("nat", "setattr"), tup(slf), (), tup())
    if name == "__getattribute__":
        return mk("partial", mk("nat", "getattr"), tup(slf), (), tup())
    if name == "__new__":
        return mk("nat", "_obj_new")
    if name in ("__str__", "__repr__"):
        return mk("partial", mk("nat", "repr"), tup(slf), (), tup())
    if name == "__eq__":
        return mk("partial", mk("nat", "_ident_eq"), tup(slf), (), tup())
    return mk("natm", name, slf)


NAT_TYPES = {"int", "str", "bytes", "dict", "list", "tuple", "set", "frozenset", "bytearray", "float", "bool", "type"}


# ================================================================ method calls
SAFE_CONST_METHODS = {
    "str": {"lower", "upper", "strip", "lstrip", "rstrip", "replace", "split", "rsplit", "partition", "rpartition",
            "startswith", "endswith", "encode", "join", "removeprefix", "removesuffix", "find", "rfind", "isdigit",
            "isascii", "isdecimal", "title", "capitalize", "count", "index", "format", "splitlines", "isalpha",
            "isalnum", "zfill", "casefold", "isspace", "isidentifier", "ljust", "rjust", "expandtabs", "swapcase", "isprintable",
            "isupper", "islower", "isnumeric", "istitle"},
    "bytes": {"decode", "strip", "rstrip", "lstrip", "split", "startswith", "endswith", "hex", "replace", "join",
              "partition", "find", "lower", "upper", "count", "index", "rpartition", "removeprefix", "removesuffix", "splitlines", "rsplit"},
    "int": {"to_bytes", "bit_length", "is_integer", "conjugate"},
    "float": {"is_integer"},
    "bool": {"to_bytes"},
}
# idempotent normalisations
IDEM = {"lower", "upper", "strip", "casefold", "rstrip", "lstrip"}


def lift(m, s, x):
    """Python value -> abstract value (allocating lists)."""
    if isinstance(x, list):
        return m.alloc(s, mk("list", *[lift(m, s, y) for y in x]))
    if isinstance(x, tuple):
        return tup(*[lift(m, s, y) for y in x])
    return c(x)


def call_method(m, s, recv, name, args, kw):
    op = recv.op
    if op == "r":
        ob = m.get(s, recv)
        h = {"list": list_method, "dict": dict_method, "set": set_method, "ba": ba_method, "gen": gen_method}.get(ob.op)
        if h is not None:
            return h(m, s, recv, ob, name, args, kw)
        if ob.op in ("liter", "oiter"):
            if name == "__iter__":
                return recv
            r = iter_next(m, s, recv)
            if r is I.STOP:
                m.raise_ext(s, "builtins.StopIteration")
            return r
        if name == "with_traceback":
            return recv
        if name == "add_note":
            return NONE
        return ev_call(m, s, recv, name, args, kw)
    if op == "prop":
        if name == "setter":
            return mk("prop", recv.a[0], args[0])
        if name == "getter":
            return mk("prop", args[0], recv.a[1])
        return recv
    if op == "dview":
        if name == "__iter__":
            return get_iter(m, s, recv)
        return length(m, s, recv)
    if op == "t":
        if name == "index":
            for i, x in enumerate(recv.a):
                if m.eq(s, x, args[0]):
                    return c(i)
            m.raise_ext(s, "builtins.ValueError", c("not in tuple"))
        return o("m", name, recv, *args)
    args = [as_value(m, s, a) for a in args]
    if op == "c":
        cv = cval(recv)
        tn = type(cv).__name__
        if name == "translate" and tn == "str" and len(args) == 1 and args[0].op == "r":
            table = m.get(s, args[0])
            if table.op == "dict" and all(e.op == "kv" and isc(e.a[0]) and isc(e.a[1]) for e in table.a):
                return c(cv.translate({cval(e.a[0]): cval(e.a[1]) for e in table.a}))
        if name in SAFE_CONST_METHODS.get(tn, ()):
            if name == "join" and len(args) == 1:
                return join(m, s, recv, args[0])
            if name == "format" and tn == "str":
                return str_format(m, s, recv, args, kw)
            if all(isc(a) or (a.op == "t" and all(isc(y) for y in a.a)) for a in args) and all(isc(v) for v in kw.values()):
                try:
                    return lift(m, s, getattr(cv, name)(*[cval(a) if isc(a) else tuple(cval(y) for y in a.a) for a in args], **{k: cval(v) for k, v in kw.items()}))
                except PyRaise:
                    raise
                except Exception as e:
                    m.raise_ext(s, "builtins." + type(e).__name__, c(str(e)))
    k = kind(recv).rstrip("?")
    if name == "with_traceback":
        return recv
    if name == "add_note":
        return NONE
    if k in ("str", "bytes"):
        return text_method(m, s, recv, k, name, args, kw)
    if k == "int" and name == "to_bytes":
        n = args[0] if args else kw.get("length")
        order = args[1] if len(args) > 1 else kw.get("byteorder", c("big"))
        if isc(n) and cval(n) == 4 and isc(order) and cval(order) == "big":
            return be32(recv)
        if isc(n) and cval(n) == 1:
            return u8(recv)
        return o("enc", recv, n, order)
    if k == "json":
        return json_method(m, s, recv, name, args, kw)
    if k.startswith("map:"):
        return map_method(m, s, recv, name, args, kw)
    if k.startswith("list:"):
        if name == "append":
            return NONE
        return o("m", name, recv, *args)
    return ev_call(m, s, recv, name, args, kw)


def json_method(m, s, recv, name, args, kw):
    if not m.decide(s, mk("isa", recv, ext("builtins.dict"))):
        m.raise_ext(s, "builtins.AttributeError", c(f"json value has no attribute {name}"))
    return map_method(m, s, recv, name, args, kw)


def map_method(m, s, recv, name, args, kw):
    if name == "get":
        k = args[0]
        d = args[1] if len(args) > 1 else NONE
        if m.decide(s, mk("in", k, recv)):
            return o("mget", recv, k)
        return d
    if name == "items":
        e = o("each", recv)
        return o("L", star(tup(e, o("mget", recv, e))))
    if name == "keys":
        return o("L", star(o("each", recv)))
    if name == "values":
        return o("L", star(o("mget", recv, o("each", recv))))
    if name in ("pop", "setdefault"):
        if m.decide(s, mk("in", args[0], recv)):
            return o("mget", recv, args[0])
        if len(args) > 1:
            return args[1]
        m.raise_ext(s, "builtins.KeyError", args[0])
    if name == "copy":
        return recv
    return o("m", name, recv, *args)


def str_format(m, s, recv, args, kw):
    import string as _string

    out = []
    auto = 0
    try:
        for lit, fld, spec, conv in _string.Formatter().parse(cval(recv)):
            if lit:
                out.append(c(lit))
            if fld is None:
                continue
            if spec or conv:
                raise KeyError
            if fld == "":
                v = args[auto]
                auto += 1
            elif fld.isdigit():
                v = args[int(fld)]
            else:
                v = kw[fld]
            sv = str_(m, s, v)
            if sv is PENDING:
                s.frames.pop()
                sv = o("str", snap(m, s, v))
            out.append(sv)
        return cat(*out)
    except (KeyError, IndexError):
        return o("fmt", recv, *[snap(m, s, a) for a in args], *[snap(m, s, a) for a in kw.values()])


def join(m, s, sep, it):
    if it.op == "r":
        ob = m.get(s, it)
        if ob.op == "gen" or (ob.op == "inst"):
            # drain the generator first, then join
            return call_pre(m, s, "_join", [sep, it])
    segs = as_segments(m, s, it)
    isb = kind(sep) == "bytes"
    mkc = catb if isb else cat
    segs = [as_value(m, s, x) for x in segs]
    if any(x.op == "star" for x in segs):
        if len(segs) == 1 and isc(sep) and not cval(sep) and segs[0].a[0].op == "o" and segs[0].a[0].a[0] == "each" and kind(segs[0].a[0].a[1]) == "list:bytes":
            return o("m", "join", sep, segs[0].a[0].a[1])
        return o("m", "join", sep, o("L", *[snap(m, s, x) for x in segs]))
    out = []
    for i, x in enumerate(segs):
        if i:
            out.append(sep)
        kx = kind(x)
        if kx in ("NoneType", "int", "float") or (isb and kx == "str") or (not isb and kx == "bytes"):
            m.raise_ext(s, "builtins.TypeError", c("sequence item: wrong type"))
        out.append(x)
    if not out:
        return EMPTY_BYTES if isb else EMPTY_STR
    return mkc(*out)


def text_method(m, s, recv, k, name, args, kw):
    a = recv.a if recv.op == "o" else ()
    args = list(args) + [kw[x] for x in sorted(kw)] if kw else list(args)
    if name == "join":
        return join(m, s, recv, args[0])
    if name == "encode":
        if args and isc(args[-1]) and cval(args[-1]) == "surrogateescape":
            # bytes that travelled as lone surrogates come out again
            if recv.op == "o" and a[0] == "m" and a[1] == "decode" and len(a) == 4 and isc(a[3]) and cval(a[3]) == "surrogateescape":
                return a[2]
            args = args[:-1]
        args = [x for x in args if not (isc(x) and cval(x) in ("utf-8", "utf8", "strict", "ascii", "latin-1"))] if all(isc(x) for x in args) else args
        if recv.op == "o" and a[0] == "cat":
            return catb(*[_enc1(p) for p in a[1:]])
        return _enc1(recv)
    if name == "decode":
        canon = [x for x in args if not (isc(x) and cval(x) in ("utf-8", "utf8", "strict"))]
        if recv.op == "o" and a[0] == "m" and a[1] == "encode":
            return a[2]
        if recv.op == "o" and a[0] == "catb":
            parts = [_dec1(p) for p in a[1:]]
            if all(p is not None for p in parts):
                return cat(*parts)
        if recv.op == "o" and a[0] == "call" and a[1].op == "x" and a[1].a[0].startswith("base64.") and "encode" in a[1].a[0]:
            return o("m", "decode", recv)
        if any(isc(x) and cval(x) in ("latin-1", "iso-8859-1", "latin1", "replace", "ignore", "surrogateescape", "backslashreplace") for x in canon):
            return o("m", "decode", recv, *canon)
        if not m.decide(s, mk("decodes", recv, *canon)):
            m.raise_ext(s, "builtins.UnicodeDecodeError", c("invalid data"))
        return o("m", "decode", recv, *canon)
    if name in ("startswith", "endswith"):
        p = args[0]
        if p.op == "t":
            return b(any(m.truth(s, text_method(m, s, recv, k, name, [x] + args[1:], {})) for x in p.a))
        if name == "startswith" and isc(p) and len(args) == 1:
            if recv.op == "o" and a[0] in ("cat", "catb") and isc(a[1]):
                h = cval(a[1])
                q = cval(p)
                if h.startswith(q):
                    return TRUE
                if not q.startswith(h):
                    return FALSE
            return b(m.decide(s, mk("startswith", recv, p)))
        if name == "endswith" and isc(p) and recv.op == "o" and a[0] in ("cat", "catb") and isc(a[-1]):
            h = cval(a[-1])
            if h.endswith(cval(p)):
                return TRUE
            if not cval(p).endswith(h):
                return FALSE
        return b(m.decide(s, mk("truthy", o("m", name, recv, *args))))
    if name in ("removeprefix",) and isc(args[0]):
        r = text_method(m, s, recv, k, "startswith", [args[0]], {})
        if m.truth(s, r):
            return getslice(m, s, recv, c(len(cval(args[0]))), NONE)
        return recv
    if name in ("lower", "upper", "casefold") and recv.op == "o":
        if a[0] == "m" and a[1] == name and len(a) == 3:
            return recv
        if a[0] == "cat":
            return cat(*[p_m(p, name) for p in a[1:]])
    if name == "strip" and not args and recv.op == "o" and a[0] == "m" and a[1] == "strip" and len(a) == 3:
        return recv
    if name in ("isdigit", "isdecimal", "isascii", "isalpha", "isalnum", "isspace", "isnumeric", "isidentifier", "islower", "isupper", "istitle", "isprintable"):
        return b(m.decide(s, mk("truthy", o("m", name, recv))))
    if name in ("index", "rindex"):
        if not m.decide(s, mk("in", args[0], recv)):
            m.raise_ext(s, "builtins.ValueError", c("substring not found"))
        return o("m", name.replace("index", "find"), recv, *args)
    if name in ("strip", "lstrip", "rstrip") and recv.op == "o" and (not args or isc(args[0]) and cval(args[0]) is not None):
        v = cval(args[0]) if args else _WS
        r = text_strip(recv, v if isinstance(v, str) else v.decode("latin-1"), name != "rstrip", name != "lstrip")
        if r is not None:
            return r
    if recv.op == "o" and args and isc(args[0]) and isinstance(cval(args[0]), (str, bytes)) and cval(args[0]):
        if name in ("split", "rsplit") and len(args) == 1:
            r = text_split(recv, cval(args[0]))
            if r is not None and (recv.a[0] in ("cat", "catb") or text_in(args[0], recv) is False):
                return m.alloc(s, mk("list", *r))
        if name in ("partition", "rpartition") or name in ("split", "rsplit") and len(args) > 1 and isc(args[1]) and cval(args[1]) == 1:
            r = text_partition(recv, cval(args[0]), name[0] == "r")
            if r is not None:
                return tup(r[0], args[0], r[1]) if name.endswith("partition") else m.alloc(s, mk("list", *r))
    if name == "split" or name == "rsplit":
        if len(args) > 1 and isc(args[1]) and cval(args[1]) == 1 and isc(args[0]):
            # at most two parts
            if m.decide(s, mk("in", args[0], recv)):
                src = o("m", "partition" if name == "split" else "rpartition", recv, args[0])
                return m.alloc(s, mk("list", o("item", src, c(0)), o("item", src, c(2))))
            return m.alloc(s, mk("list", recv))
        return o("m", name, recv, *args)
    if name in ("partition", "rpartition"):
        src = o("m", name, recv, *args)
        if isc(args[0]):
            if m.decide(s, mk("in", args[0], recv)):
                return tup(o("item", src, c(0)), args[0], o("item", src, c(2)))
            e = EMPTY_STR if k == "str" else EMPTY_BYTES
            return tup(recv, e, e) if name == "partition" else tup(e, e, recv)
        return tup(o("item", src, c(0)), o("item", src, c(1)), o("item", src, c(2)))
    if name == "format":
        return o("fmt", recv, *[snap(m, s, x) for x in args])
    return o("m", name, recv, *[snap(m, s, x) for x in args])


_URLSAFE = frozenset("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_.-~%/")
_B64 = frozenset("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/=-_")
CLEAN: dict = {}  # opaque text of the harness -> characters it is declared not to contain
_WS = " \t\r\n\x0b\x0c"


def lacks(t, chars):
    """No character of `chars` can occur in the text t."""
    if isc(t):
        v = cval(t)
        if isinstance(v, bytes):
            return not any(ord(ch) < 256 and ord(ch) in v for ch in chars)
        return isinstance(v, str) and not any(ch in v for ch in chars)
    if t.op != "o":
        return False
    h = t.a[0]
    if h == "in" or h == "ev":
        d = CLEAN.get(t.a[1])
        return d is not None and all(ch in d for ch in chars)
    if h in ("cat", "catb"):
        return all(lacks(x, chars) for x in t.a[1:])
    if h == "str" and kind(t.a[1]) == "int":
        return not any(ch in "0123456789-" for ch in chars)
    if h == "m" and t.a[1] in ("encode", "decode") and len(t.a) == 3:
        return lacks(t.a[2], chars)
    if h == "m" and t.a[1] in ("lower", "upper") and len(t.a) == 3:
        return not any(ch.isalpha() for ch in chars) and lacks(t.a[2], chars)
    if h == "m" and t.a[1] in ("strip", "rstrip", "lstrip"):
        return lacks(t.a[2], chars)
    if h == "call" and t.a[1].op == "x":
        f = t.a[1].a[0]
        if f == "urllib.parse.quote":
            safe = t.a[3] if len(t.a) > 3 else None
            if safe is not None and not (safe.op == "t" and len(safe.a) == 1 and safe.a[0].op == "t" and all(isc(x) for x in safe.a[0].a)):
                return False
            extra = "/" if safe is None else cval(safe.a[0].a[1])
            return not any(ch in _URLSAFE and ch != "/" or ch in extra for ch in chars)
        if f == "urllib.parse.urlencode":
            return not any(ch in _URLSAFE and ch != "/" or ch in "=&+" for ch in chars)
        if f.startswith("base64.") and "encode" in f:
            return not any(ch in _B64 for ch in chars)
    return False


def _pieces(recv):
    return list(recv.a[1:]) if recv.op == "o" and recv.a[0] in ("cat", "catb") else [recv]


def text_in(x, y):
    """Whether the constant text x occurs in y: True, False or None."""
    if not (isc(x) and isinstance(cval(x), (str, bytes)) and cval(x)):
        return None
    sep = cval(x)
    ps = _pieces(y)
    if any(isc(p) and type(cval(p)) is type(sep) and sep in cval(p) for p in ps):
        return True
    chars = sep if isinstance(sep, str) else sep.decode("latin-1")
    if all(lacks(p, chars) or isc(p) and len(ps) == 1 for p in ps):
        return False
    if all(isc(p) or lacks(p, chars) for p in ps):
        return False
    return None


def text_partition(recv, sep, last=False):
    """(before, after) at the first (last) occurrence when it is certain; None when unknown."""
    isb = isinstance(sep, bytes)
    mk_ = catb if isb else cat
    chars = sep.decode("latin-1") if isb else sep
    ps = _pieces(recv)
    order = range(len(ps) - 1, -1, -1) if last else range(len(ps))
    for i in order:
        p = ps[i]
        if isc(p):
            v = cval(p)
            if sep in v:
                h, _, t = v.rpartition(sep) if last else v.partition(sep)
                return mk_(*ps[:i], c(h)), mk_(c(t), *ps[i + 1:])
            continue
        if not lacks(p, chars):
            return None
    return None


def text_split(recv, sep):
    isb = isinstance(sep, bytes)
    mk_ = catb if isb else cat
    chars = sep.decode("latin-1") if isb else sep
    out = [[]]
    for p in _pieces(recv):
        if isc(p):
            first, *rest = cval(p).split(sep)
            out[-1].append(c(first))
            for r in rest:
                out.append([c(r)])
        elif lacks(p, chars):
            out[-1].append(p)
        else:
            return None
    return [mk_(*x) for x in out]


def text_strip(recv, chars, left, right):
    """The stripped text when it is certain; None when unknown."""
    ps = _pieces(recv)
    isb = kind(recv) == "bytes"
    mk_ = catb if isb else cat
    cs = chars.encode("latin-1") if isb else chars
    if left:
        while ps:
            if isc(ps[0]):
                v = cval(ps[0]).lstrip(cs)
                if not v:
                    ps.pop(0)
                    continue
                ps[0] = c(v)
                break
            if lacks(ps[0], chars) and (len(ps) == 1 or nonempty(ps[0])):
                break
            return None
    if right:
        while ps:
            if isc(ps[-1]):
                v = cval(ps[-1]).rstrip(cs)
                if not v:
                    ps.pop()
                    continue
                ps[-1] = c(v)
                break
            if lacks(ps[-1], chars) and (len(ps) == 1 or nonempty(ps[-1])):
                break
            return None
    return mk_(*ps) if ps else (EMPTY_BYTES if isb else EMPTY_STR)


def nonempty(t):
    return t.op == "o" and t.a[0] == "str"


def p_m(p, name):
    if isc(p):
        return c(getattr(cval(p), name)())
    return o("m", name, p)


def _enc1(p):
    if isc(p):
        return c(cval(p).encode())
    if p.op == "o" and p.a[0] == "m" and p.a[1] == "decode" and len(p.a) == 3:
        return p.a[2]
    return o("m", "encode", p)


def _dec1(p):
    if isc(p):
        try:
            return c(cval(p).decode())
        except UnicodeDecodeError:
            return None
    if p.op == "o" and p.a[0] == "m" and p.a[1] == "encode":
        return p.a[2]
    return None


def u8(v):
    if isc(v):
        return c(bytes([cval(v) & 255]))
    return o("u8", v)


def be32(v):
    if isc(v):
        return c(cval(v).to_bytes(4, "big"))
    return o("be32", v)


def list_method(m, s, recv, ob, name, args, kw):
    if name in ("append", "extend", "insert", "pop", "remove", "clear", "reverse", "sort", "popleft", "appendleft"):
        h = m.hooks.get("mutate")
        if h:
            h(m, s, recv, name, args)
    if name == "append":
        m.put(s, recv, mk("list", *ob.a, args[0]))
        return NONE
    if name == "extend":
        segs = as_segments(m, s, args[0])
        if segs is None:
            return call_pre(m, s, "_extend_into", [recv, args[0]])
        m.put(s, recv, mk("list", *ob.a, *segs))
        return NONE
    if name == "appendleft":
        m.put(s, recv, mk("list", args[0], *ob.a))
        return NONE
    if name == "insert":
        segs = list(ob.a)
        if isc(args[0]) and cval(args[0]) == 0:
            m.put(s, recv, mk("list", args[1], *segs))
        elif isc(args[0]) and not any(x.op == "star" for x in segs):
            segs.insert(cval(args[0]), args[1])
            m.put(s, recv, mk("list", *segs))
        else:
            m.put(s, recv, mk("list", *[x if x.op == "star" else star(x) for x in segs], args[1]))
        return NONE
    if name in ("pop", "popleft"):
        i = cval(args[0]) if args and isc(args[0]) else (-1 if name == "pop" else 0)
        segs = list(ob.a)
        if not segs:
            m.raise_ext(s, "builtins.IndexError", c("pop from empty list"))
        if not any(x.op == "star" for x in segs) or (i == 0 and segs[0].op != "star") or (i == -1 and segs[-1].op != "star"):
            try:
                r = segs.pop(i)
            except IndexError:
                m.raise_ext(s, "builtins.IndexError", c("pop index out of range"))
            m.put(s, recv, mk("list", *segs))
            return r
        if not m.decide(s, mk("truthy", o("content", ob))):
            m.raise_ext(s, "builtins.IndexError", c("pop from empty list"))
        return o("item", snap(m, s, recv), c(i))
    if name == "clear":
        m.put(s, recv, mk("list"))
        return NONE
    if name == "copy":
        return m.alloc(s, ob)
    if name == "reverse":
        m.put(s, recv, mk("list", *reversed(ob.a)))
        return NONE
    if name == "sort":
        segs = ob.a
        if kw:
            return NONE
        if all(isc(x) for x in segs):
            m.put(s, recv, mk("list", *[c(x) for x in sorted(cval(y) for y in segs)]))
        return NONE
    if name == "remove":
        for i, x in enumerate(ob.a):
            if x.op != "star" and m.eq(s, x, args[0]):
                m.put(s, recv, mk("list", *ob.a[:i], *ob.a[i + 1:]))
                return NONE
        m.raise_ext(s, "builtins.ValueError", c("list.remove(x): x not in list"))
    if name == "index":
        for i, x in enumerate(ob.a):
            if m.eq(s, x, args[0]):
                return c(i)
        m.raise_ext(s, "builtins.ValueError", c("not in list"))
    if name == "count":
        return o("m", "count", snap(m, s, recv), *args)
    if name == "__len__":
        return length(m, s, recv)
    if name == "__iter__":
        return get_iter(m, s, recv)
    raise Limit(f"list.{name}")


def dict_method(m, s, recv, ob, name, args, kw):
    if name in ("setdefault", "pop", "update", "clear", "popitem", "__setitem__"):
        h = m.hooks.get("mutate")
        if h:
            h(m, s, recv, name, args)
    if name == "get":
        r = dict_find(m, s, ob, args[0])
        if r is None:
            return args[1] if len(args) > 1 else kw.get("default", NONE)
        return r
    if name in ("items", "keys", "values"):
        return mk("dview", recv, name[0])
    if name == "setdefault":
        r = dict_find(m, s, ob, args[0])
        if r is not None:
            return r
        d = args[1] if len(args) > 1 else NONE
        m.put(s, recv, dict_set(ob, args[0], d))
        return d
    if name == "pop":
        r = dict_find(m, s, ob, args[0])
        if r is None:
            if len(args) > 1:
                return args[1]
            m.raise_ext(s, "builtins.KeyError", args[0])
        m.put(s, recv, dict_del(m, s, ob, args[0]))
        return r
    if name == "update":
        d = ob
        if args:
            d = dict_update(m, s, d, args[0])
        for k, v in kw.items():
            d = dict_set(d, c(k), v)
        m.put(s, recv, d)
        return NONE
    if name == "clear":
        m.put(s, recv, mk("dict"))
        return NONE
    if name == "copy":
        return m.alloc(s, ob)
    if name == "popitem":
        if not ob.a:
            m.raise_ext(s, "builtins.KeyError", c("empty"))
        e = ob.a[-1]
        m.put(s, recv, mk("dict", *ob.a[:-1]))
        return tup(e.a[0], e.a[1])
    if name == "__getitem__":
        return getitem(m, s, recv, args[0])
    if name == "__setitem__":
        setitem(m, s, recv, args[0], args[1])
        return NONE
    if name == "__contains__":
        return b(contains(m, s, recv, args[0]))
    if name == "__len__":
        return length(m, s, recv)
    if name == "__iter__":
        return get_iter(m, s, recv)
    raise Limit(f"dict.{name}")


def set_method(m, s, recv, ob, name, args, kw):
    if name in ("add", "discard", "remove", "update", "clear", "pop"):
        h = m.hooks.get("mutate")
        if h:
            h(m, s, recv, name, args)
    if name == "add":
        if args[0] not in ob.a:
            m.put(s, recv, mk("set", *ob.a, args[0]))
        return NONE
    if name in ("discard", "remove"):
        m.put(s, recv, mk("set", *[x for x in ob.a if x is not args[0]]))
        return NONE
    if name == "update":
        segs = as_segments(m, s, args[0])
        if segs is None:
            return call_pre(m, s, "_update_into", [recv, args[0]])
        m.put(s, recv, mk("set", *dict.fromkeys(ob.a + tuple(segs))))
        return NONE
    if name == "clear":
        m.put(s, recv, mk("set"))
        return NONE
    if name == "copy":
        return m.alloc(s, ob)
    if name == "union":
        segs = as_segments(m, s, args[0]) or [star(o("each", snap(m, s, args[0])))]
        return m.alloc(s, mk("set", *dict.fromkeys(ob.a + tuple(segs))))
    if name == "__len__":
        return length(m, s, recv)
    if name == "__iter__":
        return get_iter(m, s, recv)
    return o("m", name, snap(m, s, recv), *[snap(m, s, x) for x in args])


def ba_method(m, s, recv, ob, name, args, kw):
    if name == "extend":
        if args[0].op == "r" and m.get(s, args[0]).op in ("gen", "inst"):
            raise Limit("bytearray.extend(generator)")
        m.put(s, recv, mk("ba", catb(ob.a[0], as_value(m, s, args[0]))))
        return NONE
    if name == "append":
        m.put(s, recv, mk("ba", catb(ob.a[0], u8(args[0]))))
        return NONE
    if name == "clear":
        m.put(s, recv, mk("ba", EMPTY_BYTES))
        return NONE
    if name == "copy":
        return m.alloc(s, ob)
    if name in ("__len__",):
        return length(m, s, recv)
    if name == "__iter__":
        return get_iter(m, s, recv)
    return call_method(m, s, ob.a[0], name, args, kw)


def gen_method(m, s, recv, ob, name, args, kw):
    if name in ("__iter__", "__aiter__"):
        return recv
    if name == "__await__":
        return recv
    if name == "__next__":
        I.resume(m, s, recv, NONE, "next")
        return PENDING
    if name == "send":
        I.resume(m, s, recv, args[0], "next")
        return PENDING
    if name == "throw":
        e = args[0] if len(args) == 1 else args[1]
        if e.op in ("cls", "x"):
            e = m.exc_inst(s, e)
        I.resume(m, s, recv, NONE, "throw", throw=e)
        return PENDING
    if name == "close":
        if ob.a[1] in ("new", "done"):
            m.put(s, recv, mk("gen", ob.a[0], "done", NONE))
            return NONE
        I.resume(m, s, recv, NONE, "close", throw=m.exc_inst(s, ext("builtins.GeneratorExit")))
        return PENDING
    if name == "aclose":
        return mk("agm", "aclose", recv, NONE)
    if name == "__anext__":
        return mk("anext", recv)
    if name == "asend":
        return mk("anext", recv)
    if name == "athrow":
        e = args[0] if len(args) == 1 else args[1]
        if e.op in ("cls", "x"):
            e = m.exc_inst(s, e)
        return mk("agm", "athrow", recv, e)
    raise Limit(f"generator.{name}")


# ================================================================ external calls
PURE_RAISES = {
    # function -> exception it may raise
    "json.loads": "json.decoder.JSONDecodeError",
    "base64.b64decode": "binascii.Error",
    "base64.urlsafe_b64decode": "binascii.Error",
    "base64.standard_b64decode": "binascii.Error",
    "gzip.decompress": "gzip.BadGzipFile",
    "zlib.decompress": "zlib.error",
}
CALL_KIND_MORE = {
    "json.loads": "json",
    "importlib.metadata.version": "str",
    "traceback.format_exc": "str",
    "time.time": "float",
    "time.monotonic": "float",
    "time.perf_counter": "float",
    "time.monotonic_ns": "int",
    "time.time_ns": "int",
    "time.perf_counter_ns": "int",
}
from . import values as _values  # noqa: E402

_values.CALL_KIND.update(CALL_KIND_MORE)
IMPURE = {"time.time", "time.monotonic", "time.perf_counter", "time.monotonic_ns", "time.perf_counter_ns", "time.time_ns"}


def kwt(m, s, kw):
    return tup(*[tup(c(k), snap(m, s, v)) for k, v in sorted(kw.items())]) if kw else None


def call_ext(m, s, fn, args, kw):
    n = fn.a[0]
    h = EXT_CALLS.get(n)
    if h is not None:
        return h(m, s, args, kw)
    if n.endswith(".__init__"):
        if args and args[0].op == "r" and m.is_exc_class(m.get(s, args[0]).a[0]):
            m.setfield(s, args[0], "args", tup(*args[1:]))
        return NONE
    if n == "builtins.object.__setattr__":
        return NATIVES["_raw_setattr"](m, s, args, kw)
    if m.is_exc_class(fn):
        f = s.frames[-1]
        return m.new_inst(s, fn, (("args", tup(*args)),), site=f"{n}@{f.code.key}:{f.pc}")
    sargs = [snap(m, s, a) for a in args]
    if n in PURE_RAISES:
        if n == "json.loads":
            r = json_roundtrip(m, s, sargs[0])
            if r is not None:
                return r
        if n.startswith("base64"):
            import base64
            alt = kw.get("altchars", sargs[1] if len(sargs) > 1 else NONE)
            r = b64_roundtrip(m, s, n, sargs[0], cval(alt) if isc(alt) else None)
            if r is not None:
                return r
            if all(isc(x) for x in [*sargs, *kw.values()]) and isinstance(cval(sargs[0]), (str, bytes)):
                try:
                    return c(getattr(base64, n.rpartition(".")[2])(*map(cval, sargs), **{k: cval(x) for k, x in kw.items()}))
                except ValueError as e:
                    # binascii.Error is a ValueError, but not every ValueError is one
                    m.raise_ext(s, "binascii.Error" if type(e).__name__ == "Error" else "builtins.ValueError", c(str(e)))
        if not m.decide(s, mk("ok", fn, *sargs)):
            m.raise_ext(s, PURE_RAISES[n], c(f"{n} failed"))
    elif n in IMPURE:
        t = o("ev", n, _values.CALL_KIND.get(n, "any"))
        m.fresh(s, t)
        return t
    r = o("call", fn, *sargs) if not kw else o("call", fn, *sargs, kwt(m, s, kw))
    h = m.hooks.get("ext_call")
    if h:
        h(m, s, n, args, kw)
    return r


def strip_dec(v):
    """Peel encode/decode layers."""
    while v.op == "o" and v.a[0] == "m" and v.a[1] in ("encode", "decode") and len(v.a) == 3:
        v = v.a[2]
    return v


def is_b64(w):
    return w.op == "o" and w.a[0] == "call" and w.a[1].op == "x" and w.a[1].a[0].startswith("base64.") and w.a[1].a[0].endswith("encode")


def json_roundtrip(m, s, v):
    v = strip_dec(v)
    if v.op == "o" and v.a[0] == "call" and v.a[1].op == "x" and v.a[1].a[0] == "json.dumps":
        return reify(m, s, v.a[2])
    return None


def reify(m, s, v):
    if v.op == "o" and v.a[0] == "L":
        return m.alloc(s, mk("list", *[reify(m, s, x) if x.op != "star" else x for x in v.a[1:]]), site=f"json{id_of(v)}")
    if v.op == "o" and v.a[0] == "D":
        return m.alloc(s, mk("dict", *[mk(x.op, *[reify(m, s, y) for y in x.a]) if x.op == "kv" else x for x in v.a[1:]]), site=f"json{id_of(v)}")
    if v.op == "t":
        return m.alloc(s, mk("list", *[reify(m, s, x) for x in v.a]), site=f"json{id_of(v)}")
    return v


_ids: dict = {}


def id_of(v):
    return _ids.setdefault(v, len(_ids))


def _b64pad(p):
    """How much padding a piece of text adds: a constant number of characters, or
    "fit" for a number computed from the length of the text."""
    if isc(p) and set(cval(p)) <= {"=", 61}:
        return len(cval(p))
    if p.op == "o" and p.a[0] == "repeat" and isc(p.a[1]) and cval(p.a[1]) in ("=", b"="):
        return "fit"
    return None


def b64_roundtrip(m, s, n, v, alt=None):
    # b64decode(b64encode(x).decode().rstrip("=") + "===") == x
    w = v
    padded = False  # two characters of padding are always enough
    while True:
        if w.op == "o" and w.a[0] in ("cat", "catb") and len(w.a) == 3 and _b64pad(w.a[2]) is not None:
            k = _b64pad(w.a[2])
            padded = padded or k == "fit" or k >= 2
            w = w.a[1]
            continue
        if w.op == "o" and w.a[0] == "m" and w.a[1] in ("decode", "encode") and len(w.a) == 3:
            w = w.a[2]
            continue
        if w.op == "o" and w.a[0] == "m" and w.a[1] == "rstrip" and len(w.a) == 4 and isc(w.a[3]) and cval(w.a[3]) in ("=", b"="):
            if not padded:
                return None
            w = w.a[2]
            continue
        break
    if w.op == "o" and w.a[0] == "call" and w.a[1].op == "x" and w.a[1].a[0].startswith("base64.") and w.a[1].a[0].endswith("encode"):
        url1 = "urlsafe" in w.a[1].a[0]
        url2 = "urlsafe" in n or alt == b"-_"
        if url1 == url2:
            return w.a[2]
    return None


def ev_call(m, s, recv, name, args, kw):
    """Method of an unmodelled object."""
    sargs = [snap(m, s, a) for a in args]
    m.unmodelled[f"method .{name}"] = m.unmodelled.get(f"method .{name}", 0) + 1
    r = o("m", name, snap(m, s, recv), *sargs)
    if kw:
        r = mk("o", *r.a, kwt(m, s, kw))
    return r


def call_opaque(m, s, fn, args, kw):
    if fn.op == "oattr":
        recv, name = fn.a
        k = kind(recv)
        return ev_call(m, s, recv, name, args, kw)
    sargs = [snap(m, s, a) for a in args]
    m.unmodelled[f"call {fn!r}"[:80]] = 1
    if kw:
        sargs.append(kwt(m, s, kw))
    return o("call", fn, *sargs)


# ---------------------------------------------------------------- specific externals
EXT_CALLS: dict = {}


def extcall(*names):
    def d(fn):
        for n in names:
            EXT_CALLS[n] = fn
        return fn
    return d


@extcall("typing.cast", "typing_extensions.cast")
def _cast(m, s, args, kw):
    return args[1]


@extcall("typing.TypeVar", "typing.ParamSpec", "typing_extensions.TypeVar", "typing.NewType", "typing.TypeVarTuple")
def _tv(m, s, args, kw):
    return mk("typing", "T")


@extcall("typing.final", "typing.overload", "typing.no_type_check", "abc.abstractmethod",
         "typing_extensions.override", "typing.override", "enum.unique", "functools.total_ordering", "typing.dataclass_transform",
         "types.coroutine", "typing_extensions.final", "typing_extensions.deprecated", "warnings.deprecated", "functools.singledispatch", "atexit.register")
def _ident(m, s, args, kw):
    if not args or not (args[0].op in ("fn", "cls", "prop", "smeth", "cmeth", "bm", "partial", "nat")):
        return mk("nat", "_ident")
    return args[0]


@extcall("typing.get_type_hints", "warnings.warn", "logging.basicConfig", "gc.collect", "warnings.filterwarnings")
def _none(m, s, args, kw):
    return NONE


@extcall("functools.wraps", "functools.update_wrapper")
def _wraps(m, s, args, kw):
    return mk("nat", "_ident")


@extcall("typing.runtime_checkable", "typing_extensions.runtime_checkable")
def _rc(m, s, args, kw):
    cinfo(args[0]).runtime_checkable = True
    return args[0]


@extcall("functools.partial", "functools.partialmethod")
def _partial(m, s, args, kw):
    fn = args[0]
    if fn.op == "partial":
        kk = dict(zip(fn.a[2], fn.a[3].a))
        kk.update(kw)
        return mk("partial", fn.a[0], tup(*fn.a[1].a, *args[1:]), tuple(kk), tup(*kk.values()))
    return mk("partial", fn, tup(*args[1:]), tuple(kw), tup(*kw.values()))


@extcall("functools.cached_property")
def _cprop(m, s, args, kw):
    return mk("cprop", args[0])


@extcall("dataclasses.dataclass")
def _dataclass(m, s, args, kw):
    if args and args[0].op == "cls":
        return make_dataclass(m, s, args[0], kw)
    return mk("partial", mk("nat", "_dataclass_kw"), tup(), tuple(kw), tup(*kw.values()))


@native("_dataclass_kw")
def _dataclass_kw(m, s, args, kw):
    return make_dataclass(m, s, args[0], kw)


@extcall("dataclasses.field")
def _dcfield(m, s, args, kw):
    return mk("dcfield", kw.get("default", NULL), kw.get("default_factory", NULL), kw.get("init") is not FALSE)


@extcall("dataclasses.replace", "copy.replace")
@native("dc_replace")
def _dcreplace(m, s, args, kw):
    ob = m.get(s, args[0])
    cv = ob.a[0]
    vals = {n: v for n, v in zip(ob.a[1], ob.a[2:])}
    names = [f[0] for f in cinfo(cv).dc] if cv.op == "cls" and cinfo(cv).dc else []
    for k in kw:
        if k not in names:
            m.raise_ext(s, "builtins.TypeError", c(f"unexpected keyword {k}"))
    vals = {n: kw.get(n, vals.get(n, NONE)) for n in names}
    return dc_new(m, s, cv, [], vals, ("push",))


@extcall("dataclasses.asdict")
@native("dc_asdict")
def _dcasdict(m, s, args, kw):
    ob = m.get(s, args[0])
    return m.alloc(s, mk("dict", *[mk("kv", c(n), v) for n, v in zip(ob.a[1], ob.a[2:])]))


@native("nt_make")
def _ntmake(m, s, args, kw):
    return dc_new(m, s, args[0], as_segments(m, s, args[1]), {}, ("push",))


@extcall("copy.copy")
def _copycopy(m, s, args, kw):
    v = args[0]
    if v.op == "r" and m.get(s, v).op in ("list", "dict", "set", "inst", "ba"):
        ob = m.get(s, v)
        if ob.op == "inst" and ob.a[0].op == "cls":
            cp = m.lookup(ob.a[0], "__copy__")
            if cp is not None:
                return I.call_into(m, s, cp, [v], {})
        return m.alloc(s, ob)
    return v


@extcall("copy.deepcopy")
def _deepcopy(m, s, args, kw):
    memo = {}

    def cp(v):
        if v.op == "t":
            return tup(*[cp(x) for x in v.a])
        if v.op == "r":
            if v in memo:
                return memo[v]
            ob = m.get(s, v)
            if ob.op in ("list", "dict", "set", "inst", "ba"):
                n = m.alloc(s, ob)
                memo[v] = n
                if ob.op == "inst":
                    m.put(s, n, mk("inst", ob.a[0], ob.a[1], *[cp(x) for x in ob.a[2:]]))
                elif ob.op == "dict":
                    m.put(s, n, mk("dict", *[mk(e.op, *[cp(y) for y in e.a]) for e in ob.a]))
                else:
                    m.put(s, n, mk(ob.op, *[cp(x) for x in ob.a]))
                return n
        return v

    return cp(args[0])


@extcall("struct.pack")
def _spack(m, s, args, kw):
    fmt = args[0]
    args = [as_value(m, s, a) for a in args]
    if all(isc(a) for a in args):
        import struct

        try:
            return c(struct.pack(*[cval(a) for a in args]))
        except struct.error as e:
            m.raise_ext(s, "struct.error", c(str(e)))
    if isc(fmt) and cval(fmt) in (">BI", "!BI"):
        return catb(u8(args[1]), be32(args[2]))
    if isc(fmt) and cval(fmt) in (">I", "!I", ">L", "!L"):
        return be32(args[1])
    if isc(fmt) and cval(fmt) in (">B", "!B", "B"):
        return u8(args[1])
    return o("call", ext("struct.pack"), *args)


@extcall("struct.unpack", "struct.unpack_from")
def _sunpack(m, s, args, kw):
    fmt, data = args[0], as_value(m, s, args[1])
    off = args[2] if len(args) > 2 else ZERO
    if isc(fmt) and cval(fmt) in (">BI", "!BI"):
        return tup(byte_item(m, s, data, off), be_of(bslice(m, s, data, sum_([off], 1), sum_([off], 5))))
    if isc(fmt) and cval(fmt) in (">I", "!I", ">L", "!L"):
        return tup(be_of(bslice(m, s, data, off, sum_([off], 4))))
    if isc(fmt) and cval(fmt) in (">B", "!B", "B"):
        return tup(byte_item(m, s, data, off))
    return o("call", ext("struct.unpack"), *[snap(m, s, a) for a in args])


@extcall("struct.Struct")
def _sstruct(m, s, args, kw):
    return mk("structobj", args[0])


def be_of(v):
    if isc(v):
        return c(int.from_bytes(cval(v), "big"))
    if v.op == "o" and v.a[0] == "be32":
        return v.a[1]
    # slices of at least 4 known bytes longer than the field are shortened
    return o("be", v)


@extcall("builtins.int.from_bytes")
@native("int_from_bytes")
def _ifb(m, s, args, kw):
    v = as_value(m, s, args[0])
    order = args[1] if len(args) > 1 else kw.get("byteorder", c("big"))
    if isc(v) and isc(order):
        return c(int.from_bytes(cval(v), cval(order)))
    if isc(order) and cval(order) == "big":
        return be_of(v)
    return o("int", v, order)


@extcall("inspect.isasyncgen")
def _iag(m, s, args, kw):
    v = args[0]
    if v.op == "r":
        ob = m.get(s, v)
        return b(ob.op == "gen" and ob.a[0] == "agen")
    if v.op == "o":
        return b(m.decide(s, mk("isa", v, ext("types.AsyncGeneratorType"))))
    return FALSE


@extcall("inspect.isgenerator")
def _ig(m, s, args, kw):
    v = args[0]
    if v.op == "r":
        ob = m.get(s, v)
        return b(ob.op == "gen" and ob.a[0] == "gen")
    return FALSE


@extcall("inspect.iscoroutine", "inspect.isawaitable", "asyncio.iscoroutine")
def _ic(m, s, args, kw):
    v = args[0]
    if v.op == "r":
        ob = m.get(s, v)
        if ob.op == "gen":
            return b(ob.a[0] == "coro")
        if ob.op == "inst" and ob.a[0].op == "cls":
            return b(m.lookup(ob.a[0], "__await__") is not None)
    if v.op in ("agm", "anext", "ready"):
        return TRUE
    return FALSE


@extcall("inspect.iscoroutinefunction", "asyncio.iscoroutinefunction")
def _icf(m, s, args, kw):
    v = args[0]
    while v.op in ("bm", "partial"):
        v = v.a[1] if v.op == "bm" else v.a[0]
    return b(v.op == "fn" and v.a[0].kind == "coro")


@extcall("inspect.isasyncgenfunction")
def _iagf(m, s, args, kw):
    v = args[0]
    while v.op in ("bm", "partial"):
        v = v.a[1] if v.op == "bm" else v.a[0]
    return b(v.op == "fn" and v.a[0].kind == "agen")


@extcall("http.HTTPStatus")
def _httpstatus(m, s, args, kw):
    v = args[0]
    if isc(v):
        try:
            return c(http.HTTPStatus(cval(v)))
        except ValueError as e:
            m.raise_ext(s, "builtins.ValueError", c(str(e)))
    if not m.decide(s, mk("ok", ext("http.HTTPStatus"), v)):
        m.raise_ext(s, "builtins.ValueError", c("not a valid HTTPStatus"))
    return mk("hstat", v)


def _quoter(name):
    def quote(m, s, args, kw):
        import urllib.parse

        if all(isc(a) for a in args) and all(isc(v) for v in kw.values()):
            return c(getattr(urllib.parse, name)(*[cval(a) for a in args], **{k: cval(v) for k, v in kw.items()}))
        return o("call", ext("urllib.parse." + name), *[snap(m, s, a) for a in args], *([kwt(m, s, kw)] if kw else []))
    return quote


def _unquoter(name, *inverse_of):
    def unquote(m, s, args, kw):
        v = args[0]
        if isc(v):
            import urllib.parse

            return c(getattr(urllib.parse, name)(cval(v)))
        if v.op == "o" and v.a[0] == "call" and v.a[1].op == "x" and v.a[1].a[0] in inverse_of:
            # quoting is undone unless '%' (or, for unquote_plus, '+') was left alone
            safe = v.a[3] if len(v.a) > 3 else None
            if safe is None or safe.op == "t" and len(safe.a) == 1 and safe.a[0].op == "t" and all(isc(x) for x in safe.a[0].a) and "%" not in cval(safe.a[0].a[1]) and (
                    name == "unquote" or "+" not in cval(safe.a[0].a[1])):
                return v.a[2]
        return o("call", ext("urllib.parse." + name), snap(m, s, v))
    return unquote


EXT_CALLS["urllib.parse.quote"] = _quoter("quote")
EXT_CALLS["urllib.parse.quote_plus"] = _quoter("quote_plus")
EXT_CALLS["urllib.parse.unquote"] = _unquoter("unquote", "urllib.parse.quote")
EXT_CALLS["urllib.parse.unquote_plus"] = _unquoter("unquote_plus", "urllib.parse.quote", "urllib.parse.quote_plus")


@extcall("urllib.parse.urlencode")
def _urlencode(m, s, args, kw):
    v = args[0]
    pairs = None
    if v.op == "r":
        ob = m.get(s, v)
        if ob.op == "dict" and all(x.op == "kv" for x in ob.a):
            pairs = [(x.a[0], x.a[1]) for x in ob.a]
        elif ob.op == "list" and all(x.op == "t" and len(x.a) == 2 for x in ob.a):
            pairs = [x.a for x in ob.a]
    if pairs is None or kw or len(args) > 1 or not all(kind(y) in ("str", "bytes") for x in pairs for y in x):
        return o("call", ext("urllib.parse.urlencode"), *[snap(m, s, a) for a in args], *([kwt(m, s, kw)] if kw else []))
    return o("call", ext("urllib.parse.urlencode"), tup(*[tup(*x) for x in pairs]))


@extcall("urllib.parse.parse_qs")
def _parse_qs(m, s, args, kw):
    v = args[0]
    w = strip_dec(v)
    blank = kw.get("keep_blank_values", args[1] if len(args) > 1 else FALSE)
    rest = {k: x for k, x in kw.items() if k != "keep_blank_values"}
    if isc(v) and isc(blank) and isinstance(cval(v), str) and len(args) <= 2 and all(isc(x) for x in rest.values()):
        import urllib.parse
        try:
            out = urllib.parse.parse_qs(cval(v), keep_blank_values=cval(blank), **{k: cval(x) for k, x in rest.items()})
        except ValueError as e:
            m.raise_ext(s, f"builtins.{type(e).__name__}", c(str(e)))
        return m.alloc(s, mk("dict", *[mk("kv", c(k), m.alloc(s, mk("list", *map(c, ys)), site=f"qs{k}")) for k, ys in out.items()]), site="parse_qs")
    if w.op == "o" and w.a[0] == "call" and w.a[1].op == "x" and w.a[1].a[0] == "urllib.parse.urlencode" and len(w.a) == 3 and w.a[2].op == "t" and isc(blank) and set(rest) <= {"errors", "encoding"} and len(args) <= 2:
        errors = rest.get("errors", c("replace"))
        out = {}
        for x in w.a[2].a:
            k, y = x.a
            if not isc(k):
                break
            if not cval(blank) and not m.truth(s, y):
                continue
            if kind(y) == "bytes":
                # percent-encoded binary data comes out as text
                y = text_method(m, s, y, "bytes", "decode", [errors], {})
            out.setdefault(k, []).append(y)
        else:
            return m.alloc(s, mk("dict", *[mk("kv", k, m.alloc(s, mk("list", *ys), site=f"qs{cval(k)}")) for k, ys in out.items()]), site="parse_qs")
    return o("call", ext("urllib.parse.parse_qs"), *[snap(m, s, a) for a in args], *([kwt(m, s, kw)] if kw else []))


@extcall("base64.b64encode", "base64.urlsafe_b64encode", "base64.standard_b64encode")
def _b64e(m, s, args, kw):
    raise Limit("unreachable")


del EXT_CALLS["base64.b64encode"], EXT_CALLS["base64.urlsafe_b64encode"], EXT_CALLS["base64.standard_b64encode"]


@extcall("traceback.print_exception", "traceback.print_exc", "traceback.format_exception", "traceback.format_exc")
def _tb(m, s, args, kw):
    h = m.hooks.get("traceback")
    if h:
        h(m, s, args, kw)
    about = o("traceback", *[snap(m, s, x) for x in (args or _excinfo(m, s, (), {}).a)])
    f = kw.get("file")
    if f is not None and f.op == "r":
        w = I.getattr_(m, s, f, "write")
        if w is not PENDING:
            r = I.call_into(m, s, w, [about], {})
            return r
    return about


@extcall("sys.exc_info")
def _excinfo(m, s, args, kw):
    for g in reversed(s.frames):
        if g.exc is not NONE:
            e = g.exc
            return tup(m.class_of(s, e) or o("type", e), e, o("tb", e))
    return tup(NONE, NONE, NONE)


@extcall("operator.attrgetter", "operator.itemgetter")
def _opget(m, s, args, kw):
    raise Limit("operator getter")


@extcall("itertools.chain")
def _chain(m, s, args, kw):
    return call_pre(m, s, "_chain", [tup(*args)])


@extcall("itertools.chain.from_iterable")
def _chainfi(m, s, args, kw):
    return call_pre(m, s, "_chain", [args[0]])


@extcall("collections.deque")
def _deque(m, s, args, kw):
    return NATIVES["list"](m, s, args[:1], {})


@extcall("collections.OrderedDict")
def _od(m, s, args, kw):
    return NATIVES["dict"](m, s, args, kw)


@extcall("types.MappingProxyType")
def _mpt(m, s, args, kw):
    return args[0]


@extcall("operator.eq")
def _opeq(m, s, args, kw):
    return b(m.eq(s, args[0], args[1]))


# ================================================================ builtins
@native("_ident")
def _n_ident(m, s, args, kw):
    return args[0]


@native("_noop")
def _n_noop(m, s, args, kw):
    return NONE


@native("_ident_eq")
def _n_ieq(m, s, args, kw):
    return b(args[0] is args[1])


@native("_obj_new")
def _n_objnew(m, s, args, kw):
    return m.new_inst(s, args[0])


@native("_exc_init")
def _n_excinit(m, s, args, kw):
    m.setfield(s, args[0], "args", tup(*args[1:]))
    return NONE


@native("__build_class__")
def _bc(m, s, args, kw):
    return I.build_class(m, s, args, kw)


@native("isinstance")
def _n_isinstance(m, s, args, kw):
    k = norm_cls(args[1])
    return b(m.isinstance_(s, args[0], k))


def norm_cls(k):
    """Type objects written as natives (str, int, ...) become external class values."""
    if k.op == "nat":
        return ext("builtins." + k.a[0])
    if k.op == "t":
        return tup(*[norm_cls(x) for x in k.a])
    if k.op == "union":
        return mk("union", *[norm_cls(x) for x in k.a])
    return k


@native("issubclass")
def _n_issub(m, s, args, kw):
    k = norm_cls(args[1])
    ks = k.a if k.op == "t" else (k,)
    a = norm_cls(args[0])
    if a.op == "o":
        return b(any(m.decide(s, mk("issub", a, x)) for x in ks))
    return b(any(m.subclass(a, x) for x in ks))


@native("len")
def _n_len(m, s, args, kw):
    v = args[0]
    if v.op == "r":
        ob = m.get(s, v)
        if ob.op == "inst" and ob.a[0].op == "cls":
            a = m.lookup(ob.a[0], "__len__")
            if a is not None:
                return I.call_into(m, s, a, [v], {})
    return length(m, s, v)


@native("getattr")
def _n_getattr(m, s, args, kw):
    if not isc(args[1]):
        return o("attr", args[0], "?")
    return I.getattr_(m, s, args[0], cval(args[1]), args[2] if len(args) > 2 else None)


@native("hasattr")
def _n_hasattr(m, s, args, kw):
    v, n = args[0], cval(args[1])
    if v.op == "o":
        k = kind(v)
        if k in ("str", "bytes", "int", "float", "bool"):
            return b(hasattr({"str": str, "bytes": bytes, "int": int, "float": float, "bool": bool}[k], n))
        return b(m.decide(s, mk("hasattr", v, args[1])))
    if v.op == "r":
        ob = m.get(s, v)
        if ob.op == "inst":
            if m.field(ob, n) is not None:
                return TRUE
            if ob.a[0].op == "cls":
                if m.lookup(ob.a[0], n) is not None:
                    return TRUE
            return b(inst_attr(m, s, v, ob, n) is not None)
        return b(obj_attr(m, s, v, ob, n) is not None)
    mark = mk("nohas")
    r = I.getattr_(m, s, v, n, mark)
    if r is PENDING:
        s.frames.pop()
        return TRUE
    return b(r is not mark)


@native("setattr")
def _n_setattr(m, s, args, kw):
    if not isc(args[1]):
        raise Limit("setattr with unknown name")
    r = I.setattr_(m, s, args[0], cval(args[1]), args[2])
    if r is PENDING:
        s.frames[-1].tag = ("init", NONE)
        return PENDING
    return NONE


@native("_raw_setattr")
def _n_rawset(m, s, args, kw):
    m.setfield(s, args[0], cval(args[1]), args[2])
    return NONE


@native("delattr")
def _n_delattr(m, s, args, kw):
    return NONE


@native("str")
def _n_str(m, s, args, kw):
    if not args:
        return EMPTY_STR
    if len(args) > 1 or kw:
        v = as_value(m, s, args[0])
        return call_method(m, s, v, "decode", args[1:], kw)
    return str_(m, s, args[0])


@native("repr", "ascii")
def _n_repr(m, s, args, kw):
    v = args[0]
    if v.op == "r":
        ob = m.get(s, v)
        if ob.op == "inst" and ob.a[0].op == "cls":
            a = m.lookup(ob.a[0], "__repr__")
            if a is not None:
                return I.call_into(m, s, a, [v], {})
    return repr_(m, s, v)


@native("format")
def _n_format(m, s, args, kw):
    if len(args) == 1:
        return str_(m, s, args[0])
    return o("fmt", snap(m, s, args[0]), args[1])


@native("bytes")
def _n_bytes(m, s, args, kw):
    if not args:
        return EMPTY_BYTES
    v = as_value(m, s, args[0])
    if len(args) > 1 or kw:
        return call_method(m, s, v, "encode", args[1:], kw)
    if isc(v):
        try:
            return c(bytes(cval(v)))
        except (TypeError, ValueError) as e:
            m.raise_ext(s, "builtins." + type(e).__name__, c(str(e)))
    if v.op == "r":
        ob = m.get(s, v)
        if ob.op == "list":
            if all(x.op != "star" for x in ob.a):
                return catb(*[u8(x) for x in ob.a])
            return o("tobytes", snap(m, s, v))
        if ob.op == "inst" and ob.a[0].op == "cls":
            a = m.lookup(ob.a[0], "__bytes__")
            if a is not None:
                return I.call_into(m, s, a, [v], {})
        if ob.op == "inst":
            m.raise_ext(s, "builtins.TypeError", c("cannot convert to bytes"))
    if v.op == "t":
        return catb(*[u8(x) for x in v.a])
    if kind(v) in ("bytes",):
        return v
    if kind(v) == "str":
        m.raise_ext(s, "builtins.TypeError", c("string argument without an encoding"))
    return v


@native("bytearray")
def _n_bytearray(m, s, args, kw):
    if not args:
        return m.alloc(s, mk("ba", EMPTY_BYTES))
    r = _n_bytes(m, s, args, kw)
    if r is PENDING:
        return r
    return m.alloc(s, mk("ba", r))


@native("memoryview")
def _n_mv(m, s, args, kw):
    return as_value(m, s, args[0])


@native("int")
def _n_int(m, s, args, kw):
    if not args:
        return ZERO
    v = as_value(m, s, args[0])
    if isc(v):
        try:
            return c(int(cval(v), *[cval(a) for a in args[1:]]))
        except (ValueError, TypeError) as e:
            m.raise_ext(s, "builtins." + type(e).__name__, c(str(e)))
    if v.op == "enum":
        return v.a[2]
    k = kind(v)
    if k == "int" or k == "bool":
        return v
    if k == "NoneType" or (nullable(v) and k != "any" and m.is_none(s, v)):
        m.raise_ext(s, "builtins.TypeError", c("int() argument must not be None"))
    if k.rstrip("?") in ("str", "bytes"):
        # int(str(x)) == x
        if v.op == "o" and v.a[0] == "str" and kind(v.a[1]) == "int":
            return v.a[1]
        def says(name):
            return m.known(s, mk("truthy", o("m", name, v))) is True

        if says("isdecimal") or says("isdigit") and says("isascii"):
            return o("int", v)
        if not m.decide(s, mk("isint", v)):
            m.raise_ext(s, "builtins.ValueError", cat(c("invalid literal for int(): "), v))
        return o("int", v)
    return o("int", v)


@native("float")
def _n_float(m, s, args, kw):
    v = args[0] if args else c(0.0)
    if isc(v):
        try:
            return c(float(cval(v)))
        except (ValueError, TypeError) as e:
            m.raise_ext(s, "builtins." + type(e).__name__, c(str(e)))
    if kind(v) == "float":
        return v
    if kind(v) == "str":
        if not m.decide(s, mk("isfloat", v)):
            m.raise_ext(s, "builtins.ValueError", c("could not convert string to float"))
    return o("float", v)


@native("bool")
def _n_bool(m, s, args, kw):
    if not args:
        return FALSE
    v = args[0]
    if v.op == "r":
        ob = m.get(s, v)
        if ob.op == "inst" and ob.a[0].op == "cls":
            for n in ("__bool__", "__len__"):
                a = m.lookup(ob.a[0], n)
                if a is not None:
                    if n == "__len__":
                        return call_pre(m, s, "_len_bool", [v])
                    return I.call_into(m, s, a, [v], {})
    return b(m.truth(s, v))


@native("abs")
def _n_abs(m, s, args, kw):
    v = args[0]
    return c(abs(cval(v))) if isc(v) else o("num", "abs", v)


@native("round")
def _n_round(m, s, args, kw):
    if all(isc(a) for a in args):
        return c(round(*[cval(a) for a in args]))
    return o("int", *args) if len(args) == 1 else o("num", "round", *args)


@native("divmod")
def _n_divmod(m, s, args, kw):
    x, y = args
    return tup(I.binop(m, s, "//", x, y), I.binop(m, s, "%", x, y))


@native("pow")
def _n_pow(m, s, args, kw):
    return I.binop(m, s, "**", args[0], args[1])


@native("iter")
def _n_iter(m, s, args, kw):
    v = args[0]
    if len(args) == 2:
        return call_pre(m, s, "_iter_sentinel", args)
    if v.op == "r":
        ob = m.get(s, v)
        if ob.op == "inst" and ob.a[0].op == "cls":
            a = m.lookup(ob.a[0], "__iter__")
            if a is not None:
                return I.call_into(m, s, a, [v], {})
    return get_iter(m, s, v)


@native("aiter")
def _n_aiter(m, s, args, kw):
    v = args[0]
    if v.op == "r":
        ob = m.get(s, v)
        if ob.op == "inst" and ob.a[0].op == "cls":
            a = m.lookup(ob.a[0], "__aiter__")
            if a is None:
                m.raise_ext(s, "builtins.TypeError", c("not an async iterable"))
            return I.call_into(m, s, a, [v], {})
        if ob.op == "gen" and ob.a[0] == "agen":
            return v
        m.raise_ext(s, "builtins.TypeError", c("not an async iterable"))
    return v


@native("anext")
def _n_anext(m, s, args, kw):
    v = args[0]
    if v.op == "r":
        ob = m.get(s, v)
        if ob.op == "inst" and ob.a[0].op == "cls":
            a = m.lookup(ob.a[0], "__anext__")
            if len(args) > 1:
                return call_pre(m, s, "_anext_default", args)
            return I.call_into(m, s, a, [v], {})
        if ob.op == "gen":
            if len(args) > 1:
                return mk("agm", "anextd", v, args[1])
            return mk("anext", v)
    return mk("anext", v)


@native("next")
def _n_next(m, s, args, kw):
    it = args[0]
    if it.op == "r":
        ob = m.get(s, it)
        if ob.op == "gen":
            I.resume(m, s, it, NONE, "next", extra=(args[1],) if len(args) > 1 else ())
            return PENDING
        if ob.op == "inst" and ob.a[0].op == "cls":
            a = m.lookup(ob.a[0], "__next__")
            if a is None:
                m.raise_ext(s, "builtins.TypeError", c("not an iterator"))
            return I.call_into(m, s, a, [it], {}, ("next_default", args[1]) if len(args) > 1 else ("push",))
        if ob.op not in ("liter", "oiter"):
            m.raise_ext(s, "builtins.TypeError", c("not an iterator"))
        r = iter_next(m, s, it)
        if r is I.STOP:
            if len(args) > 1:
                return args[1]
            m.raise_ext(s, "builtins.StopIteration")
        return r
    if it.op == "o":
        if m.choice(s, 2) == 0:
            if len(args) > 1:
                return args[1]
            m.raise_ext(s, "builtins.StopIteration")
        e = o("elem", it)
        m.fresh(s, e)
        return e
    m.raise_ext(s, "builtins.TypeError", c("not an iterator"))


@native("reversed")
def _n_rev(m, s, args, kw):
    v = args[0]
    if v.op == "r":
        ob = m.get(s, v)
        if ob.op == "gen":
            m.raise_ext(s, "builtins.TypeError", c("generator is not reversible"))
        if ob.op == "inst" and ob.a[0].op == "cls":
            a = m.lookup(ob.a[0], "__reversed__")
            if a is not None:
                return I.call_into(m, s, a, [v], {})
    segs = as_segments(m, s, v)
    if segs is None:
        m.raise_ext(s, "builtins.TypeError", c("not reversible"))
    return m.alloc(s, mk("liter", *reversed(segs)))


@native("range")
def _n_range(m, s, args, kw):
    if all(isc(a) for a in args):
        r = range(*[cval(a) for a in args])
        if len(r) <= 64:
            return mk("rng", *args)
    return o("in", f"range{[repr(a) for a in args]}", "list:int")


@native("slice")
def _n_slice(m, s, args, kw):
    if len(args) == 1:
        return mk("slc", NONE, args[0], NONE)
    return mk("slc", args[0], args[1], args[2] if len(args) > 2 else NONE)


def _drain(name):
    def fn(m, s, args, kw):
        if args and args[0].op == "r":
            ob = m.get(s, args[0])
            if ob.op == "gen" or ob.op == "inst":
                segs = as_segments(m, s, args[0])
                if segs is None:
                    return call_pre(m, s, "_mk_" + name, [args[0]])
        segs = as_segments(m, s, args[0]) if args else []
        if name == "list":
            return m.alloc(s, mk("list", *segs))
        if name == "tuple":
            if any(x.op == "star" for x in segs):
                src = args[0]
                return o("L", *segs)
            return tup(*segs)
        return m.alloc(s, mk("set", *dict.fromkeys(segs)))
    return fn


NATIVES["list"] = _drain("list")
NATIVES["tuple"] = _drain("tuple")
NATIVES["set"] = _drain("set")
NATIVES["frozenset"] = _drain("set")
for _n in ("list", "tuple", "set", "frozenset"):
    BUILTINS[_n] = mk("nat", _n)


@native("dict")
def _n_dict(m, s, args, kw):
    d = mk("dict")
    if args:
        v = args[0]
        if v.op == "r":
            ob = m.get(s, v)
            if ob.op == "inst" or ob.op == "gen":
                if as_segments(m, s, v) is None:
                    if ob.op == "inst" and m.lookup(ob.a[0], "keys") is not None:
                        return call_pre(m, s, "_dict_from_map", [v])
                    return call_pre(m, s, "_dict_from_iter", [v])
        if v.op == "dview":
            v2 = m.alloc(s, mk("list", *as_segments(m, s, v)))
            d = dict_update(m, s, d, v2)
        else:
            d = dict_update(m, s, d, v)
    for k, v in kw.items():
        d = dict_set(d, c(k), v)
    return m.alloc(s, d)


@native("type")
def _n_type(m, s, args, kw):
    if len(args) == 1:
        r = m.class_of(s, args[0])
        return r if r is not None else o("type", args[0])
    raise Limit("type() with three arguments")


@native("super")
def _n_super(m, s, args, kw):
    if args:
        return mk("super", args[0], args[1])
    raise Limit("super() called indirectly")


@native("property")
def _n_prop(m, s, args, kw):
    return mk("prop", args[0] if args else kw.get("fget", NONE), args[1] if len(args) > 1 else kw.get("fset", NONE))


@native("staticmethod")
def _n_sm(m, s, args, kw):
    return mk("smeth", args[0])


@native("classmethod")
def _n_cm(m, s, args, kw):
    return mk("cmeth", args[0])


@native("callable")
def _n_callable(m, s, args, kw):
    v = args[0]
    if v.op in ("fn", "bm", "partial", "nat", "natm", "cls", "x"):
        return TRUE
    if v.op == "r":
        ob = m.get(s, v)
        return b(ob.op == "inst" and ob.a[0].op == "cls" and m.lookup(ob.a[0], "__call__") is not None)
    if v.op == "o":
        return b(m.decide(s, mk("callable", v)))
    return FALSE


@native("id", "hash")
def _n_id(m, s, args, kw):
    return o("int", o("id", args[0]))


@native("print")
def _n_print(m, s, args, kw):
    f = kw.get("file")
    if f is not None and f.op == "r":
        w = I.getattr_(m, s, f, "write")
        if w is not PENDING:
            return I.call_into(m, s, w, [o("printed", *[snap(m, s, a) for a in args])], {})
    return NONE


@native("min", "max")
def _n_minmax(m, s, args, kw):
    raise Limit("min/max")


def _minmax(which):
    def fn(m, s, args, kw):
        xs = args
        if len(args) == 1:
            xs = as_segments(m, s, args[0])
            if xs is None or any(x.op == "star" for x in xs):
                return o("num", which, snap(m, s, args[0]))
        if "key" in kw:
            return o("num", which, *[snap(m, s, x) for x in xs])
        if not xs:
            if "default" in kw:
                return kw["default"]
            m.raise_ext(s, "builtins.ValueError", c("empty"))
        r = xs[0]
        for x in xs[1:]:
            if which == "min":
                r = x if m.lt(s, x, r) else r
            else:
                r = x if m.lt(s, r, x) else r
        return r
    return fn


NATIVES["min"] = _minmax("min")
NATIVES["max"] = _minmax("max")


def _of_number(name, fn):
    @native(name)
    def f(m, s, args, kw):
        if len(args) == 1 and isc(args[0]):
            try:
                return c(fn(cval(args[0])))
            except (TypeError, ValueError, OverflowError) as e:
                m.raise_ext(s, "builtins." + type(e).__name__, c(str(e)))
        return o("call", ext("builtins." + name), *args)


for _x in (ord, chr, hex, oct, bin):
    _of_number(_x.__name__, _x)


@native("vars", "dir", "globals", "locals")
def _n_vars(m, s, args, kw):
    return m.alloc(s, mk("dict", mk("all", o("vars", *args))))


@native("open", "exec", "eval", "compile", "__import__", "input")
def _n_open(m, s, args, kw):
    return o("call", ext("builtins.open"), *[snap(m, s, a) for a in args])


# ================================================================ harness intrinsics
@native("__opaque__")
def _i_opaque(m, s, args, kw):
    return inp(cval(args[0]), cval(args[1]) if len(args) > 1 else "any")


@native("__limit__")
def _i_limit(m, s, args, kw):
    """The harness cannot say what happens here."""
    raise Limit(str(cval(args[0])))


@native("__lacks__")
def _i_lacks(m, s, args, kw):
    """Declares that an opaque text of the harness does not contain the given characters."""
    CLEAN[args[0].a[1]] = frozenset(cval(args[1]))
    return args[0]


@native("__event_value__")
def _i_ev(m, s, args, kw):
    """A value produced afresh by the environment at this point."""
    t = o("ev", cval(args[0]), cval(args[1]) if len(args) > 1 else "any")
    m.fresh(s, t)
    return t


@native("__term__")
def _i_term(m, s, args, kw):
    return o("term:" + cval(args[0]), *[snap(m, s, a) for a in args[1:]])


@native("__fn__")
def _i_fn(m, s, args, kw):
    """__fn__(name, kind, *args): result of a pure opaque function of the given kind."""
    return o("ap", cval(args[0]), cval(args[1]), *[snap(m, s, a) for a in args[2:]])


@native("__choose__")
def _i_choose(m, s, args, kw):
    n = cval(args[0])
    if n == 1:
        return ZERO
    return c(m.choice(s, n, cval(args[1]) if len(args) > 1 else None))


@native("__exc__")
def _i_exc(m, s, args, kw):
    e = inp(cval(args[0]), "exc")
    m.setfact(s, mk("isa", e, ext("builtins.Exception")), True)
    return e


@native("__event__")
def _i_event(m, s, args, kw):
    h = m.hooks.get("event")
    if h:
        h(m, s, cval(args[0]), args[1:])
    m.note(s, "event " + ", ".join(repr(snap(m, s, a)) for a in args))
    return NONE


@native("__note__")
def _i_note(m, s, args, kw):
    m.note(s, " ".join(cval(a) if isc(a) and isinstance(cval(a), str) else repr(snap(m, s, a))[:300] for a in args))
    return NONE


@native("__violation__")
def _i_viol(m, s, args, kw):
    msg = " ".join(cval(a) if isc(a) and isinstance(cval(a), str) else repr(snap(m, s, a))[:600] for a in args[1:])
    if m.on_violation is None:
        raise Violation(cval(args[0]), msg, m.repo_where(s))
    m.on_violation(s, cval(args[0]), m.repo_where(s), msg)
    return NONE


@native("__paths__")
def _i_paths(m, s, args, kw):
    """States of this driver are kept apart up to n per program point (merging begins after that)."""
    m.k_join = cval(args[0])
    return NONE


@native("__same__")
def _i_same(m, s, args, kw):
    """Whether two values are certainly the same."""
    return b(args[0] is args[1])


@native("__mark__")
def _i_mark(m, s, args, kw):
    """Remember the whole heap, to be brought back by __rewind__."""
    m.marks.append(dict(s.heap))
    return c(len(m.marks) - 1)


@native("__rewind__")
def _i_rewind(m, s, args, kw):
    """Undo every change to an object that existed at the mark; the second argument (immutable) survives."""
    h = m.marks[cval(args[0])]
    new = {r: v for r, v in s.heap.items() if r not in m.base}
    new.update(h)
    s.heap = new
    s.hown = True
    return args[1]


@native("__precise__")
def _i_precise(m, s, args, kw):
    """The code of these harness functions and classes is analysed path by path for longer before merging."""
    for a in args:
        if a.op == "fn":
            m.precise.add(cinfo_code(a))
        elif a.op == "cls":
            for v in cinfo(a).ns.values():
                if v.op == "fn":
                    m.precise.add(cinfo_code(v))
    return NONE


def cinfo_code(v):
    return v.a[0].a[1] if type(v.a[0]) is V and v.a[0].op == "code" else v.a[0]


@native("__cover__")
def _i_cover(m, s, args, kw):
    k = " ".join(str(cval(a)) if isc(a) else repr(a) for a in args)
    m.covered[k] = m.covered.get(k, 0) + 1
    return NONE


@native("__assume__")
def _i_assume(m, s, args, kw):
    if not m.truth(s, args[0]):
        raise Pruned()
    return NONE


@native("__prune__")
def _i_prune(m, s, args, kw):
    raise Pruned()


@native("__same__")
def _i_same(m, s, args, kw):
    x, y = snap(m, s, args[0]), snap(m, s, args[1])
    if vague(x) or vague(y):
        return FALSE
    if x is y:
        return TRUE
    if isc(x) and isc(y):
        return b(cval(x) == cval(y))
    if m.known(s, _eqatom(x, y)) is True:
        return TRUE
    return FALSE


@native("__isconst__")
def _i_isconst(m, s, args, kw):
    return b(isc(args[0]))


@native("__snap__")
def _i_snap(m, s, args, kw):
    return snap(m, s, args[0])


@native("__repr_of__")
def _i_reprof(m, s, args, kw):
    return c(repr(snap(m, s, args[0])))


@native("__kindof__")
def _i_kindof(m, s, args, kw):
    return c(kind(args[0]) if args[0].op not in ("r",) else m.get(s, args[0]).op)


@native("__json_loads__")
def _n_json_loads(m, s, args, kw):
    return call_ext(m, s, ext("json.loads"), args, kw)


@native("__json_is_written__")
def _n_json_written(m, s, args, kw):
    """Whether the text was produced by json.dumps of the same program."""
    v = strip_dec(snap(m, s, args[0]))
    return b(v.op == "o" and v.a[0] == "call" and v.a[1].op == "x" and v.a[1].a[0] == "json.dumps")


@native("__undecoded__")
def _i_undecoded(m, s, args, kw):
    """The bytes that a text is the UTF-8 decoding of, or the value itself."""
    v = snap(m, s, args[0])
    if v.op == "o" and v.a[0] == "m" and v.a[1] == "decode" and len(v.a) == 3:
        return v.a[2]
    return args[0]


@native("__unfn__")
def _i_unfn(m, s, args, kw):
    """The arguments of an application of the named unknown function, or None."""
    v = snap(m, s, args[0])
    if v.op == "o" and v.a[0] == "ap" and v.a[1] == cval(args[1]):
        return tup(*v.a[3:])
    return NONE


@native("__mentions__")
def _i_mentions(m, s, args, kw):
    return b(snap(m, s, args[1]) in deep(snap(m, s, args[0])))


@native("__known__")
def _i_known(m, s, args, kw):
    """Definite truth of a value: True / False / None (no fork)."""
    v = args[0]
    if isc(v):
        return v
    raise Limit("__known__ of non constant")


@native("__where__")
def _i_where(m, s, args, kw):
    return c(m.where(s))


@native("__gen_state__")
def _i_gstate(m, s, args, kw):
    v = args[0]
    if v.op == "r" and m.get(s, v).op == "gen":
        return c(m.get(s, v).a[1])
    return c("none")


@native("__track__")
def _i_track(m, s, args, kw):
    for a in args:
        m.tracked.add(a)
    return NONE


def const_of(x):
    if isinstance(x, (tuple, list)):
        return tup(*map(const_of, x))
    return c(x)


@native("__re__")
def _i_re(m, s, args, kw):
    """Regular expressions on constants: folded."""
    import re

    how, pattern, flags, *rest = [cval(a) for a in args]
    try:
        p = re.compile(pattern, flags)
        if how == "info":
            return const_of((p.groups, tuple(p.groupindex.items())))
        if how in ("match", "fullmatch", "search"):
            r = getattr(p, how)(rest[0])
            return NONE if r is None else const_of((r.span(), (r.group(0), *r.groups())))
        if how == "finditer":
            return const_of([(r.span(), (r.group(0), *r.groups())) for r in p.finditer(rest[0])])
        if how == "sub":
            return c(p.sub(rest[1], rest[0], rest[2]))
        if how == "split":
            return const_of(p.split(rest[0], rest[1]))
        if how == "findall":
            return const_of(p.findall(rest[0]))
        if how == "escape":
            return c(re.escape(rest[0]))
    except (re.error, TypeError, ValueError) as e:
        m.raise_ext(s, "builtins.ValueError", c(str(e)))
    raise Limit("re: " + how)


@native("__load__")
def _i_load(m, s, args, kw):
    """Loads a module from source text that the analysed code produced; None, or what is wrong with it."""
    import hashlib

    text, name = cval(args[0]), cval(args[1])
    if not isinstance(text, str) or not isinstance(name, str):
        raise Limit("module text that is not known")
    key = hashlib.sha256(text.encode()).hexdigest()[:12]
    if m.loaded.get(name) == key:
        return NONE
    if name in m.loaded:
        raise Limit(f"two different modules {name}")
    try:
        m.load_module(name, text, f"<generated {name}>", name)
    except SyntaxError as e:
        return c(f"{e.msg}: {(e.text or '').strip()}")
    except Limit as e:
        if "raises while it is imported" in str(e):
            return c(str(e))
        raise
    m.loaded[name] = key
    m.modmap[name] = f"<generated {name}>"
    return NONE


@native("__module__")
def _i_module(m, s, args, kw):
    return mk("mod", cval(args[0]))
