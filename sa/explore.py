"""Fixpoint exploration: property-simulation over abstract states with merging and widening at merge points."""

from __future__ import annotations

import os
import time

from .interp import step
from .machine import Fork, Frame, Limit, Pruned, S, Violation, cinfo
from .values import (
    V, mk, o, c, tup, NONE, TRUE, FALSE, UNB, isc, cval, kind, deep, subst, leaves, star, LEAF_O, vague,
)


class Result:
    def __init__(self):
        self.violations = {}  # (rule, where, msg) -> trace
        self.limits = {}
        self.ends = {}
        self.states = 0
        self.steps = 0
        self.merged = 0
        self.dropped = 0
        self.incomplete = False
        self.last = None
        self.wall = 0.0


def refs_of(v):
    r = _refs.get(v)
    if r is None:
        r = _refs[v] = frozenset(x for x in deep(v) if x.op == "r")
    return r


_refs: dict = {}


def gc(m, s):
    """Drop unreachable heap objects and facts about dead values."""
    seen = set()
    todo = []
    roots = []
    for f in s.frames:
        roots.extend(f.loc)
        roots.extend(f.stk)
        roots.append(f.exc)
        for z in f.tag:
            if type(z) is V:
                roots.append(z)
        if type(f.aux) is V:
            roots.append(f.aux)
        if type(f.ns) is V:
            roots.append(f.ns)
    for r in s.heap:
        if r.a[0].startswith("glob:") or r in m.base:
            seen.add(r)
            todo.append(r)
    for v in roots:
        for r in refs_of(v):
            if r not in seen:
                seen.add(r)
                todo.append(r)
    live_terms = set()
    for v in roots:
        live_terms |= leaves_all(v)
    while todo:
        r = todo.pop()
        ob = s.heap.get(r)
        if ob is None:
            continue
        live_terms |= leaves_all(ob)
        for q in refs_of(ob):
            if q not in seen:
                seen.add(q)
                todo.append(q)
    if len(seen) < len(s.heap):
        s.heap = {r: v for r, v in s.heap.items() if r in seen}
    s.hown = True
    if s.facts:
        live_terms |= m.base_leaves
        nf = {}
        for a, v in s.facts.items():
            if all(l in live_terms or l.op == "r" and (l in seen or l in m.base) for l in leaves(a)):
                nf[a] = v
        if len(nf) != len(s.facts):
            s.facts = nf
            s.fown = True


_la: dict = {}


def leaves_all(v):
    """Leaf terms occurring anywhere below v."""
    r = _la.get(v)
    if r is None:
        r = _la[v] = frozenset(x for x in deep(v) if x.op == "r" or (x.op == "o" and x.a[0] in LEAF_O))
    return r


def sigv(v, loop):
    op = v.op
    if op == "c":
        t = v.a[0]
        if t in ("NoneType", "bool"):
            return v
        if t == "int":
            x = v.a[1]
            return v if 0 <= x <= 3 or not loop else "int"
        if t in ("str",):
            return v
        if t == "bytes":
            return "bytes"
        return v
    if op == "t":
        return ("t",) + tuple(sigv(x, loop) for x in v.a)
    if op == "o":
        return v if written(v) else "o"
    if op == "kv":
        return ("kv", sigv(v.a[0], False), sigv(v.a[1], loop))
    if op in ("r", "cls", "enum", "fn", "x", "nat", "null", "unb", "mod"):
        return v
    if op == "bm":
        return ("bm", sigv(v.a[0], loop), sigv(v.a[1], loop))
    if op == "star":
        return "star"
    if op == "fr":
        return ("fr", v.a[0], v.a[1], tuple(sigv(x, loop) for x in v.a[3].a), tuple(sigv(x, loop) for x in v.a[4].a), sigv(v.a[5], loop))
    if op == "partial":
        return ("p", sigv(v.a[0], loop), sigv(v.a[1], loop), v.a[2], sigv(v.a[3], loop))
    if op == "fset":
        return v
    return (op, tuple(sigv(x, loop) if type(x) is V else x if not isinstance(x, tuple) else tuple(x) for x in v.a))


def sig_obj(ob, loop):
    op = ob.op
    if op == "inst":
        return ("inst", ob.a[0], ob.a[1], tuple(sigv(x, loop) for x in ob.a[2:]))
    if op == "list" or op == "liter":
        # element shapes: kept exactly at joins; lengths are abstracted inside loops by widening
        return (op, len(ob.a) if not any(x.op == "star" for x in ob.a) else "*", tuple(sigv(x, loop) for x in ob.a) if len(ob.a) <= 6 else "many")
    if op == "dict":
        return ("dict", tuple(sigv(e, loop) for e in ob.a))
    if op == "ba":
        return ("ba", "e" if (isc(ob.a[0]) and not cval(ob.a[0])) else "o")
    if op == "gen":
        return ("gen", ob.a[0], ob.a[1], sigv(ob.a[2], loop))
    if op == "cell":
        return ("cell", sigv(ob.a[0], loop))
    if op == "set":
        return ("set", len(ob.a))
    return (op,) + tuple(sigv(x, loop) for x in ob.a if type(x) is V)


def finite_iter(m, s, v, depth=0):
    """Whether v iterates over a sequence of known elements."""
    if type(v) is not V or v.op != "r" or depth > 6:
        return False
    ob = s.heap.get(v)
    if ob is None:
        return False
    if ob.op == "liter":
        return len(ob.a) <= 32 and not any(x.op == "star" for x in ob.a)
    if ob.op == "gen" and ob.a[0] == "gen" and ob.a[2].op == "fr":
        fr = ob.a[2]
        return any(finite_iter(m, s, x, depth + 1) for x in (fr.a[4].a or fr.a[3].a))
    return False


def coarse_obj(ob):
    """Shape for loop keys: list lengths are ignored."""
    op = ob.op
    if op == "liter" and len(ob.a) <= 32 and not any(x.op == "star" for x in ob.a):
        return (op, len(ob.a))  # a loop over a known finite sequence is not summarised
    if op in ("list", "liter"):
        return (op,)
    return sig_obj(ob, True)


def frozen(s):
    fr = tuple((f.code, f.pc, f.tag, f.ns, f.exc, f.aux, tuple(f.loc), tuple(f.stk)) for f in s.frames)
    hp = tuple(sorted(s.heap.items(), key=_rk))
    return fr, hp


_rkc: dict = {}


def _rk(p):
    k = _rkc.get(p[0])
    if k is None:
        k = _rkc[p[0]] = (p[0].a[0], p[0].a[1])
    return k


def strict_refs(m, s):
    """Containers held by harness automata: never summarised."""
    out = set()
    for r, ob in s.heap.items():
        if ob.op == "inst" and m.is_identity(ob.a[0]):
            todo = [x for x in ob.a[2:] if type(x) is V and x.op == "r"]
            while todo:
                q = todo.pop()
                qb = s.heap.get(q)
                if qb is not None and qb.op in ("list", "dict") and q not in out:
                    out.add(q)
                    todo.extend(refs_of(qb))
    return out


_sig0: dict = {}
_sig1: dict = {}


def key_of(m, s, loop):
    out = []
    strict = strict_refs(m, s) if loop else ()
    for f in s.frames:
        out.append((f.code, f.pc, f.tag[0], tuple(sigv(v, loop) for v in f.loc), tuple(sigv(v, loop) for v in f.stk), sigv(f.exc, loop)))
    h = []
    # objects reachable only as elements of a summarisable container do not take part in the key
    seen = set()
    todo = []
    for f in s.frames:
        for vs in (f.loc, f.stk):
            for v in vs:
                todo.extend(refs_of(v))
        todo.extend(refs_of(f.exc))
        for z in f.tag:
            if type(z) is V:
                todo.extend(refs_of(z))
        if type(f.aux) is V:
            todo.extend(refs_of(f.aux))
        if type(f.ns) is V:
            todo.extend(refs_of(f.ns))
    base = m.base
    for r in s.heap:
        if r in base or r.a[0].startswith("glob:"):
            todo.append(r)
    while todo:
        r = todo.pop()
        if r in seen:
            continue
        seen.add(r)
        ob = s.heap.get(r)
        if ob is None or ob.op in ("list", "liter", "set") and (loop or len(ob.a) > 6):
            continue
        todo.extend(refs_of(ob))
    for r, ob in sorted([p for p in s.heap.items() if p[0] in seen], key=_rk):
        if not loop or r in strict:
            g = _sig0.get(ob)
            if g is None:
                g = _sig0[ob] = sig_obj(ob, False)
        else:
            g = _sig1.get(ob)
            if g is None:
                g = _sig1[ob] = coarse_obj(ob)
        h.append((r, g))
    tr = ()
    if m.tracked:
        tr = tuple(sorted(((repr(a), v) for a, v in s.facts.items() if any(x in m.tracked for x in a.a if type(x) is V)), key=repr))
    return tuple(out), tuple(h), tr


# ---------------------------------------------------------------- joins
class NoJoin(Exception):
    pass


class KeepApart(NoJoin):
    """Values that are never summarised, not even as elements of a container."""


_wr: dict = {}


def written(v):
    """Whether v contains a text written by json.dumps."""
    r = _wr.get(v)
    if r is None:
        r = _wr[v] = any(z.op == "o" and z.a[0] == "call" and z.a[1].op == "x" and z.a[1].a[0] == "json.dumps" for z in deep(v))
    return r


class Joiner:
    def __init__(self, m, key_id, a, b):
        self.m, self.kid = m, key_id
        self.pairs = {}
        self.strict = False

    def phi(self, slot, x, y):
        kx, ky = kind(x), kind(y)
        if kx == ky:
            k = kx
        elif kx == "NoneType" or ky == "NoneType":
            k = ky if kx == "NoneType" else kx
            if k != "any" and not k.endswith("?"):
                k += "?"
        elif {kx, ky} <= {"int", "num", "float"}:
            k = "num"
        elif kx.rstrip("?") == ky.rstrip("?"):
            k = kx.rstrip("?") + "?"
        else:
            k = "any"
        t = o("phi", f"{self.kid}:{slot}", k)
        # keep the kind stable: an existing phi of the same label absorbs
        for z in (x, y):
            if z.op == "o" and z.a[0] == "phi" and z.a[1] == t.a[1]:
                if z is not t:
                    k2 = z.a[2]
                    if k2 != k:
                        t = o("phi", t.a[1], k if k2.rstrip("?") == k.rstrip("?") and k.endswith("?") else ("any" if k2 != k else k))
        if t not in self.pairs:
            self.pairs[t] = (x, y)
        return t

    def val(self, slot, x, y):
        if x is y:
            return x
        if x.op == "t" and y.op == "t" and len(x.a) == len(y.a):
            return tup(*[self.val(f"{slot}.{i}", p, q) for i, (p, q) in enumerate(zip(x.a, y.a))])
        if x.op == "fr" and y.op == "fr" and x.a[0] is y.a[0] and x.a[1] == y.a[1]:
            return mk("fr", x.a[0], x.a[1], x.a[2], self.val(slot + ".l", x.a[3], y.a[3]), self.val(slot + ".s", x.a[4], y.a[4]),
                      self.val(slot + ".e", x.a[5], y.a[5]), x.a[6])
        if x.op == y.op and x.op in ("kv", "kvs") :
            return mk(x.op, self.val(slot + ".k", x.a[0], y.a[0]), self.val(slot + ".v", x.a[1], y.a[1]))
        if x.op == "partial" and y.op == "partial" and x.a[2] == y.a[2]:
            return mk("partial", self.val(slot + ".f", x.a[0], y.a[0]), self.val(slot + ".a", x.a[1], y.a[1]), x.a[2], self.val(slot + ".k", x.a[3], y.a[3]))
        if x.op == "bm" and y.op == "bm":
            return mk("bm", self.val(slot + ".s", x.a[0], y.a[0]), self.val(slot + ".f", x.a[1], y.a[1]))
        if x.op in ("o", "c") and y.op in ("o", "c"):
            if isc(x) and isc(y) and x.a[0] in ("NoneType", "bool") and y.a[0] in ("NoneType", "bool"):
                raise NoJoin
            if isc(x) and isc(y) and self.strict and x.a[0] == "str" and y.a[0] == "str":
                raise KeepApart
            for z in (x, y):
                if z.op == "o" and written(z):
                    raise NoJoin  # what it says is read again by the monitors
                # byte strings with a fixed frame are kept apart
                if z.op == "o" and z.a[0] == "catb" and any(isc(w) or (w.op == "o" and w.a[0] in ("u8", "be32")) for w in z.a[1:]):
                    raise KeepApart
            return self.phi(slot, x, y)
        raise NoJoin

    def seq(self, slot, op, xs, ys):
        """Join two element lists: common prefix, then a summary."""
        if len(xs) == len(ys) and not any(z.op == "star" for z in xs + ys):
            try:
                return mk(op, *[self.val(f"{slot}.{i}", p, q) for i, (p, q) in enumerate(zip(xs, ys))])
            except KeepApart:
                raise
            except NoJoin:
                pass
        n = 0
        while n < len(xs) and n < len(ys) and xs[n] is ys[n] and xs[n].op != "star":
            n += 1
        rest = [(z, self.a) for z in xs[n:]] + [(z, self.b) for z in ys[n:]]
        ts = []
        for z, src in rest:
            t = z.a[0] if z.op == "star" else self.summary(z, src)
            if t not in ts:
                ts.append(t)
        if len(ts) > 1:
            # a star template with the same label absorbs
            t0 = ts[0]
            for t in ts[1:]:
                if t0.op == "t" and t.op == "t" and len(t0.a) == len(t.a):
                    t0 = tup(*[p if p is q else o("each", o("in", f"{self.kid}:{slot}.{i}", "list:" + (kind(p) if kind(p) == kind(q) else "any"))) for i, (p, q) in enumerate(zip(t0.a, t.a))])
                else:
                    k = kind(t0) if kind(t0) == kind(t) else "any"
                    t0 = o("each", o("in", f"{self.kid}:{slot}", "list:" + k))
            ts = [t0]
        return mk(op, *xs[:n], *[star(t) for t in ts])

    def summary(self, z, src):
        if z.op == "r":
            z = self.m.nat.snap(self.m, src, z)
        mp = {}
        for x in deep(z):
            if x.op == "o" and x.a[0] == "elem":
                mp[x] = o("each", x.a[1])
            elif x.op == "o" and x.a[0] == "old" and x.a[1].op == "o" and x.a[1].a[0] == "elem":
                mp[x] = o("each", x.a[1].a[1])
        return subst(z, mp, {}) if mp else z

    def obj(self, slot, x, y):
        if x is y:
            return x
        if x.op != y.op:
            raise NoJoin
        if x.op == "inst":
            if x.a[0] is not y.a[0] or x.a[1] != y.a[1]:
                raise NoJoin
            # the state of a protocol automaton (harness object) is never merged with another state
            self.strict = self.m.is_identity(x.a[0])
            try:
                return mk("inst", x.a[0], x.a[1], *[self.val(f"{slot}.{n}", p, q) for n, p, q in zip(x.a[1], x.a[2:], y.a[2:])])
            finally:
                self.strict = False
        if x.op in ("list", "liter", "set"):
            return self.seq(slot, x.op, x.a, y.a)
        if x.op == "dict":
            if len(x.a) == len(y.a) and all(p.op == q.op and (p.op != "kv" or p.a[0] is q.a[0]) for p, q in zip(x.a, y.a)):
                return mk("dict", *[p if p is q else mk("kv", p.a[0], self.val(f"{slot}.{p.a[0]!r}", p.a[1], q.a[1])) if p.op == "kv" else self.val(slot, p, q) if p.op == "kvs" else p for p, q in zip(x.a, y.a)])
            raise NoJoin
        if x.op == "ba":
            return mk("ba", self.val(slot, x.a[0], y.a[0]))
        if x.op == "cell":
            return mk("cell", self.val(slot, x.a[0], y.a[0]))
        if x.op == "gen":
            if x.a[0] != y.a[0] or x.a[1] != y.a[1]:
                raise NoJoin
            return mk("gen", x.a[0], x.a[1], self.val(slot, x.a[2], y.a[2]))
        if x.op == "oiter":
            return mk("oiter", self.val(slot, x.a[0], y.a[0]))
        raise NoJoin

    def join(self, a, b_):
        """Join of states a (older) and b; raises NoJoin."""
        # phis of this key occurring in b with a different slot value are older incarnations
        if len(a.frames) != len(b_.frames):
            raise NoJoin
        self.a, self.b = a, b_
        r = S()
        for i, (f, g) in enumerate(zip(a.frames, b_.frames)):
            if f.code is not g.code or f.pc != g.pc or len(f.stk) != len(g.stk) or f.tag[0] != g.tag[0]:
                raise NoJoin
            tag = f.tag
            if f.tag != g.tag:
                if len(f.tag) != len(g.tag):
                    raise NoJoin
                tag = []
                for p, q in zip(f.tag, g.tag):
                    if type(p) is V and type(q) is V:
                        tag.append(self.val(f"{i}.tag", p, q))
                    elif p == q:
                        tag.append(p)
                    else:
                        raise NoJoin
                tag = tuple(tag)
            if f.ns is not g.ns and f.ns != g.ns:
                raise NoJoin
            aux = f.aux
            if f.aux is not g.aux:
                if type(f.aux) is V and type(g.aux) is V:
                    aux = self.val(f"{i}.aux", f.aux, g.aux)
                else:
                    raise NoJoin
            h = Frame(f.code, f.pc, [self.val(f"{i}.{k}", p, q) for k, (p, q) in enumerate(zip(f.loc, g.loc))],
                      [self.val(f"{i}.s{k}", p, q) for k, (p, q) in enumerate(zip(f.stk, g.stk))], tag,
                      self.val(f"{i}.exc", f.exc, g.exc), f.ns, aux)
            h.kwn = f.kwn
            r.frames.append(h)
        todo = []
        for f in r.frames:
            for vs in (f.loc, f.stk):
                for v in vs:
                    todo.extend(refs_of(v))
            todo.extend(refs_of(f.exc))
            for z in f.tag:
                if type(z) is V:
                    todo.extend(refs_of(z))
            if type(f.aux) is V:
                todo.extend(refs_of(f.aux))
            if type(f.ns) is V:
                todo.extend(refs_of(f.ns))
        base = self.m.base
        for h in (a.heap, b_.heap):
            for ref in h:
                if ref in base or ref.a[0].startswith("glob:"):
                    todo.append(ref)
        done = set()
        strict = strict_refs(self.m, a)
        while todo:
            ref = todo.pop()
            if ref in done:
                continue
            done.add(ref)
            x = a.heap.get(ref) or base.get(ref)
            y = b_.heap.get(ref) or base.get(ref)
            if x is None or y is None:
                raise NoJoin
            if ref not in a.heap and ref not in b_.heap:
                continue
            if ref in strict and x.op == y.op and x.op in ("list", "dict"):
                if len(x.a) != len(y.a):
                    raise KeepApart
                self.strict = True
            ob = r.heap[ref] = self.obj(f"{ref!r}", x, y)
            self.strict = False
            todo.extend(refs_of(ob))
        used = {t for t, (x, y) in self.pairs.items() if x is not t or y is not t}
        for k, v in a.facts.items():
            if b_.facts.get(k) == v and not any(u in deep(k) for u in used):
                r.facts[k] = v
        for t in used:
            vals = []
            for src, z in ((a, self.pairs[t][0]), (b_, self.pairs[t][1])):
                vs = (z,) if isc(z) else src.facts.get(mk("oneof", z))
                if vs is None:
                    vals = None
                    break
                vals += [w for w in vs if w not in vals]
            if vals is not None and len(vals) <= 24:
                r.facts[mk("oneof", t)] = tuple(sorted(vals, key=repr))
        if used:
            sa = {t: self.pairs[t][0] for t in used}
            sb = {t: self.pairs[t][1] for t in used}
            for src, mine, oth, other in ((a, sa, sb, b_), (b_, sb, sa, a)):
                back = {}
                for t, x in mine.items():
                    if x.op == "o":
                        back.setdefault(x, []).append(t)
                if not back:
                    continue
                for k, v in src.facts.items():
                    d = deep(k)
                    hit = [x for x in back if x in d]
                    if not hit or vague(k):
                        continue
                    for cand in lift(k, hit, back):
                        if cand in r.facts:
                            continue
                        k2 = self.m.resub(cand, oth)
                        if k2 is None or self.m.resub(cand, mine) is not k and self.m.holds(src, self.m.resub(cand, mine)) is not v:
                            continue
                        if self.m.holds(other, k2) is v:
                            r.facts[cand] = v
        if self.m.opts.get("debug"):
            print("JOIN", self.kid, self.m.where(r))
            for t in used:
                print("   ", t, "<-", self.pairs[t][0], "|", self.pairs[t][1])
            for k, v in a.facts.items():
                if k not in r.facts:
                    print("   lostA", k, v)
            for k, v in b_.facts.items():
                if k not in r.facts:
                    print("   lostB", k, v)
            for k, v in r.facts.items():
                print("   kept", k, v)
        r.hown = r.fown = False
        r.trace = b_.trace
        return r


def lift(k, hit, back):
    """Candidate facts about joined values: k with one occurrence class replaced by a join variable."""
    out = []
    one = {x: back[x][0] for x in hit}
    out.append(subst(k, one, {}))
    if len(hit) > 1 or any(len(back[x]) > 1 for x in hit):
        for x in hit:
            for t in back[x]:
                q = subst(k, {x: t}, {})
                if q not in out:
                    out.append(q)
    return out


MAX_MB = 2800


def rss_mb():
    with open("/proc/self/statm") as f:
        return int(f.read().split()[1]) * 4 // 1024


DEBUG = bool(os.environ.get("SA_DEBUG"))


def explore(m, entry, args=(), k_loop=3, max_steps=3_000_000, max_wall=120.0, stop_first=False, deadline=None):
    res = Result()
    t0 = time.time()
    s0 = S()
    run = m.modules["__prelude__"]["__run__"]
    from .interp import bind

    m.base_leaves = set()
    for ob in m.base.values():
        m.base_leaves |= leaves_all(ob)
    for g in m.modules.values():
        for v in g.values():
            m.base_leaves |= leaves_all(v)
    f = bind(m, s0, run, [entry, tup(*args)], {})
    s0.frames.append(f)
    work = [s0]
    table = {}
    kids = {}

    def on_violation(st, rule, where, msg):
        k = (rule, where, msg)
        if k not in res.violations:
            res.violations[k] = trace_list(st)

    m.on_violation = on_violation
    while work:
        s = work.pop()
        res.states += 1
        while True:
            if not s.frames:
                rv = s.retval
                if rv[0] == "raise":
                    desc = "raise " + describe_exc(m, s, rv[1])
                else:
                    desc = "return"
                res.ends[desc] = res.ends.get(desc, 0) + 1
                break
            res.steps += 1
            if res.steps & 0xFFF == 0:
                now = time.time()
                if now - t0 > max_wall or res.steps > max_steps or (deadline and now > deadline) or rss_mb() > MAX_MB:
                    res.incomplete = True
                    res.last = " > ".join(f"{f.code.path}:{f.code.ins[min(f.pc, len(f.code.ins) - 1)].line} {f.code.name}" for f in s.frames if not f.code.mod.startswith("__prelude"))
                    res.wall = now - t0
                    return res
            try:
                step(m, s)
            except Fork as e:
                base = s.pend
                for i in range(e.n - 1, 0, -1):
                    t = s.copy()
                    t.pend = base + (i,)
                    work.append(t)
                s.pend = base + (0,)
                continue
            except Violation as e:
                k = (e.rule, e.where, e.msg)
                if k not in res.violations:
                    res.violations[k] = trace_list(s)
                    if stop_first:
                        res.wall = time.time() - t0
                        return res
                break
            except Pruned:
                break
            except Limit as e:
                res.limits[str(e)[:300]] = res.limits.get(str(e)[:300], 0) + 1
                break
            except RecursionError:
                res.limits["recursion"] = res.limits.get("recursion", 0) + 1
                break
            if not s.frames or s.pend:
                continue
            fr = s.frames[-1]
            code = fr.code
            if fr.pc >= len(code.ins):
                continue
            isloop = fr.pc in code.loophead
            if not isloop and fr.pc not in code.join:
                continue
            # merge point
            for g in s.frames:
                top = g is fr
                dl = g.code.dead_after(g.pc) if not top else g.code.dead[g.pc]
                for i in dl:
                    g.loc[i] = UNB
            gc(m, s)
            precise = isloop and (m.k_join > 10 or fr.stk and finite_iter(m, s, fr.stk[-1]) or m.precise and any(g.code in m.precise for g in s.frames))
            key = key_of(m, s, isloop and not precise)
            ent = table.get(key)
            if ent is None:
                ent = table[key] = [[], None]
                kids[key] = len(kids)
            fz = frozen(s)
            if ent[1] is None:
                drop = False
                for (ofz, ofacts) in ent[0]:
                    if ofz == fz and subset(ofacts, s.facts):
                        drop = True
                        break
                if drop:
                    res.dropped += 1
                    break
                ent[0].append((fz, s.facts, s.copy()) if False else (fz, s.facts))
                s.fown = False
                s.hown = False
                ent.append(s.copy()) if len(ent) < 3 else None
                if len(ent[0]) <= (k_loop if isloop and not precise else m.k_join):
                    if len(ent) == 3:
                        ent.append([])
                    ent[3].append(s.copy())
                    continue
                # too many disjuncts: widen
                w = ent[3][0]
                ok = True
                try:
                    for x in ent[3][1:] + [s]:
                        w = widen(m, kids[key], w, x)
                except NoJoin:
                    ok = False
                if not ok:
                    # incomparable: kept exact, a bounded number of times
                    if len(ent[3]) > m.k_join + 50:
                        k = "states that cannot be summarised at " + m.where(s)
                        res.limits[k] = res.limits.get(k, 0) + 1
                        break
                    ent[3].append(s.copy())
                    continue
                res.merged += 1
                if DEBUG:
                    print('merge', m.where(s), isloop, precise, len(ent[3]))
                ent[1] = w.copy()
                ent[1].fown = ent[1].hown = False
                ent[3] = []
                s = w
                s.fown = s.hown = False
                continue
            w = ent[1]
            try:
                j = widen(m, kids[key], w, s)
            except NoJoin:
                # cannot be summarised: explored as is, a bounded number of times
                if len(ent[3]) < 40:
                    ent[3].append(None)
                    continue
                k = "states that cannot be summarised at " + m.where(s)
                res.limits[k] = res.limits.get(k, 0) + 1
                break
            if frozen(j) == frozen(w) and len(j.facts) == len(w.facts):
                res.dropped += 1
                break
            res.merged += 1
            ent[1] = j.copy()
            s = j
            s.fown = s.hown = False
    res.wall = time.time() - t0
    return res


def subset(a, b_):
    if len(a) > len(b_):
        return False
    for k, v in a.items():
        if b_.get(k) != v:
            return False
    return True


def widen(m, kid, w, s):
    pre = f"{kid}:"
    # older incarnations of this key's phis in the incoming state
    phis = set()
    for f in s.frames:
        for v in f.loc + f.stk:
            phis |= {x for x in leaves_all(v) if x.op == "o" and x.a[0] == "phi" and x.a[1].startswith(pre)}
    for ob in s.heap.values():
        phis |= {x for x in leaves_all(ob) if x.op == "o" and x.a[0] == "phi" and x.a[1].startswith(pre)}
    if phis:
        slots = {}
        jn = Joiner(m, kid, w, s)
        jn.cur = s
        # find which phis changed: compare the slots where w has phi t
        same = set()
        for i, (f, g) in enumerate(zip(w.frames, s.frames)):
            for p, q in list(zip(f.loc, g.loc)) + list(zip(f.stk, g.stk)):
                if p.op == "o" and p.a[0] == "phi":
                    if p is q:
                        same.add(p)
                    else:
                        slots[p] = True
        for r, ob in w.heap.items():
            ob2 = s.heap.get(r)
            if ob2 is None or ob2.op != ob.op:
                continue
            for p, q in zip(ob.a, ob2.a):
                if type(p) is V and p.op == "o" and p.a[0] == "phi":
                    if p is q:
                        same.add(p)
                    else:
                        slots[p] = True
        todo = [p for p in phis if slots.get(p)]
        if todo:
            s = s.copy()
            for p in todo:
                m.age(s, p)
    return Joiner(m, kid, w, s).join(w, s)


def describe_exc(m, s, e):
    if e.op == "r":
        ob = s.heap.get(e) or m.base.get(e)
        if ob is not None and ob.op == "inst":
            a = m.field(ob, "args")
            return f"{ob.a[0].a[0]}({', '.join(map(repr, a.a)) if a is not None and a.op == 't' else ''})"[:200]
    return repr(e)[:200]


def trace_list(s, limit=200):
    out = []
    t = s.trace
    while t is not None and len(out) < limit:
        out.append(f"{t[1]}: {t[2]}")
        t = t[0]
    out.reverse()
    if s.frames:
        out.append("stack: " + " > ".join(f"{f.code.path}:{f.code.ins[min(f.pc, len(f.code.ins) - 1)].line} {f.code.name}" for f in s.frames if not f.code.mod.startswith("__prelude")))
    return out
