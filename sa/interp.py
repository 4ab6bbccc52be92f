"""Instruction semantics."""

from __future__ import annotations

import operator

from .code import CodeInfo
from .machine import (
    PENDING, ClassInfo, Fork, Frame, Limit, Machine, PyRaise, Pruned, S, cinfo, cls_v, real,
)
from .values import *  # noqa: F403
from .values import V, mk, o, c, tup, ext, NONE, TRUE, FALSE, NULL, UNB, isc, cval, kind, cat, catb, sum_, neg, slice_, star
from .values import nullable, elem_kind, b

BINOPS = {
    "+": operator.add, "-": operator.sub, "*": operator.mul, "/": operator.truediv, "//": operator.floordiv,
    "%": operator.mod, "**": operator.pow, "<<": operator.lshift, ">>": operator.rshift, "&": operator.and_,
    "|": operator.or_, "^": operator.xor, "@": operator.matmul,
}


# ================================================================ stepping
def step(m: Machine, s: S):
    f = s.frames[-1]
    ins = f.code.ins[f.pc]
    h = FAST.get(ins.op)
    if h is not None:
        h(m, s, f, ins)
        return
    h = SLOW.get(ins.op)
    if h is None:
        raise Limit(f"opcode {ins.op} at {m.where(s)}")
    nf = len(s.frames)
    heap0, facts0, pc0, stk0, exc0, kwn0, tr0 = s.heap, s.facts, f.pc, f.stk[:], f.exc, f.kwn, s.trace
    loc0 = f.loc
    fr0 = s.frames[:]
    stk1 = s.frames[-2].stk[:] if nf > 1 else None
    s.hown = s.fown = False
    s.pi = 0
    try:
        h(m, s, f, ins)
    except PyRaise as e:
        unwind(m, s, e.exc)
    except Fork:
        s.frames = fr0
        s.heap, s.facts, s.trace = heap0, facts0, tr0
        f.pc, f.stk, f.exc, f.kwn, f.loc = pc0, stk0, exc0, kwn0, loc0
        if nf > 1:
            s.frames[-2].stk = stk1
        raise
    s.pend = ()


def push(s, v):
    s.frames[-1].stk.append(v)


def unwind(m, s, exc):
    """Propagate exc from the current top frame."""
    while s.frames:
        f = s.frames[-1]
        pc = min(f.pc, len(f.code.ins) - 1)
        # f.pc already points past a call for non-top frames; the raising instruction is f.pc - 1 there
        ent = f.code.exc[pc]
        if ent is not None:
            tgt, depth, lasti = ent
            del f.stk[depth:]
            if lasti:
                f.stk.append(c(pc))
            f.stk.append(exc)
            f.pc = tgt
            return
        s.frames.pop()
        tag = f.tag
        t = tag[0]
        if f.code.kind != "fn" and t in ("gen",):
            g = tag[1]
            ob = m.get(s, g)
            m.put(s, g, mk("gen", ob.a[0], "done", NONE))
            mode = tag[2]
            if mode == "close":
                # GeneratorExit / StopIteration escaping a close() is swallowed
                if isexc(m, s, exc, "builtins.GeneratorExit") or isexc(m, s, exc, "builtins.StopIteration") or isexc(m, s, exc, "builtins.StopAsyncIteration"):
                    if s.frames:
                        s.frames[-1].stk.append(NONE)
                        s.frames[-1].pc += 1
                        return
            if mode == "closesend":
                if isexc(m, s, exc, "builtins.GeneratorExit") or isexc(m, s, exc, "builtins.StopAsyncIteration"):
                    if s.frames:
                        send_done(m, s, NONE)
                        return
            if mode == "closethen":
                # close of a delegate before throwing into the outer generator
                if isexc(m, s, exc, "builtins.GeneratorExit"):
                    exc = tag[3]
                    continue
            if mode not in ("close", "closesend") and f.code.kind in ("gen", "agen"):
                nm = "builtins.StopIteration" if f.code.kind == "gen" else "builtins.StopAsyncIteration"
                if isexc(m, s, exc, nm) and m.isref(exc):
                    exc = m.exc_inst(s, ext("builtins.RuntimeError"), c("generator raised StopIteration"))
        elif t == "fornext" and isexc(m, s, exc, "builtins.StopIteration") and s.frames:
            for_exhausted(m, s, s.frames[-1])
            return
        elif t == "fornext_send" and isexc(m, s, exc, "builtins.StopIteration") and s.frames:
            send_done(m, s, (m.field(m.get(s, exc), "value") if exc.op == "r" else None) or NONE)
            return
        elif t == "next_default" and (isexc(m, s, exc, "builtins.StopIteration")):
            s.frames[-1].stk.append(tag[1])
            s.frames[-1].pc += 1
            return
    s.frames = []
    s.retval = ("raise", exc)


def isexc(m, s, exc, name):
    """Definitely an instance (no forking)."""
    if exc.op == "r":
        cv = m.get(s, exc).a[0]
        return m.subclass(cv, ext(name))
    return m.known(s, mk("isa", exc, ext(name))) is True


def ret(m, s, v):
    """Return v from the top frame."""
    f = s.frames.pop()
    tag = f.tag
    t = tag[0]
    if t == "gen":
        g, mode = tag[1], tag[2]
        ob = m.get(s, g)
        m.put(s, g, mk("gen", ob.a[0], "done", NONE))
        gen_finished(m, s, g, mode, v, tag)
        return
    if not s.frames:
        s.retval = ("return", v)
        return
    cf = s.frames[-1]
    if t == "push":
        cf.stk.append(v)
        cf.pc += 1
    elif t == "init":
        cf.stk.append(tag[1])
        cf.pc += 1
    elif t == "discard":
        cf.pc += 1
    elif t == "class":
        cf.stk.append(finish_class(m, s, f, tag))
        cf.pc += 1
    elif t == "module":
        cf.pc += 1
    elif t == "truth":
        # result of __bool__/__len__: jump accordingly, the branch is taken on a synthetic value
        cf.stk.append(v)  # replaced operand; re-execute the test on the plain value
    elif t == "next_default":
        cf.stk.append(v)
        cf.pc += 1
    elif t == "not":
        cf.stk.append(o("not", v) if v.op == "o" else b(not m.truth(s, v)))
        cf.pc += 1
    elif t == "with":
        # result of __enter__
        cf.stk.append(v)
        cf.pc += 1
    elif t == "await":
        # a call made by SEND on an object; result is the awaited value
        send_done(m, s, v)
    elif t == "iter":
        cf.stk.append(m.nat.get_iter(m, s, v))
        cf.pc += 1
    elif t == "fornext":
        cf.stk.append(v)
        cf.pc += 1
    elif t == "fornext_send":
        cf.stk[-1] = v
        cf.pc += 1
    elif t == "str":
        cf.stk.append(cat(v))
        cf.pc += 1
    elif t == "unpackargs":
        tag[1](m, s, v)
    else:
        raise Limit(f"return tag {t}")


# ================================================================ generators
def make_gen(m, s, f):
    """RETURN_GENERATOR: suspend f into a generator object."""
    s.frames.pop()
    kind_ = f.code.kind
    fr = mk("fr", f.code, f.pc + 1, f.ns, tup(*f.loc), tup(*f.stk), f.exc, f.aux if type(f.aux) is V else NONE)
    g = m.alloc(s, mk("gen", kind_, "new", fr), site=f"gen:{f.code.key}")
    # deliver to the caller through the frame's tag
    tag = f.tag
    if not s.frames:
        s.retval = ("return", g)
        return
    cf = s.frames[-1]
    if tag[0] in ("push",):
        cf.stk.append(g)
        cf.pc += 1
    elif tag[0] == "iter":
        cf.stk.append(g)
        cf.pc += 1
    elif tag[0] == "await":
        # __await__ implemented as a generator, or async __enter__: run it
        cf.stk[-2 if False else -1] = cf.stk[-1]
        resume(m, s, g, NONE, "send")
    elif tag[0] == "with":
        cf.stk.append(g)
        cf.pc += 1
    elif tag[0] == "discard":
        cf.pc += 1
    else:
        raise Limit(f"generator returned to tag {tag[0]}")


def resume(m, s, g, val, mode, throw=None, extra=()):
    """Resume generator g, delivering according to mode: for, next, send, anext, close."""
    ob = m.get(s, g)
    st = ob.a[1]
    if st == "done":
        if throw is not None and mode != "close":
            raise PyRaise(throw)
        if mode == "close":
            s.frames[-1].stk.append(NONE)
            s.frames[-1].pc += 1
            return
        if ob.a[0] == "coro":
            raise PyRaise(m.exc_inst(s, ext("builtins.RuntimeError"), c("cannot reuse already awaited coroutine")))
        gen_finished(m, s, g, mode, NONE, ("gen", g, mode) + tuple(extra))
        return
    if st == "run":
        raise PyRaise(m.exc_inst(s, ext("builtins.ValueError"), c("generator already executing")))
    fr = ob.a[2]
    code, pc, ns, loc, stk, exc, aux = fr.a
    if throw is not None and st == "new":
        m.put(s, g, mk("gen", ob.a[0], "done", NONE))
        if mode == "close":
            s.frames[-1].stk.append(NONE)
            s.frames[-1].pc += 1
            return
        raise PyRaise(throw)
    m.put(s, g, mk("gen", ob.a[0], "run", NONE))
    f = Frame(code, pc, list(loc.a), list(stk.a), ("gen", g, mode) + tuple(extra), exc, ns, aux if aux is not NONE else None)
    if len(s.frames) > 60:
        raise Limit(f"generator recursion too deep in {code.name}")
    s.frames.append(f)
    if throw is None:
        f.stk.append(val)
    else:
        # suspended in `yield from` / await on a delegate?
        nxt = code.ins[f.pc]
        if nxt.op == "RESUME" and (nxt.arg & 3) in (2,) and f.stk and f.stk[-1].op == "r":
            d = f.stk[-1]
            dob = m.get(s, d)
            if dob.op == "gen" and dob.a[1] != "done":
                # the exception is first thrown into the delegate, whose outcome reappears here
                f.pc = f.pc - 2  # back on the SEND instruction
                f.stk.append(NONE)
                resume(m, s, d, NONE, "send", throw=throw)
                return
        f.pc -= 1  # the YIELD_VALUE instruction, so that handlers covering it apply
        raise PyRaise(throw)


def gen_finished(m, s, g, mode, v, tag):
    """Generator/coroutine g returned v."""
    if not s.frames:
        s.retval = ("return", v)
        return
    cf = s.frames[-1]
    if mode == "send":
        send_done(m, s, v)
    elif mode == "for":
        for_exhausted(m, s, cf)
    elif mode == "anext":
        unwind(m, s, m.exc_inst(s, ext("builtins.StopAsyncIteration")))
    elif mode == "next":
        if len(tag) > 3:
            cf.stk.append(tag[3])
            cf.pc += 1
        else:
            unwind(m, s, m.new_inst(s, ext("builtins.StopIteration"), (("args", tup(v)), ("value", v))))
    elif mode == "anextd":
        send_done(m, s, tag[3])
    elif mode == "close":
        cf.stk.append(NONE)
        cf.pc += 1
    elif mode == "closesend":
        send_done(m, s, NONE)
    elif mode == "closethen":
        unwind(m, s, tag[3])
    elif mode == "throw":
        unwind(m, s, m.new_inst(s, ext("builtins.StopIteration"), (("args", tup(v)), ("value", v))))
    else:
        raise Limit(f"generator mode {mode}")


def send_done(m, s, v):
    cf = s.frames[-1]
    ins = cf.code.ins[cf.pc]
    if ins.op == "SEND":
        cf.stk[-1] = v
        cf.pc = ins.tgt
    else:
        cf.stk.append(v)
        cf.pc += 1


def for_exhausted(m, s, cf):
    ins = cf.code.ins[cf.pc]
    if ins.op == "FOR_ITER":
        cf.stk.pop()
        t = ins.tgt
        if cf.code.ins[t].op == "END_FOR":
            t += 1
        cf.pc = t
    else:
        raise Limit("for_exhausted outside FOR_ITER")


def gen_yield(m, s, v):
    """YIELD_VALUE in the top frame (pc at the YIELD_VALUE)."""
    f = s.frames.pop()
    tag = f.tag
    if tag[0] != "gen":
        raise Limit("yield outside generator frame")
    g, mode = tag[1], tag[2]
    wrapped = v.op == "aw"
    if wrapped:
        v = v.a[0]
    ob = m.get(s, g)
    fr = mk("fr", f.code, f.pc + 1, f.ns, tup(*f.loc), tup(*f.stk), f.exc, f.aux if type(f.aux) is V else NONE)
    m.put(s, g, mk("gen", ob.a[0], "susp", fr))
    if not s.frames:
        s.retval = ("yield", v)
        return
    cf = s.frames[-1]
    if mode in ("for", "next"):
        cf.stk.append(v)
        cf.pc += 1
    elif mode in ("anext", "anextd"):
        send_done(m, s, v)
    elif mode == "send":
        ins = cf.code.ins[cf.pc]
        if ins.op == "SEND":
            cf.stk[-1] = v
            cf.pc += 1
        else:
            cf.stk.append(v)
            cf.pc += 1
    elif mode == "throw":
        cf.stk.append(v)
        cf.pc += 1
    elif mode in ("close", "closethen", "closesend"):
        unwind(m, s, m.exc_inst(s, ext("builtins.RuntimeError"), c("generator ignored GeneratorExit")))
    else:
        raise Limit(f"yield mode {mode}")


# ================================================================ calls
def call_into(m, s, fn, args, kw, tag=("push",)):
    """Call fn. Either returns a value (native) after which the caller must push it and advance, or PENDING."""
    op = fn.op
    if op == "fn":
        f = bind(m, s, fn, args, kw)
        f.tag = tag
        if len(s.frames) > 80:
            raise Limit(f"recursion too deep calling {fn.a[0].name}")
        s.frames.append(f)
        if s.frames[0] is not f and len(s.frames) > 1:
            cf = s.frames[-2]
            m.sites.add((cf.code.key, cf.pc))
        m.executed.add(f.code)
        return PENDING
    if op == "bm":
        return call_into(m, s, fn.a[1], [fn.a[0]] + list(args), kw, tag)
    if op == "partial":
        k2 = dict(zip(fn.a[2], fn.a[3].a))
        k2.update(kw)
        return call_into(m, s, fn.a[0], list(fn.a[1].a) + list(args), k2, tag)
    if op == "nat":
        r = m.nat.NATIVES[fn.a[0]](m, s, list(args), kw)
        if r is PENDING and tag[0] != "push":
            # a native that pushed frames: its result is delivered with "push"; re-tag the frame it pushed
            s.frames[-1].tag = retag(s.frames[-1].tag, tag)
        return r
    if op == "natm":
        # native method bound to a receiver: natm(name, recv)
        r = m.nat.call_method(m, s, fn.a[1], fn.a[0], list(args), kw)
        if r is PENDING and tag[0] != "push":
            s.frames[-1].tag = retag(s.frames[-1].tag, tag)
        return r
    if op == "cls":
        return instantiate(m, s, fn, args, kw, tag)
    if op == "x":
        r = m.nat.call_ext(m, s, fn, list(args), kw)
        if r is PENDING and tag[0] != "push":
            s.frames[-1].tag = retag(s.frames[-1].tag, tag)
        return r
    if op == "smeth":
        return call_into(m, s, fn.a[0], args, kw, tag)
    if op == "r":
        ob = m.get(s, fn)
        if ob.op == "inst":
            meth = m.lookup(ob.a[0], "__call__")
            if meth is not None:
                return call_into(m, s, meth, [fn] + list(args), kw, tag)
    if op == "union" or op == "typing":
        return fn
    if op == "ubm":
        r = m.nat.call_method(m, s, args[0], fn.a[1], list(args[1:]), kw)
        if r is PENDING and tag[0] != "push":
            s.frames[-1].tag = retag(s.frames[-1].tag, tag)
        return r
    if fn is NONE or isc(fn):
        m.raise_ext(s, "builtins.TypeError", c("object is not callable"))
    return m.nat.call_opaque(m, s, fn, list(args), kw)


def retag(old, new):
    if old[0] == "push":
        return new
    return old


def bind(m, s, fn, args, kw):
    code, defaults, kwd, closure = fn.a[0], fn.a[1], fn.a[2], fn.a[3]
    loc = [UNB] * code.nloc
    n = code.argcount
    args = list(args)
    names = code.co.co_varnames
    if len(args) > n and not code.varargs:
        m.raise_ext(s, "builtins.TypeError", c(f"{code.name}() takes {n} positional arguments but {len(args)} were given"))
    for i, a in enumerate(args[:n]):
        loc[i] = a
    kw = dict(kw)
    total = n + code.kwonly
    for k in list(kw):
        if k in names[:total] and names.index(k) >= code.posonly:
            i = names.index(k)
            if loc[i] is not UNB:
                m.raise_ext(s, "builtins.TypeError", c(f"{code.name}() got multiple values for argument '{k}'"))
            loc[i] = kw.pop(k)
    d = defaults.a
    for i in range(n):
        if loc[i] is UNB:
            j = i - (n - len(d))
            if j >= 0:
                loc[i] = d[j]
            else:
                m.raise_ext(s, "builtins.TypeError", c(f"{code.name}() missing argument '{names[i]}'"))
    kd = {k.a[0].a[1]: k.a[1] for k in kwd.a}
    for i in range(n, total):
        if loc[i] is UNB:
            if names[i] in kd:
                loc[i] = kd[names[i]]
            else:
                m.raise_ext(s, "builtins.TypeError", c(f"{code.name}() missing keyword argument '{names[i]}'"))
    p = total
    if code.varargs:
        loc[p] = tup(*args[n:])
        p += 1
    if code.varkw:
        loc[p] = m.alloc(s, mk("dict", *[mk("kv", c(k), v) for k, v in kw.items()]), site=f"kw:{code.key}")
        kw = {}
    if kw:
        m.raise_ext(s, "builtins.TypeError", c(f"{code.name}() got unexpected keyword arguments {sorted(kw)}"))
    return Frame(code, 0, loc, [], ("push",), aux=tup(*closure.a))


def instantiate(m, s, clsv, args, kw, tag):
    ci = cinfo(clsv)
    if ci.enum is not None:
        return m.nat.enum_lookup(m, s, clsv, args[0])
    if clsv is m.headers_v:
        r = m.nat.hdr_new(m, s, clsv, args, kw)
        return r
    if ci.dc is not None:
        return m.nat.dc_new(m, s, clsv, args, kw, tag)
    new = m.lookup(clsv, "__new__")
    if new is not None and new.op in ("fn", "smeth"):
        raise Limit(f"class {ci.name} defines __new__")
    init = m.lookup(clsv, "__init__")
    fields = ()
    if m.is_exc_class(clsv):
        fields = (("args", tup(*args)),)
    ref = m.new_inst(s, clsv, fields, site=f"{ci.mod}.{ci.qual}@{s.frames[-1].code.key}:{s.frames[-1].pc}" if s.frames else None)
    if init is None:
        if tag[0] == "init":
            pass
        return ref if tag[0] == "push" else deliver(m, s, ref, tag)
    if tag[0] != "push":
        raise Limit(f"constructor call with tag {tag[0]}")
    r = call_into(m, s, init, [ref] + list(args), kw, ("init", ref))
    if r is PENDING:
        return PENDING
    return ref


def deliver(m, s, v, tag):
    return v


def do_call(m, s, f, fn, args, kw):
    """Common tail for CALL-like instructions: operands already popped."""
    r = call_into(m, s, fn, args, kw)
    if r is not PENDING:
        f2 = s.frames[-1]
        f2.stk.append(r)
        f2.pc += 1


# ================================================================ attribute access
def getattr_(m, s, v, name, default=None):
    """Attribute value, or PENDING when a property getter was pushed (tag push, pc advance on return)."""
    op = v.op
    if op == "r":
        ob = m.get(s, v)
        if ob.op == "inst":
            cv = ob.a[0]
            fv = m.field(ob, name)
            if cv.op == "cls":
                a = m.lookup(cv, name) if name not in m.clsattr else lookup_now(m, s, cv, name)
                if a is not None and a.op == "prop":
                    return call_into(m, s, a.a[0], [v], {})
                if fv is not None:
                    return fv
                if a is not None:
                    if a.op == "cprop":
                        return call_into(m, s, m.getglobal(s, "__prelude__", "_cprop_get"), [a.a[0], v, c(name)], {})
                    return bind_attr(m, s, a, v, cv)
            elif fv is not None:
                return fv
            if name == "__class__":
                return cv
            if name == "__dict__":
                return m.alloc(s, mk("dict", *[mk("kv", c(n), x) for n, x in zip(ob.a[1], ob.a[2:])]))
            r = m.nat.inst_attr(m, s, v, ob, name)
            if r is not None:
                return r
            if cv.op == "cls":
                ga = m.lookup(cv, "__getattr__")
                if ga is not None:
                    return call_into(m, s, ga, [v, c(name)], {})
            if default is not None:
                return default
            m.raise_ext(s, "builtins.AttributeError", c(f"'{cv!r}' object has no attribute '{name}'"))
        r = m.nat.obj_attr(m, s, v, ob, name)
        if r is not None:
            return r
        if default is not None:
            return default
        m.raise_ext(s, "builtins.AttributeError", c(f"'{ob.op}' object has no attribute '{name}'"))
    if op == "cls":
        ci = cinfo(v)
        for k in m.mro(v):
            if k.op == "cls" and (name in cinfo(k).ns or name in m.clsattr):
                a = cinfo(k).ns.get(name)
                if name in m.clsattr:
                    cell = s.heap.get(clscell(k, name))
                    if cell is not None:
                        a = cell.a[0]
                if a is None:
                    continue
                if a.op == "cmeth":
                    return mk("bm", v, a.a[0])
                if a.op == "smeth":
                    return a.a[0]
                return a
        r = m.nat.cls_attr(m, s, v, ci, name)
        if r is not None:
            return r
        if default is not None:
            return default
        m.raise_ext(s, "builtins.AttributeError", c(f"type object '{ci.name}' has no attribute '{name}'"))
    if op == "mod":
        g = m.getglobal(s, v.a[0], name) if name in m.modules[v.a[0]] else None
        if g is not None:
            return g
        sub = v.a[0] + "." + name
        if sub in m.modules:
            return mk("mod", sub)
        ga = m.modules[v.a[0]].get("__getattr__")
        if ga is not None and ga.op == "fn":
            return call_into(m, s, ga, [c(name)], {})
        if default is not None:
            return default
        m.raise_ext(s, "builtins.AttributeError", c(f"module {v.a[0]} has no attribute {name}"))
    r = m.nat.other_attr(m, s, v, name, default)
    return r


def clscell(k, name):
    """Where an attribute that was assigned to a class at run time is kept."""
    return mk("r", f"glob:class {cinfo(k).mod}:{cinfo(k).key}.{name}", 0)


def lookup_now(m, s, cv, name):
    """Like m.lookup, with the attributes that were assigned at run time."""
    for k in m.mro(cv):
        if k.op == "cls":
            cell = s.heap.get(clscell(k, name))
            if cell is not None:
                return cell.a[0]
            r = cinfo(k).ns.get(name)
            if r is not None:
                return r
    return None


def bind_attr(m, s, a, v, cv):
    if a.op == "fn" or a.op == "partialm":
        return mk("bm", v, a)
    if a.op == "cmeth":
        return mk("bm", cv, a.a[0])
    if a.op == "smeth":
        return a.a[0]
    if a.op == "nat":
        return mk("bm", v, a)
    return a


def setattr_(m, s, ref, name, val):
    """Returns True if done, PENDING if a setter frame was pushed."""
    if ref.op == "r":
        ob = m.get(s, ref)
        if ob.op == "inst":
            cv = ob.a[0]
            a = m.lookup(cv, name) if cv.op == "cls" else None
            if a is not None and a.op == "prop":
                if a.a[1] is NONE:
                    m.raise_ext(s, "builtins.AttributeError", c(f"property '{name}' has no setter"))
                return call_into(m, s, a.a[1], [ref, val], {}, ("discard",))
            if cv.op == "cls" and cinfo(cv).dc is not None and cinfo(cv).dc_frozen:
                m.raise_ext(s, "dataclasses.FrozenInstanceError", c(name))
            h = m.hooks.get("setattr")
            if h:
                h(m, s, ref, ob, name, val)
            m.setfield(s, ref, name, val)
            return True
        if ob.op == "gen" or ob.op in ("list", "dict", "hdr"):
            raise Limit(f"attribute store on {ob.op} at {m.where(s)}")
    if ref.op == "cls":
        h = m.hooks.get("setattr")
        if h:
            h(m, s, ref, None, name, val)
        if m.initing:
            cinfo(ref).ns[name] = val
            return True
        if name.startswith("__"):
            raise Limit(f"class attribute store at {m.where(s)}")
        m.clsattr.add(name)
        m.put(s, clscell(ref, name), mk("cell", val))
        return True
    if ref.op == "o" or ref.op == "x":
        h = m.hooks.get("setattr")
        if h:
            h(m, s, ref, None, name, val)
        return True
    if ref.op in ("fn", "bm", "partial"):
        return True
    if ref.op == "mod":
        key = mk("r", f"glob:{ref.a[0]}:{name}", 0)
        m.put(s, key, mk("cell", val))
        return True
    raise Limit(f"attribute store on {ref!r} at {m.where(s)}")


# ================================================================ opcodes
FAST = {}
SLOW = {}


def fast(*names):
    def d(fn):
        for n in names:
            FAST[n] = fn
        return fn
    return d


def slow(*names):
    def d(fn):
        for n in names:
            SLOW[n] = fn
        return fn
    return d


@fast("RESUME", "NOP", "CACHE", "PRECALL", "SETUP_ANNOTATIONS_", "MAKE_CELL_")
def _nop(m, s, f, i):
    f.pc += 1


@fast("LOAD_CONST")
def _load_const(m, s, f, i):
    v = i.val
    f.stk.append(constant(f.code, v))
    f.pc += 1


def constant(code, v):
    if hasattr(v, "co_code"):
        return mk("code", code.child(v))
    if isinstance(v, tuple):
        return tup(*[constant(code, x) for x in v])
    if isinstance(v, frozenset):
        return mk("fset", *[constant(code, x) for x in sorted(v, key=repr)])
    return c(v)


@fast("LOAD_FAST")
def _load_fast(m, s, f, i):
    f.stk.append(f.loc[i.arg])
    f.pc += 1


@slow("LOAD_FAST_CHECK")
def _load_fast_check(m, s, f, i):
    v = f.loc[i.arg]
    if v is UNB:
        m.raise_ext(s, "builtins.UnboundLocalError", c(i.val))
    f.stk.append(v)
    f.pc += 1


@fast("LOAD_FAST_AND_CLEAR")
def _lfac(m, s, f, i):
    f.stk.append(f.loc[i.arg])
    f.loc[i.arg] = UNB
    f.pc += 1


@fast("STORE_FAST")
def _store_fast(m, s, f, i):
    f.loc[i.arg] = f.stk.pop()
    f.pc += 1


@fast("DELETE_FAST")
def _delete_fast(m, s, f, i):
    f.loc[i.arg] = UNB
    f.pc += 1


@fast("POP_TOP", "END_SEND_")
def _pop(m, s, f, i):
    f.stk.pop()
    f.pc += 1


@fast("END_FOR")
def _endfor(m, s, f, i):
    f.stk.pop()
    f.stk.pop()
    f.pc += 1


@fast("END_SEND")
def _endsend(m, s, f, i):
    v = f.stk.pop()
    f.stk.pop()
    f.stk.append(v)
    f.pc += 1


@fast("PUSH_NULL")
def _pushnull(m, s, f, i):
    f.stk.append(NULL)
    f.pc += 1


@fast("COPY")
def _copy(m, s, f, i):
    f.stk.append(f.stk[-i.arg])
    f.pc += 1


@fast("SWAP")
def _swap(m, s, f, i):
    k = f.stk
    k[-1], k[-i.arg] = k[-i.arg], k[-1]
    f.pc += 1


@fast("JUMP_FORWARD", "JUMP_BACKWARD", "JUMP_BACKWARD_NO_INTERRUPT")
def _jump(m, s, f, i):
    f.pc = i.tgt


@slow("RETURN_VALUE")
def _retv(m, s, f, i):
    ret(m, s, f.stk.pop())


@slow("RETURN_CONST")
def _retc(m, s, f, i):
    ret(m, s, constant(f.code, i.val))


@slow("RETURN_GENERATOR")
def _retgen(m, s, f, i):
    make_gen(m, s, f)


@slow("MAKE_CELL")
def _mkcell(m, s, f, i):
    f.loc[i.arg] = m.alloc(s, mk("cell", f.loc[i.arg]), site=f"cell:{f.code.key}:{i.val}")
    f.pc += 1


@fast("COPY_FREE_VARS")
def _cfv(m, s, f, i):
    cl = f.aux.a if type(f.aux) is V else ()
    for k, r in enumerate(cl):
        f.loc[f.code.free0 + k] = r
    f.pc += 1


@fast("LOAD_CLOSURE")
def _lclos(m, s, f, i):
    f.stk.append(f.loc[i.arg])
    f.pc += 1


@slow("LOAD_DEREF")
def _ldr(m, s, f, i):
    v = m.get(s, f.loc[i.arg]).a[0]
    if v is UNB:
        m.raise_ext(s, "builtins.NameError", c(i.val))
    f.stk.append(v)
    f.pc += 1


@slow("LOAD_FROM_DICT_OR_DEREF")
def _lfdd(m, s, f, i):
    f.stk.pop()
    r = ns_get(m, s, f, i.val)
    if r is None:
        r = m.get(s, f.loc[i.arg]).a[0]
    f.stk.append(r)
    f.pc += 1


@slow("STORE_DEREF")
def _sdr(m, s, f, i):
    m.put(s, f.loc[i.arg], mk("cell", f.stk.pop()))
    f.pc += 1


@slow("DELETE_DEREF")
def _ddr(m, s, f, i):
    m.put(s, f.loc[i.arg], mk("cell", UNB))
    f.pc += 1


@slow("LOAD_GLOBAL")
def _lglob(m, s, f, i):
    v = m.getglobal(s, f.code.mod, i.val)
    if v is None:
        m.raise_ext(s, "builtins.NameError", c(i.val))
    if i.arg & 1:
        f.stk.append(NULL)
    f.stk.append(v)
    f.pc += 1


@slow("STORE_GLOBAL")
def _sglob(m, s, f, i):
    v = f.stk.pop()
    if m.initing:
        m.modules[f.code.mod][i.val] = v
    else:
        h = m.hooks.get("setglobal")
        if h:
            h(m, s, f.code.mod, i.val, v)
        m.put(s, mk("r", f"glob:{f.code.mod}:{i.val}", 0), mk("cell", v))
    f.pc += 1


def ns_get(m, s, f, name):
    if isinstance(f.ns, str):
        return m.modules[f.ns].get(name)
    d = m.get(s, f.ns)
    for kv in d.a:
        if isc(kv.a[0]) and cval(kv.a[0]) == name:
            return kv.a[1]
    return None


@slow("LOAD_NAME")
def _lname(m, s, f, i):
    v = ns_get(m, s, f, i.val)
    if v is None:
        v = m.getglobal(s, f.code.mod, i.val)
    if v is None:
        m.raise_ext(s, "builtins.NameError", c(i.val))
    f.stk.append(v)
    f.pc += 1


@slow("STORE_NAME")
def _sname(m, s, f, i):
    v = f.stk.pop()
    ns_set(m, s, f, i.val, v)
    f.pc += 1


def ns_set(m, s, f, name, v):
    if isinstance(f.ns, str):
        m.modules[f.ns][name] = v
    else:
        d = m.get(s, f.ns)
        m.put(s, f.ns, m.nat.dict_set(d, c(name), v))


@slow("DELETE_NAME")
def _dname(m, s, f, i):
    if isinstance(f.ns, str):
        m.modules[f.ns].pop(i.val, None)
    f.pc += 1


@slow("SETUP_ANNOTATIONS")
def _sann(m, s, f, i):
    if ns_get(m, s, f, "__annotations__") is None:
        ns_set(m, s, f, "__annotations__", m.alloc(s, mk("dict"), site=f"ann:{f.code.key}"))
    f.pc += 1


@slow("LOAD_LOCALS")
def _llocals(m, s, f, i):
    f.stk.append(f.ns if not isinstance(f.ns, str) else NONE)
    f.pc += 1


@slow("LOAD_BUILD_CLASS")
def _lbc(m, s, f, i):
    f.stk.append(mk("nat", "__build_class__"))
    f.pc += 1


@fast("LOAD_ASSERTION_ERROR")
def _lae(m, s, f, i):
    f.stk.append(ext("builtins.AssertionError"))
    f.pc += 1


# ---------------------------------------------------------------- imports
@slow("IMPORT_NAME")
def _impname(m, s, f, i):
    fromlist = f.stk.pop()
    level = cval(f.stk.pop())
    name = i.val
    if level:
        pkg = cval(m.modules[f.code.mod]["__package__"])
        base = pkg.split(".")
        if level > 1:
            base = base[: len(base) - (level - 1)]
        name = ".".join(base + ([name] if name else []))
    v = m.import_module(name) if (name in m.modmap) else None
    if v is None:
        top = name.split(".")[0]
        if fromlist is NONE or (fromlist.op == "t" and not fromlist.a):
            v = ext(top)
        else:
            v = ext(name)
    elif fromlist is NONE or (fromlist.op == "t" and not fromlist.a):
        top = name.split(".")[0]
        v = mk("mod", top) if top in m.modules else ext(top)
    f.stk.append(v)
    f.pc += 1


@slow("IMPORT_FROM")
def _impfrom(m, s, f, i):
    mod = f.stk[-1]
    if mod.op == "mod":
        g = m.modules[mod.a[0]].get(i.val)
        if g is None:
            sub = mod.a[0] + "." + i.val
            if sub in m.modmap:
                g = m.import_module(sub)
            elif "__getattr__" in m.modules[mod.a[0]]:
                g = ext(f"{mod.a[0]}.{i.val}")
            else:
                m.raise_ext(s, "builtins.ImportError", c(f"cannot import {i.val} from {mod.a[0]}"))
        f.stk.append(g)
    else:
        f.stk.append(m.nat.ext_name(m, mod.a[0] + "." + i.val))
    f.pc += 1


# ---------------------------------------------------------------- functions, calls
@slow("MAKE_FUNCTION")
def _mkfn(m, s, f, i):
    code = f.stk.pop().a[0]
    fl = i.arg
    closure = tup()
    kwd = tup()
    dfl = tup()
    if fl & 8:
        closure = f.stk.pop()
    if fl & 4:
        f.stk.pop()
    if fl & 2:
        d = m.get(s, f.stk.pop())
        kwd = tup(*[mk("kvp", kv.a[0], kv.a[1]) for kv in d.a])
    if fl & 1:
        dfl = f.stk.pop()
    f.stk.append(mk("fn", code, dfl, kwd, closure))
    f.pc += 1


@fast("KW_NAMES")
def _kwn(m, s, f, i):
    f.kwn = i.val if isinstance(i.val, tuple) else f.code.co.co_consts[i.arg]
    f.pc += 1


@slow("CALL")
def _call(m, s, f, i):
    n = i.arg
    args = f.stk[len(f.stk) - n:] if n else []
    if n:
        del f.stk[len(f.stk) - n:]
    slf = f.stk.pop()
    fn = f.stk.pop()
    if fn is NULL:
        fn = slf
    else:
        args = [slf] + args
    kw = {}
    if f.kwn:
        k = len(f.kwn)
        kw = dict(zip(f.kwn, args[len(args) - k:]))
        args = args[: len(args) - k]
        f.kwn = None
    do_call(m, s, f, fn, args, kw)


@slow("CALL_FUNCTION_EX")
def _callex(m, s, f, i):
    kw = {}
    if i.arg & 1:
        d = f.stk.pop()
        ob = m.get(s, d)
        for kv in ob.a:
            if kv.op != "kv" or not isc(kv.a[0]):
                if kv.op == "all":
                    kw["**"] = kv.a[0]
                    continue
                raise Limit(f"** with unknown keys at {m.where(s)}")
            kw[cval(kv.a[0])] = kv.a[1]
    at = f.stk.pop()
    fn = f.stk.pop()
    if f.stk and f.stk[-1] is NULL:
        f.stk.pop()
    if at.op == "t":
        args = list(at.a)
    elif at.op == "r" and m.get(s, at).op == "list":
        args = list(m.get(s, at).a)
    else:
        args = [mk("splat", at)]
    if "**" in kw:
        src = kw.pop("**")
        kw["**"] = src
    do_call(m, s, f, fn, args, kw)


@slow("CALL_INTRINSIC_1")
def _intr1(m, s, f, i):
    a = i.arg
    if a == 4:  # ASYNC_GEN_WRAP
        f.stk[-1] = mk("aw", f.stk[-1])
    elif a == 6:  # LIST_TO_TUPLE
        ob = m.get(s, f.stk[-1])
        if any(x.op == "star" for x in ob.a):
            f.stk[-1] = o("tuple_of", ob)
        else:
            f.stk[-1] = tup(*ob.a)
    elif a == 3:  # STOPITERATION_ERROR
        pass
    elif a == 2:  # IMPORT_STAR
        mod = f.stk[-1]
        if mod.op == "mod":
            for k, v in m.modules[mod.a[0]].items():
                if not k.startswith("_"):
                    ns_set(m, s, f, k, v)
    elif a == 5:  # UNARY_POSITIVE
        pass
    elif a in (7, 8, 9, 10, 11):
        f.stk[-1] = mk("typing", "T")
    f.pc += 1


@slow("CALL_INTRINSIC_2")
def _intr2(m, s, f, i):
    f.stk.pop()
    f.pc += 1


# ---------------------------------------------------------------- attributes
@slow("LOAD_ATTR")
def _lattr(m, s, f, i):
    v = f.stk.pop()
    name = i.val
    if i.arg & 1:
        f.stk.append(NULL)
    r = getattr_(m, s, v, name)
    if r is not PENDING:
        f.stk.append(r)
        f.pc += 1


@slow("LOAD_SUPER_ATTR")
def _lsattr(m, s, f, i):
    slf = f.stk.pop()
    cl = f.stk.pop()
    f.stk.pop()
    name = i.val
    if slf.op == "cls":
        cv = slf
    else:
        ob = m.get(s, slf)
        cv = ob.a[0]
    if i.arg & 1:
        f.stk.append(NULL)
    a = m.lookup(cv, name, after=cl)
    if a is None:
        a = m.nat.super_ext(m, s, cv, cl, name, slf)
        f.stk.append(a)
        f.pc += 1
        return
    if a.op == "prop":
        r = call_into(m, s, a.a[0], [slf], {})
        if r is not PENDING:
            f.stk.append(r)
            f.pc += 1
        return
    f.stk.append(bind_attr(m, s, a, slf, cv))
    f.pc += 1


@slow("STORE_ATTR")
def _sattr(m, s, f, i):
    ref = f.stk.pop()
    val = f.stk.pop()
    r = setattr_(m, s, ref, i.val, val)
    if r is not PENDING:
        f.pc += 1


@slow("DELETE_ATTR")
def _dattr(m, s, f, i):
    ref = f.stk.pop()
    ob = m.get(s, ref)
    if ob.op == "inst" and i.val in ob.a[1]:
        k = ob.a[1].index(i.val)
        vals = list(ob.a[2:])
        del vals[k]
        m.put(s, ref, mk("inst", ob.a[0], tuple(n for n in ob.a[1] if n != i.val), *vals))
    f.pc += 1


# ---------------------------------------------------------------- branches
def branch_value(m, s, f, v):
    """Truth of v, or None when a __bool__/__len__ frame was pushed (operand will be replaced)."""
    if v.op == "r":
        ob = m.get(s, v)
        if ob.op == "inst" and ob.a[0].op == "cls":
            for n in ("__bool__", "__len__"):
                a = m.lookup(ob.a[0], n)
                if a is not None:
                    if a.op == "fn" and is_abstract_stub(m, ob.a[0], n):
                        continue
                    call_into(m, s, a, [v], {}, ("truth",))
                    return None
    return m.truth(s, v)


def is_abstract_stub(m, cv, n):
    return False


@slow("POP_JUMP_IF_FALSE")
def _pjif(m, s, f, i):
    v = f.stk.pop()
    t = branch_value(m, s, f, v)
    if t is None:
        return
    f.pc = f.pc + 1 if t else i.tgt


@slow("POP_JUMP_IF_TRUE")
def _pjit(m, s, f, i):
    v = f.stk.pop()
    t = branch_value(m, s, f, v)
    if t is None:
        return
    f.pc = i.tgt if t else f.pc + 1


@slow("POP_JUMP_IF_NONE")
def _pjin(m, s, f, i):
    v = f.stk.pop()
    f.pc = i.tgt if m.is_none(s, v) else f.pc + 1


@slow("POP_JUMP_IF_NOT_NONE")
def _pjinn(m, s, f, i):
    v = f.stk.pop()
    f.pc = f.pc + 1 if m.is_none(s, v) else i.tgt


@slow("UNARY_NOT")
def _unot(m, s, f, i):
    v = f.stk[-1]
    t = branch_value(m, s, f, v)
    if t is None:
        f.stk.pop()
        return
    f.stk[-1] = b(not t)
    f.pc += 1


@slow("UNARY_NEGATIVE")
def _uneg(m, s, f, i):
    f.stk[-1] = neg(f.stk[-1])
    f.pc += 1


@slow("UNARY_INVERT")
def _uinv(m, s, f, i):
    v = f.stk[-1]
    f.stk[-1] = c(~cval(v)) if isc(v) else o("inv", v)
    f.pc += 1


@slow("IS_OP")
def _isop(m, s, f, i):
    y = f.stk.pop()
    x = f.stk.pop()
    f.stk.append(b(m.is_(s, x, y) != bool(i.arg)))
    f.pc += 1


@slow("COMPARE_OP")
def _cmp(m, s, f, i):
    y = f.stk.pop()
    x = f.stk.pop()
    op = i.val
    if op in ("==", "!="):
        for p, q in ((x, y), (y, x)):
            if p.op == "r":
                ob = m.get(s, p)
                if ob.op == "inst" and ob.a[0].op == "cls":
                    e = m.lookup(ob.a[0], "__eq__")
                    if e is not None:
                        r = call_into(m, s, e, [p, q], {}, ("push",) if op == "==" else ("not",))
                        assert r is PENDING
                        return
        r = m.eq(s, x, y)
        f.stk.append(b(r if op == "==" else not r))
    else:
        if x.op == "r":
            x = m.nat.as_value(m, s, x)
        if y.op == "r":
            y = m.nat.as_value(m, s, y)
        if op == "<":
            r = m.lt(s, x, y)
        elif op == ">":
            r = m.lt(s, y, x)
        elif op == "<=":
            r = not m.lt(s, y, x)
        elif op == ">=":
            r = not m.lt(s, x, y)
        else:
            raise Limit(f"compare {op}")
        f.stk.append(b(r))
    f.pc += 1


@slow("CONTAINS_OP")
def _contains(m, s, f, i):
    cont = f.stk.pop()
    x = f.stk.pop()
    if cont.op == "r":
        ob = m.get(s, cont)
        if ob.op == "inst" and ob.a[0].op == "cls":
            e = m.lookup(ob.a[0], "__contains__")
            if e is not None:
                r = call_into(m, s, e, [cont, x], {}, ("not",) if i.arg else ("push",))
                return
    r = m.nat.contains(m, s, cont, x)
    f.stk.append(b(r != bool(i.arg)))
    f.pc += 1


@slow("MATCH_CLASS")
def _mclass(m, s, f, i):
    names = f.stk.pop()
    cl = f.stk.pop()
    subj = f.stk.pop()
    n = i.arg
    if not m.isinstance_(s, subj, cl):
        f.stk.append(NONE)
        f.pc += 1
        return
    out = []
    nm = [cval(x) for x in names.a]
    if n:
        if cl.op == "nat" or cl.op == "x" and cl.a[0] in ("builtins.str", "builtins.bytes", "builtins.int", "builtins.bytearray", "builtins.dict", "builtins.list", "builtins.tuple", "builtins.float", "builtins.bool"):
            out.append(subj)
        else:
            ma = m.lookup(cl, "__match_args__")
            if ma is None and cl.op == "cls" and cinfo(cl).dc is not None:
                ma = tup(*[c(x[0]) for x in cinfo(cl).dc])
            if ma is None:
                raise Limit("positional class pattern")
            nm = [cval(x) for x in ma.a[:n]] + nm
    for x in nm:
        r = getattr_(m, s, subj, x)
        if r is PENDING:
            raise Limit("property in class pattern")
        out.append(r)
    f.stk.append(tup(*out))
    f.pc += 1


@slow("MATCH_MAPPING")
def _mmap(m, s, f, i):
    v = f.stk[-1]
    f.stk.append(b(m.isinstance_(s, v, ext("collections.abc.Mapping"))))
    f.pc += 1


@slow("MATCH_SEQUENCE")
def _mseq(m, s, f, i):
    v = f.stk[-1]
    if v.op == "t":
        r = True
    elif v.op == "r":
        r = m.get(s, v).op == "list"
    elif isc(v):
        r = False
    else:
        r = m.isinstance_(s, v, ext("collections.abc.Sequence"))
    f.stk.append(b(r))
    f.pc += 1


@slow("MATCH_KEYS")
def _mkeys(m, s, f, i):
    keys = f.stk[-1]
    subj = f.stk[-2]
    vals = []
    for k in keys.a:
        if not m.nat.contains(m, s, subj, k):
            f.stk.append(NONE)
            f.pc += 1
            return
        vals.append(m.nat.getitem(m, s, subj, k))
    f.stk.append(tup(*vals))
    f.pc += 1


@slow("GET_LEN")
def _getlen(m, s, f, i):
    f.stk.append(m.nat.length(m, s, f.stk[-1]))
    f.pc += 1


# ---------------------------------------------------------------- exceptions
@fast("PUSH_EXC_INFO")
def _pei(m, s, f, i):
    e = f.stk.pop()
    f.stk.append(f.exc)
    f.stk.append(e)
    f.exc = e
    f.pc += 1


@fast("POP_EXCEPT")
def _pe(m, s, f, i):
    f.exc = f.stk.pop()
    f.pc += 1


@slow("CHECK_EXC_MATCH")
def _cem(m, s, f, i):
    t = f.stk.pop()
    e = f.stk[-1]
    f.stk.append(b(m.isinstance_(s, e, t)))
    f.pc += 1


@slow("RERAISE")
def _reraise(m, s, f, i):
    e = f.stk.pop()
    if i.arg:
        # restore the position of the original instruction for table lookup: handled by the table itself
        pass
    raise PyRaise(e)


@slow("RAISE_VARARGS")
def _raise(m, s, f, i):
    if i.arg == 0:
        for g in reversed(s.frames):
            if g.exc is not NONE:
                raise PyRaise(g.exc)
        m.raise_ext(s, "builtins.RuntimeError", c("No active exception to reraise"))
    cause = None
    if i.arg == 2:
        cause = f.stk.pop()
    e = f.stk.pop()
    if e.op == "cls" or (e.op == "x" and m.is_exc_class(e)):
        # raise a class: instantiate
        r = call_into(m, s, e, [], {}, ("push",))
        if r is PENDING:
            raise Limit("raise of class with __init__")
        e = r
    if e is NONE or isc(e):
        m.raise_ext(s, "builtins.TypeError", c("exceptions must derive from BaseException"))
    if e.op == "r":
        if cause is not None:
            m.setfield(s, e, "__cause__", cause)
        elif f.exc is not NONE and m.field(m.get(s, e), "__context__") is None and f.exc is not e:
            pass
    raise PyRaise(e)


@slow("CLEANUP_THROW")
def _cthrow(m, s, f, i):
    e = f.stk.pop()
    f.stk.pop()
    f.stk.pop()
    if isexc(m, s, e, "builtins.StopIteration"):
        f.stk.append(NONE)
        f.stk.append(m.field(m.get(s, e), "value") or NONE)
        f.pc += 1
        return
    raise PyRaise(e)


@slow("BEFORE_WITH", "BEFORE_ASYNC_WITH")
def _bwith(m, s, f, i):
    cm = f.stk.pop()
    a = "a" if i.op == "BEFORE_ASYNC_WITH" else ""
    ex = getattr_(m, s, cm, f"__{a}exit__")
    en = getattr_(m, s, cm, f"__{a}enter__")
    if ex is PENDING or en is PENDING:
        raise Limit("context manager dunder as property")
    f.stk.append(ex)
    r = call_into(m, s, en, [], {}, ("with",))
    if r is not PENDING:
        f.stk.append(r)
        f.pc += 1


@slow("WITH_EXCEPT_START")
def _wes(m, s, f, i):
    e = f.stk[-1]
    ex = f.stk[-4]
    t = m.class_of(s, e) or o("type", e)
    r = call_into(m, s, ex, [t, e, o("tb", e)], {})
    if r is not PENDING:
        f.stk.append(r)
        f.pc += 1


# ---------------------------------------------------------------- iteration, generators, await
@slow("GET_ITER")
def _giter(m, s, f, i):
    v = f.stk.pop()
    if v.op == "r":
        ob = m.get(s, v)
        if ob.op == "inst" and ob.a[0].op == "cls":
            a = m.lookup(ob.a[0], "__iter__")
            if a is not None:
                call_into(m, s, a, [v], {}, ("iter",))
                return
    f.stk.append(m.nat.get_iter(m, s, v))
    f.pc += 1


@slow("GET_YIELD_FROM_ITER")
def _gyfi(m, s, f, i):
    v = f.stk[-1]
    if v.op == "r" and m.get(s, v).op == "gen":
        f.pc += 1
        return
    f.stk.pop()
    _giter_after(m, s, f, v)


def _giter_after(m, s, f, v):
    if v.op == "r":
        ob = m.get(s, v)
        if ob.op == "inst" and ob.a[0].op == "cls":
            a = m.lookup(ob.a[0], "__iter__")
            if a is not None:
                call_into(m, s, a, [v], {}, ("iter",))
                return
    f.stk.append(m.nat.get_iter(m, s, v))
    f.pc += 1


STOP = object()


@slow("FOR_ITER")
def _foriter(m, s, f, i):
    it = f.stk[-1]
    ob = m.get(s, it) if it.op == "r" else None
    if ob is not None and ob.op == "gen":
        resume(m, s, it, NONE, "for")
        return
    if ob is not None and ob.op == "inst":
        a = m.lookup(ob.a[0], "__next__")
        if a is None:
            raise Limit("iterator without __next__")
        # the loop ends when __next__ raises StopIteration: use a trampoline frame tag
        call_into(m, s, a, [it], {}, ("fornext",))
        return
    r = m.nat.iter_next(m, s, it)
    if r is STOP:
        for_exhausted(m, s, f)
    else:
        f.stk.append(r)
        f.pc += 1


@slow("GET_AITER")
def _gaiter(m, s, f, i):
    v = f.stk.pop()
    if v.op == "r":
        ob = m.get(s, v)
        if ob.op == "inst":
            a = m.lookup(ob.a[0], "__aiter__") if ob.a[0].op == "cls" else None
            if a is None:
                m.raise_ext(s, "builtins.TypeError", c("'async for' requires __aiter__"))
            r = call_into(m, s, a, [v], {})
            if r is not PENDING:
                f.stk.append(r)
                f.pc += 1
            return
        if ob.op == "gen":
            if ob.a[0] != "agen":
                m.raise_ext(s, "builtins.TypeError", c(f"'async for' requires __aiter__, got {ob.a[0]}"))
            f.stk.append(v)
            f.pc += 1
            return
        if ob.op in ("list", "dict", "liter", "oiter"):
            m.raise_ext(s, "builtins.TypeError", c("'async for' requires __aiter__"))
    f.stk.append(v)
    f.pc += 1


@slow("GET_ANEXT")
def _ganext(m, s, f, i):
    v = f.stk[-1]
    if v.op == "r":
        ob = m.get(s, v)
        if ob.op == "gen":
            f.stk.append(mk("anext", v))
            f.pc += 1
            return
        if ob.op == "inst":
            a = m.lookup(ob.a[0], "__anext__")
            r = call_into(m, s, a, [v], {})
            if r is not PENDING:
                f.stk.append(r)
                f.pc += 1
            return
    f.stk.append(mk("anext", v))
    f.pc += 1


@slow("GET_AWAITABLE")
def _gaw(m, s, f, i):
    v = f.stk[-1]
    if v.op == "r":
        ob = m.get(s, v)
        if ob.op == "inst" and ob.a[0].op == "cls":
            a = m.lookup(ob.a[0], "__await__")
            if a is None:
                m.raise_ext(s, "builtins.TypeError", c("object can't be used in 'await' expression"))
            f.stk.pop()
            r = call_into(m, s, a, [v], {})
            if r is not PENDING:
                f.stk.append(r)
                f.pc += 1
            return
        if ob.op in ("list", "dict", "liter", "hdr", "ba") or (ob.op == "gen" and ob.a[0] == "agen") or (ob.op == "gen" and ob.a[0] == "gen" and False):
            m.raise_ext(s, "builtins.TypeError", c("object can't be used in 'await' expression"))
    elif v.op in ("c", "t", "enum", "cls"):
        m.raise_ext(s, "builtins.TypeError", c("object can't be used in 'await' expression"))
    f.pc += 1


@slow("SEND")
def _send(m, s, f, i):
    val = f.stk[-1]
    recv = f.stk[-2]
    if recv.op == "anext":
        g = recv.a[0]
        if g.op == "r" and m.get(s, g).op == "gen":
            resume(m, s, g, NONE, "anext")
            return
        r = m.nat.opaque_anext(m, s, g)
        if r is STOP:
            raise PyRaise(m.exc_inst(s, ext("builtins.StopAsyncIteration")))
        send_done(m, s, r)
        return
    if recv.op == "agm":
        # awaitable returned by agen.aclose()/asend()/athrow()/anext(agen, default)
        op, g = recv.a[0], recv.a[1]
        if op == "aclose":
            resume_close(m, s, g)
            return
        if op == "anextd":
            resume(m, s, g, NONE, "anextd", extra=(recv.a[2],))
            return
        if op == "athrow":
            resume(m, s, g, NONE, "anext", throw=recv.a[2])
            return
        raise Limit(f"async generator method {op}")
    if recv.op == "ready":
        send_done(m, s, recv.a[0])
        return
    if recv.op == "r":
        ob = m.get(s, recv)
        if ob.op == "gen":
            resume(m, s, recv, val, "send")
            return
        if ob.op in ("liter", "oiter"):
            r = m.nat.iter_next(m, s, recv)
            if r is STOP:
                send_done(m, s, NONE)
            else:
                f.stk[-1] = r
                f.pc += 1
            return
        if ob.op == "inst":
            a = m.lookup(ob.a[0], "__next__")
            if a is not None:
                call_into(m, s, a, [recv], {}, ("fornext_send",))
                return
        raise Limit(f"SEND to {ob.op} at {m.where(s)}")
    r = m.nat.opaque_await(m, s, recv)
    send_done(m, s, r)


def resume_close(m, s, g):
    """await agen.aclose() / gen.close(): GeneratorExit is thrown at the suspension point."""
    ob = m.get(s, g)
    if ob.a[1] in ("done", "new"):
        m.put(s, g, mk("gen", ob.a[0], "done", NONE))
        send_done(m, s, NONE)
        return
    e = m.exc_inst(s, ext("builtins.GeneratorExit"))
    resume(m, s, g, NONE, "closesend", throw=e)


@slow("YIELD_VALUE")
def _yield(m, s, f, i):
    v = f.stk.pop()
    gen_yield(m, s, v)


@slow("END_ASYNC_FOR")
def _eaf(m, s, f, i):
    e = f.stk.pop()
    it = f.stk.pop()
    if m.isinstance_(s, e, ext("builtins.StopAsyncIteration")):
        f.pc += 1
        return
    raise PyRaise(e)


# ---------------------------------------------------------------- data
@slow("BUILD_TUPLE")
def _btup(m, s, f, i):
    n = i.arg
    v = f.stk[len(f.stk) - n:] if n else []
    if n:
        del f.stk[len(f.stk) - n:]
    f.stk.append(tup(*v))
    f.pc += 1


@slow("BUILD_LIST")
def _blist(m, s, f, i):
    n = i.arg
    v = f.stk[len(f.stk) - n:] if n else []
    if n:
        del f.stk[len(f.stk) - n:]
    f.stk.append(m.alloc(s, mk("list", *v)))
    f.pc += 1


@slow("BUILD_SET")
def _bset(m, s, f, i):
    n = i.arg
    v = f.stk[len(f.stk) - n:] if n else []
    if n:
        del f.stk[len(f.stk) - n:]
    f.stk.append(m.alloc(s, mk("set", *dict.fromkeys(v))))
    f.pc += 1


@slow("BUILD_MAP")
def _bmap(m, s, f, i):
    n = i.arg
    v = f.stk[len(f.stk) - 2 * n:] if n else []
    if n:
        del f.stk[len(f.stk) - 2 * n:]
    d = mk("dict")
    for k in range(n):
        d = m.nat.dict_set(d, v[2 * k], v[2 * k + 1])
    f.stk.append(m.alloc(s, d))
    f.pc += 1


@slow("BUILD_CONST_KEY_MAP")
def _bckm(m, s, f, i):
    keys = f.stk.pop()
    n = i.arg
    v = f.stk[len(f.stk) - n:]
    del f.stk[len(f.stk) - n:]
    d = mk("dict")
    for k, x in zip(keys.a, v):
        d = m.nat.dict_set(d, k, x)
    f.stk.append(m.alloc(s, d))
    f.pc += 1


@slow("BUILD_STRING")
def _bstr(m, s, f, i):
    n = i.arg
    v = f.stk[len(f.stk) - n:]
    del f.stk[len(f.stk) - n:]
    f.stk.append(cat(*v))
    f.pc += 1


@slow("FORMAT_VALUE")
def _fmtv(m, s, f, i):
    fl = i.arg
    spec = None
    if fl & 4:
        spec = f.stk.pop()
    v = f.stk.pop()
    conv = fl & 3
    if conv == 2:
        f.stk.append(m.nat.repr_(m, s, v))
        f.pc += 1
        return
    if spec is not None and not (isc(spec) and cval(spec) == ""):
        if isc(v) and isc(spec):
            f.stk.append(c(format(cval(v), cval(spec))))
        else:
            f.stk.append(o("fmt", v, spec))
        f.pc += 1
        return
    r = m.nat.str_(m, s, v)
    if r is not PENDING:
        f.stk.append(r)
        f.pc += 1


@slow("BUILD_SLICE")
def _bslice(m, s, f, i):
    st = f.stk.pop() if i.arg == 3 else NONE
    hi = f.stk.pop()
    lo = f.stk.pop()
    f.stk.append(mk("slc", lo, hi, st))
    f.pc += 1


@slow("BINARY_SLICE")
def _bisl(m, s, f, i):
    hi = f.stk.pop()
    lo = f.stk.pop()
    v = f.stk.pop()
    f.stk.append(m.nat.getslice(m, s, v, lo, hi))
    f.pc += 1


@slow("STORE_SLICE")
def _ssl(m, s, f, i):
    raise Limit(f"slice assignment at {m.where(s)}")


@slow("BINARY_SUBSCR")
def _bsub(m, s, f, i):
    k = f.stk.pop()
    v = f.stk.pop()
    if v.op == "r":
        ob = m.get(s, v)
        if ob.op == "inst" and ob.a[0].op == "cls":
            a = m.lookup(ob.a[0], "__getitem__")
            if a is not None:
                call_into(m, s, a, [v, k], {})
                return
    if v.op == "cls":
        a = m.lookup(v, "__class_getitem__")
        if cinfo(v).enum is None:
            f.stk.append(v)
            f.pc += 1
            return
    r = m.nat.getitem(m, s, v, k)
    f.stk.append(r)
    f.pc += 1


@slow("STORE_SUBSCR")
def _ssub(m, s, f, i):
    k = f.stk.pop()
    v = f.stk.pop()
    val = f.stk.pop()
    if v.op == "r":
        ob = m.get(s, v)
        if ob.op == "inst" and ob.a[0].op == "cls":
            a = m.lookup(ob.a[0], "__setitem__")
            if a is not None:
                call_into(m, s, a, [v, k, val], {}, ("discard",))
                return
    m.nat.setitem(m, s, v, k, val)
    f.pc += 1


@slow("DELETE_SUBSCR")
def _dsub(m, s, f, i):
    k = f.stk.pop()
    v = f.stk.pop()
    if v.op == "r":
        ob = m.get(s, v)
        if ob.op == "inst" and ob.a[0].op == "cls":
            a = m.lookup(ob.a[0], "__delitem__")
            if a is not None:
                call_into(m, s, a, [v, k], {}, ("discard",))
                return
    m.nat.delitem(m, s, v, k)
    f.pc += 1


@slow("LIST_APPEND")
def _lapp(m, s, f, i):
    v = f.stk.pop()
    r = f.stk[-i.arg]
    ob = m.get(s, r)
    m.put(s, r, m.nat.list_append(ob, v))
    f.pc += 1


@slow("SET_ADD")
def _sadd(m, s, f, i):
    v = f.stk.pop()
    r = f.stk[-i.arg]
    ob = m.get(s, r)
    if v not in ob.a:
        m.put(s, r, mk("set", *ob.a, v))
    f.pc += 1


@slow("MAP_ADD")
def _mapadd(m, s, f, i):
    v = f.stk.pop()
    k = f.stk.pop()
    r = f.stk[-i.arg]
    m.nat.setitem(m, s, r, k, v)
    f.pc += 1


@slow("LIST_EXTEND", "SET_UPDATE")
def _lext(m, s, f, i):
    v = f.stk.pop()
    r = f.stk[-i.arg]
    items = m.nat.as_segments(m, s, v)
    if items is None:
        # generator or custom iterable: drain through the prelude
        fn = m.modules["__prelude__"]["_extend_into" if i.op == "LIST_EXTEND" else "_update_into"]
        call_into(m, s, fn, [r, v], {}, ("discard",))
        return
    ob = m.get(s, r)
    if i.op == "LIST_EXTEND":
        m.put(s, r, mk("list", *ob.a, *items))
    else:
        m.put(s, r, mk("set", *dict.fromkeys(ob.a + tuple(items))))
    f.pc += 1


@slow("DICT_MERGE", "DICT_UPDATE")
def _dmerge(m, s, f, i):
    v = f.stk.pop()
    r = f.stk[-i.arg]
    d = m.get(s, r)
    d = m.nat.dict_update(m, s, d, v)
    m.put(s, r, d)
    f.pc += 1


@slow("UNPACK_SEQUENCE")
def _unpack(m, s, f, i):
    v = f.stk.pop()
    n = i.arg
    items = m.nat.unpack(m, s, v, n)
    for x in reversed(items):
        f.stk.append(x)
    f.pc += 1


@slow("UNPACK_EX")
def _unpackex(m, s, f, i):
    v = f.stk.pop()
    before, after = i.arg & 0xFF, i.arg >> 8
    segs = m.nat.as_segments(m, s, v)
    if segs is None or any(x.op == "star" for x in segs):
        src = o("content", m.get(s, v)) if v.op == "r" else v
        lst = [o("item", src, c(k)) for k in range(before)]
        rest = m.alloc(s, mk("list", star(o("each", src))))
        tail = [o("item", src, c(-after + k)) for k in range(after)]
    else:
        if len(segs) < before + after:
            m.raise_ext(s, "builtins.ValueError", c("not enough values to unpack"))
        lst = list(segs[:before])
        rest = m.alloc(s, mk("list", *segs[before: len(segs) - after]))
        tail = list(segs[len(segs) - after:]) if after else []
    for x in reversed(lst + [rest] + tail):
        f.stk.append(x)
    f.pc += 1


@slow("BINARY_OP")
def _binop(m, s, f, i):
    y = f.stk.pop()
    x = f.stk.pop()
    op = i.val if isinstance(i.val, str) else BIN_NAMES[i.arg]
    inplace = op.endswith("=") and op not in ("==",)
    if inplace:
        op = op[:-1]
    r = binop(m, s, op, x, y, inplace)
    if r is PENDING:
        return
    f.stk.append(r)
    f.pc += 1


BIN_NAMES = {}
try:
    import opcode as _oc

    for _k, (_n, _sym) in enumerate(_oc._nb_ops):
        BIN_NAMES[_k] = _sym
except Exception:  # pragma: no cover
    pass


def binop(m, s, op, x, y, inplace=False):
    if isc(x) and isc(y):
        try:
            return c(BINOPS[op](cval(x), cval(y)))
        except (ZeroDivisionError, TypeError, ValueError) as e:
            m.raise_ext(s, "builtins." + type(e).__name__, c(str(e)))
    if op == "|" and (x.op in ("cls", "x", "union", "typing", "nat") or x is NONE) and (y.op in ("cls", "x", "union", "typing", "nat") or y is NONE):
        xs = x.a if x.op == "union" else (x,)
        ys = y.a if y.op == "union" else (y,)
        return mk("union", *dict.fromkeys(xs + ys))
    xo = m.get(s, x) if x.op == "r" else None
    yo = m.get(s, y) if y.op == "r" else None
    if xo is not None and xo.op == "inst" and xo.a[0].op == "cls":
        nm = {"+": "__add__", "-": "__sub__", "|": "__or__", "*": "__mul__", "/": "__truediv__", "%": "__mod__"}.get(op)
        a = m.lookup(xo.a[0], nm) if nm else None
        if a is not None:
            return call_into(m, s, a, [x, y], {})
    if op == "+":
        if x.op == "t" and y.op == "t":
            return tup(*x.a, *y.a)
        if xo is not None and xo.op == "list":
            segs = m.nat.as_segments(m, s, y)
            if segs is None:
                fn = m.modules["__prelude__"]["_extend_into"]
                if not inplace:
                    raise Limit("list + iterable")
                call_into(m, s, fn, [x, y], {}, ("push",))
                return PENDING
            if inplace:
                m.put(s, x, mk("list", *xo.a, *segs))
                return x
            return m.alloc(s, mk("list", *xo.a, *segs))
        if (xo is not None and xo.op == "ba") or (yo is not None and yo.op == "ba"):
            xv, yv = m.nat.as_value(m, s, x), m.nat.as_value(m, s, y)
            if xo is not None and xo.op == "ba":
                if inplace:
                    m.put(s, x, mk("ba", catb(xv, yv)))
                    return x
                return m.alloc(s, mk("ba", catb(xv, yv)))
            return catb(xv, yv)
        kx, ky = kind(x), kind(y)
        if "str" in (kx, ky):
            for kk in (kx, ky):
                if kk in ("int", "bytes", "NoneType", "float", "tuple"):
                    m.raise_ext(s, "builtins.TypeError", c("can only concatenate str to str"))
            return cat(x, y)
        if "bytes" in (kx, ky):
            for kk in (kx, ky):
                if kk in ("int", "str", "NoneType", "float", "tuple"):
                    m.raise_ext(s, "builtins.TypeError", c("can't concat to bytes"))
            return catb(x, y)
        if "float" not in (kx, ky) and ("int" in (kx, ky)):
            return sum_([x, y], 0)
        a_, b_ = sorted((x, y), key=repr) if "any" not in (kx, ky) else (x, y)
        return o("num", "+", a_, b_)
    if op == "-":
        kx, ky = kind(x), kind(y)
        if "float" not in (kx, ky) and "num" not in (kx, ky) and "any" not in (kx, ky):
            return sum_([x, neg(y)], 0)
        return o("num", "-", x, y)
    if op == "*":
        if x.op == "t" and isc(y):
            return tup(*(x.a * cval(y)))
        for u, n in ((x, y), (y, x)):
            if kind(u) in ("str", "bytes") and kind(n) in ("int", "bool", "num"):
                return o("repeat", u, n)
        a_, b_ = sorted((x, y), key=repr)
        return o("num", "*", a_, b_)
    if op == "%" and kind(x) == "str":
        return m.nat.percent(m, s, x, y)
    if op == "|" and xo is not None and xo.op == "dict":
        d = m.nat.dict_update(m, s, xo, y)
        if inplace:
            m.put(s, x, d)
            return x
        return m.alloc(s, d)
    if op in ("|", "&", "^") and not (xo or yo):
        a_, b_ = sorted((x, y), key=repr)
        return o("num", op, a_, b_)
    if xo is not None and xo.op == "set":
        if op == "|" and yo is not None:
            return m.alloc(s, mk("set", *dict.fromkeys(xo.a + yo.a)))
        return m.alloc(s, mk("set", star(o("setop", op, xo, yo or y))))
    return o("num", op, x, y)


# ---------------------------------------------------------------- classes
def build_class(m, s, args, kw):
    fn, name = args[0], args[1]
    bases = list(args[2:])
    kw = dict(kw)
    metacls = kw.pop("metaclass", None)
    ns = m.alloc(s, mk("dict"), site=f"ns:{fn.a[0].key}")
    f = bind(m, s, mk("fn", fn.a[0], fn.a[1], fn.a[2], fn.a[3]), [], {})
    f.ns = ns
    f.tag = ("class", cval(name), tup(*bases), fn.a[0], tup(*[mk("kvp", c(k), v) for k, v in kw.items()]))
    s.frames.append(f)
    return PENDING


_class_cache: dict = {}


def finish_class(m, s, f, tag):
    _, name, bases, code, kwt = tag
    d = m.get(s, f.ns)
    ns = {}
    for kv in d.a:
        ns[cval(kv.a[0])] = kv.a[1]
    ann = []
    an = ns.get("__annotations__")
    if an is not None:
        ann = [(cval(kv.a[0]), kv.a[1]) for kv in m.get(s, an).a]
    ns.pop("__annotations__", None)
    bs = []
    for x in bases.a:
        if x.op == "cls":
            bs.append(x)
        elif x.op == "x":
            if x.a[0] in ("typing.Generic", "builtins.object", "abc.ABC", "typing_extensions.Generic"):
                continue
            bs.append(x)
            mx = m.modules.get("__prelude__", {}).get("abc_" + x.a[0].rsplit(".", 1)[-1]) if x.a[0].startswith(("collections.abc.", "typing.")) else None
            if mx is not None:
                bs.append(mx)
        elif x.op == "r" and m.get(s, x).op == "inst":
            continue
        elif x.op in ("typing", "union", "o"):
            continue
        else:
            bs.append(x)
    # the __class__ cell
    key = (code.key, tuple(bs), tuple(sorted((k, v) for k, v in ns.items() if k not in ("__classcell__", "__module__", "__qualname__") for k, v in [(k, v)])) if False else tuple((k, ns[k]) for k in sorted(ns) if k not in ("__classcell__",)), m)
    ci = _class_cache.get(key) if not m.initing else None
    if ci is None:
        ci = ClassInfo(name, code.mod, tuple(bs), {k: v for k, v in ns.items()}, code.key)
        ci.qual = code.name
        ci.dc_frozen = False
        ci.ann = ann
        ci.line = code.co.co_firstlineno
        ci.path = code.path
        if not m.initing:
            _class_cache[key] = ci
        m.classes[f"{code.mod}.{code.name}"] = ci
    v = cls_v(ci)
    cell = ns.get("__classcell__")
    ci.ns.pop("__classcell__", None)
    if cell is not None:
        m.put(s, cell, mk("cell", v))
    # enum?
    for b_ in bs:
        if (b_.op == "x" and b_.a[0] in ("enum.Enum", "enum.IntEnum", "enum.StrEnum", "enum.Flag", "enum.IntFlag")) or (
            b_.op == "cls" and cinfo(b_).enum is not None
        ):
            m.nat.make_enum(m, s, v, ci)
            break
    for b_ in bs:
        if b_.op == "x" and b_.a[0].endswith("typing.NamedTuple"):
            ci.nt = True
            m.nat.make_dataclass(m, s, v, {})
    h = m.hooks.get("class")
    if h:
        h(m, s, v, ci)
    for b_ in m.mro(v)[1:]:
        if b_.op == "cls":
            isub = cinfo(b_).ns.get("__init_subclass__")
            if isub is not None:
                break
    return v
