"""CPython 3.12 code objects as the intermediate representation: decoding, exception tables, liveness."""

from __future__ import annotations

import dis
import inspect

CO_GEN = inspect.CO_GENERATOR
CO_CORO = inspect.CO_COROUTINE
CO_AGEN = inspect.CO_ASYNC_GENERATOR


class Instr:
    __slots__ = ("op", "arg", "val", "tgt", "line", "idx")

    def __init__(self, op, arg, val, line, idx):
        self.op, self.arg, self.val, self.line, self.idx = op, arg, val, line, idx
        self.tgt = None

    def __repr__(self):
        return f"{self.idx}:{self.op} {self.arg} {self.val!r}"


class CodeInfo:
    """Decoded code object."""

    def __init__(self, co, modname, path):
        self.co = co
        self.mod = modname
        self.path = path
        self.name = co.co_qualname
        self.key = f"{modname}:{co.co_qualname}:{co.co_firstlineno}"
        self.flags = co.co_flags
        self.argcount = co.co_argcount
        self.kwonly = co.co_kwonlyargcount
        self.posonly = co.co_posonlyargcount
        self.varargs = bool(co.co_flags & inspect.CO_VARARGS)
        self.varkw = bool(co.co_flags & inspect.CO_VARKEYWORDS)
        extra = [x for x in co.co_cellvars if x not in co.co_varnames]
        self.locnames = list(co.co_varnames) + extra + list(co.co_freevars)
        self.nloc = len(self.locnames)
        self.free0 = self.nloc - len(co.co_freevars)
        self.kind = (
            "agen" if co.co_flags & CO_AGEN else "coro" if co.co_flags & CO_CORO else "gen" if co.co_flags & CO_GEN else "fn"
        )
        self._decode()
        self.children: dict = {}

    def __repr__(self):
        return f"<{self.name}>"

    def child(self, co):
        r = self.children.get(co)
        if r is None:
            r = self.children[co] = CodeInfo(co, self.mod, self.path)
        return r

    def _decode(self):
        co = self.co
        ins = []
        off2idx = {}
        pend = []
        line = co.co_firstlineno
        for i in dis.get_instructions(co):
            if i.positions and i.positions.lineno:
                line = i.positions.lineno
            if i.opname == "EXTENDED_ARG" or i.opname == "CACHE":
                pend.append(i.offset)
                continue
            for p in pend:
                off2idx[p] = len(ins)
            pend = []
            off2idx[i.offset] = len(ins)
            val = i.argval
            n = Instr(i.opname, i.arg, val, line, len(ins))
            if i.opcode in dis.hasjrel or i.opcode in dis.hasjabs:
                n.tgt = val
            ins.append(n)
        end = len(ins)
        self.off2idx = off2idx
        for n in ins:
            if n.tgt is not None:
                n.tgt = off2idx[n.tgt]
        self.ins = ins
        # exception table
        self.exc = [None] * end
        ents = dis._parse_exception_table(co)
        offs = sorted(off2idx)

        def idx_at(off):
            # first instruction index whose offset >= off
            import bisect

            j = bisect.bisect_left(offs, off)
            return off2idx[offs[j]] if j < len(offs) else end

        for e in ents:
            s, t = idx_at(e.start), idx_at(e.end)
            for k in range(s, t):
                self.exc[k] = (off2idx[e.target], e.depth, e.lasti)
        # merge points: jump targets and exception handlers
        self.loophead = set()
        self.join = set()
        for n in ins:
            if n.tgt is not None:
                if n.op.startswith("JUMP_BACKWARD") and n.op != "JUMP_BACKWARD_NO_INTERRUPT":
                    self.loophead.add(n.tgt)
                elif n.op != "SEND":
                    self.join.add(n.tgt)
        for e in ents:
            self.join.add(off2idx[e.target])
        self._liveness()

    def _succ(self, i):
        n = self.ins[i]
        op = n.op
        s = []
        if op in ("RETURN_VALUE", "RETURN_CONST", "RAISE_VARARGS", "RERAISE"):
            pass
        elif op in ("JUMP_FORWARD", "JUMP_BACKWARD", "JUMP_BACKWARD_NO_INTERRUPT"):
            s.append(n.tgt)
        else:
            if i + 1 < len(self.ins):
                s.append(i + 1)
            if n.tgt is not None:
                s.append(n.tgt)
        if self.exc[i]:
            s.append(self.exc[i][0])
        return s

    def _liveness(self):
        n = len(self.ins)
        use = [0] * n
        dfn = [0] * n
        nm = {x: i for i, x in enumerate(self.locnames)}
        cells = set(self.co.co_cellvars) | set(self.co.co_freevars)
        keep = 0
        for x in cells:
            keep |= 1 << nm[x]
        for i, ins in enumerate(self.ins):
            op = ins.op
            if op in ("LOAD_FAST", "LOAD_FAST_CHECK", "LOAD_FAST_AND_CLEAR", "DELETE_FAST", "LOAD_CLOSURE",
                      "LOAD_DEREF", "LOAD_CLASSDEREF", "STORE_DEREF"):
                use[i] |= 1 << nm[ins.val]
            elif op == "STORE_FAST":
                dfn[i] |= 1 << nm[ins.val]
        live = [0] * (n + 1)
        succ = [self._succ(i) for i in range(n)]
        ch = True
        while ch:
            ch = False
            for i in range(n - 1, -1, -1):
                o_ = 0
                for s in succ[i]:
                    o_ |= live[s]
                v = use[i] | (o_ & ~dfn[i])
                # an instruction that may raise can reach the handler with the pre-state
                if self.exc[i]:
                    v |= live[self.exc[i][0]]
                if v != live[i]:
                    live[i] = v
                    ch = True
        self.dead = []
        self._live = live
        self._keep = keep
        self._da = {}
        self._succs = succ
        for i in range(n):
            l = live[i] | keep
            self.dead.append([k for k in range(self.nloc) if not (l >> k) & 1])

    def dead_after(self, i):
        """Locals dead once the (call) instruction at i completes, normally or by an exception."""
        r = self._da.get(i)
        if r is None:
            l = self._keep
            for t in self._succs[i]:
                l |= self._live[t]
            r = self._da[i] = [k for k in range(self.nloc) if not (l >> k) & 1]
        return r
