"""The headers container against a model of it: an ordered list of values per name, whatever the case."""

from base import *
from connectrpc.request import Headers

__paths__(40000)
V = [__opaque__("value 0", "str"), __opaque__("value 1", "str"), __opaque__("value 2", "str"), __opaque__("value 3", "str")]
NAMES = ["X-Name", "x-name", "Other-Bin"]


class Model:
    __identity__ = True

    def __init__(self):
        self.d = {}

    def add(self, k, v):
        k = k.lower()
        if k not in self.d:
            self.d[k] = []
        self.d[k] = self.d[k] + [v]

    def set(self, k, v):
        self.d[k.lower()] = [v]


def same(got, want):
    """Lists of the very same values."""
    if len(got) != len(want):
        return False
    for i in range(len(want)):
        if got[i] is not want[i]:
            return False
    return True


def pairs_of(model):
    return [(k, v) for k in model.d for v in model.d[k]]


def items_same(got, want):
    """The same pairs, those of one name in the same order."""
    if len(got) != len(want):
        return False
    for n in ("x-name", "other-bin"):
        if not same([v for k, v in got if k == n], [v for k, v in want if k == n]):
            return False
    for k, v in got:
        if k != "x-name" and k != "other-bin":
            return False
    return True


def observe(h, m):
    """Every way to look at the container must agree with the model."""
    if len(h) != len(m.d):
        __violation__("C19.len", "the number of names is wrong")
    for view in (list(h), list(h.keys())):
        if sorted(view) != sorted(m.d):
            __violation__("C19.names", "iterating the names gives other names than the container holds")
    if not items_same(list(h.items()), [(k, m.d[k][0]) for k in m.d]):
        __violation__("C19.items", "items() is not the first value of every name")
    if len(list(h.values())) != len(m.d):
        __violation__("C19.values", "values() is not one value per name")
    al = h.allitems()
    want = pairs_of(m)
    if not items_same(list(al), want):
        __violation__("C19.allitems", "allitems() is not every value of every name in the order they were added")
    if len(al) != len(want):
        __violation__("C19.allitems-len", "len(allitems()) is not the number of values")
    for k, v in want:
        if (k, v) not in al:
            __violation__("C19.allitems-in", "a pair of allitems() is not in it")
    if ("absent", "") in al:
        __violation__("C19.allitems-in", "a pair that is not stored is in allitems()")
    if not items_same(list(al), want):
        __violation__("C19.allitems", "allitems() cannot be iterated twice")
    if bool(h) != bool(m.d):
        __violation__("C19.bool", "the truth of the container is not whether it holds something")
    for n in NAMES + ["x-absent", "OTHER-BIN"]:
        vs = m.d.get(n.lower(), [])
        if (n in h) != bool(vs):
            __violation__("C19.contains", "membership disagrees with what is stored")
        if not same(list(h.getall(n)), vs):
            __violation__("C19.getall", "getall() is not every value of the name in the order they were added")
        g = h.get(n)
        if g is not (vs[0] if vs else None):
            __violation__("C19.get", "get() is not the first value of the name, or None")
        try:
            x = h[n]
        except KeyError:
            x = None
        if x is not (vs[0] if vs else None):
            __violation__("C19.getitem", "subscripting is not the first value of the name, or a KeyError")


def start():
    """A container reached by some history, and its model."""
    m = Model()
    k = __choose__(11, "history")
    if k == 0:
        return Headers(), m
    if k == 1:
        m.add("A", V[0])
        m.d = {"x-name": [V[0]], "other-bin": [V[1]]}
        return Headers({"X-Name": V[0], "other-bin": V[1]}), m
    if k == 2:
        m.d = {"x-name": [V[0], V[2]], "other-bin": [V[1]]}
        return Headers([("X-Name", V[0]), ("other-bin", V[1]), ("x-name", V[2])]), m
    if k == 3:
        m.d = {"x-name": [V[0]]}
        return Headers((("x-NAME", V[0]),)), m
    h = Headers()
    h.add("X-Name", V[0])
    if k == 4:
        m.d = {"x-name": [V[0]]}
        return h, m
    h.add("x-name", V[1])
    if k == 5:
        m.d = {"x-name": [V[0], V[1]]}
        return h, m
    if k == 6:
        h["X-NAME"] = V[2]
        m.d = {"x-name": [V[2]]}
        return h, m
    if k == 7:
        del h["X-name"]
        return h, m
    h.add("Other-Bin", V[2])
    if k == 8:
        m.d = {"x-name": [V[0], V[1]], "other-bin": [V[2]]}
        return h, m
    if k == 9:
        h.clear()
        return h, m
    h.add("other-bin", V[0])
    h.add("X-name", V[0])
    m.d = {"x-name": [V[0], V[1], V[0]], "other-bin": [V[2], V[0]]}
    return h, m


def one_op(h, m, k=None):
    if k is None:
        k = __choose__(10, "operation")
    if k == 0:
        h.clear()
        m.d = {}
        return
    if k == 1:
        h.update({"X-NAME": V[3]})
        m.set("x-name", V[3])
        return
    if k == 2:
        h.update([("OTHER-bin", V[3])])
        m.set("other-bin", V[3])
        return
    if k == 3:
        try:
            p = h.popitem()
        except KeyError:
            p = None
        if p is None:
            if m.d:
                __violation__("C19.popitem", "popitem() finds nothing in a container that holds something")
                __prune__()
            return
        if p[0] not in m.d or p[1] is not m.d[p[0]][0]:
            __violation__("C19.popitem", "popitem() gives something that is not stored")
            __prune__()
        del m.d[p[0]]
        return
    n = NAMES[__choose__(3, "name")]
    l = n.lower()
    if k == 4:
        h.add(n, V[3])
        m.add(n, V[3])
    elif k == 5:
        h[n] = V[3]
        m.set(n, V[3])
    elif k == 6:
        try:
            del h[n]
            ok = True
        except KeyError:
            ok = False
        if ok != (l in m.d):
            __violation__("C19.del", "deleting disagrees with what is stored")
            __prune__()
        m.d.pop(l, None)
    elif k == 7:
        x = h.pop(n, None)
        if x is not (m.d[l][0] if l in m.d else None):
            __violation__("C19.pop", "pop() is not the first value of the name, or the default")
        m.d.pop(l, None)
    elif k == 8:
        try:
            x = h.pop(n)
        except KeyError:
            x = None
        if x is not (m.d[l][0] if l in m.d else None):
            __violation__("C19.pop", "pop() is not the first value of the name, or a KeyError")
        m.d.pop(l, None)
    else:
        x = h.setdefault(n, V[3])
        if l not in m.d:
            m.set(n, V[3])
        if x is not m.d[l][0]:
            __violation__("C19.setdefault", "setdefault() is not the first value of the name")


def container():
    h, m = start()
    observe(h, m)
    one_op(h, m)
    observe(h, m)
    __cover__("operation")


def history(first):
    h, m = start()
    one_op(h, m, first)
    one_op(h, m)
    observe(h, m)
    __cover__("operation")


def copies():
    """A container built from the pairs of another shares nothing with it."""
    h, m = start()
    c = Headers(list(h.allitems()))
    observe(c, m)
    m2 = Model()
    m2.d = dict(m.d)
    one_op(c, m2)
    observe(h, m)
    observe(c, m2)
    __cover__("operation")


def views():
    """The view of all pairs is a set of pairs like the other views."""
    h, m = start()
    al = h.allitems()
    if not (al == h.allitems()):
        __violation__("C19.allitems-eq", "allitems() does not equal itself")
    __cover__("operation")


def driver(what, *args):
    try:
        {"container": container, "history": history, "copies": copies, "views": views}[what](*args)
    except Exception as e:
        __violation__("C19.raises", f"the container raises {type(e).__name__}")
