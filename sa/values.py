"""Abstract values, heap objects and abstract states.

Every value is a provenance term: a constant, an input symbol, a term built
from the operation that produced it, or a reference to an abstract heap object.
Nothing here executes repository code.
"""
import re


class V:
    """Immutable abstract value: a kind and a tuple of arguments."""

    __slots__ = ("k", "a", "h")

    def __init__(self, k, *a):
        self.k = k
        self.a = a
        self.h = hash((k,) + a)

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return self is o or (isinstance(o, V) and self.h == o.h and self.k == o.k and self.a == o.a)

    def __ne__(self, o):
        return not self == o

    def __repr__(self):
        return show(self)


def C(v):
    if isinstance(v, float) and v != v:
        return V("c", "float", "nan")
    return V("c", type(v).__name__, v)


NONE, TRUE, FALSE = C(None), C(True), C(False)
OPEN = V("open")  # marks "and any further elements" inside a list


def TUP(items):
    return V("tup", *items)


def SYM(name, hint=None):
    return V("sym", name, hint)


def T(op, *args):
    return V("t", op, *args)


def REF(oid):
    return V("ref", oid)


def FN(info, env, self_=None, defaults=()):
    return V("fn", info, env, self_, defaults)


def CLS(info):
    return V("cls", info)


def EXT(name):
    return V("ext", name)


def MOD(name):
    return V("mod", name)


def CH(vals):
    out = []
    for v in vals:
        for w in v.a if v.k == "ch" else (v,):
            if w not in out:
                out.append(w)
    if len(out) == 1:
        return out[0]
    return V("ch", *out)


def EXC(cls, *args):
    return V("exc", cls, *args)


def is_c(v, *types):
    return v.k == "c" and (not types or isinstance(v.a[1], types))


def cval(v):
    return v.a[1]


def show(v, depth=4):
    if not isinstance(v, V):
        return str(v)
    if depth <= 0:
        return "…"
    k = v.k
    if k == "c":
        return repr(v.a[1])
    if k == "sym":
        return "<%s>" % v.a[0]
    if k == "tup":
        return "(" + ", ".join(show(x, depth - 1) for x in v.a) + ")"
    if k == "t":
        return "%s(%s)" % (v.a[0], ", ".join(show(x, depth - 1) for x in v.a[1:]))
    if k == "ref":
        return "obj[%s]" % (v.a[0],)
    if k == "fn":
        return "fn:%s" % v.a[0].qual
    if k == "cls":
        return "class:%s" % v.a[0].name
    if k == "ext":
        return v.a[0]
    return "%s(%s)" % (k, ", ".join(show(x, depth - 1) for x in v.a))


def walk(v):
    """All sub-values of a value (not following heap references)."""
    stack = [v]
    while stack:
        x = stack.pop()
        if isinstance(x, V):
            yield x
            stack.extend(y for y in x.a if isinstance(y, (V, tuple)))
        elif isinstance(x, tuple):
            stack.extend(y for y in x if isinstance(y, (V, tuple)))


def contains(v, needle):
    return any(x == needle for x in walk(v))


def syms(v):
    return {x.a[0] for x in walk(v) if x.k == "sym"}


class H:
    """Immutable heap object (replaced, never mutated)."""

    __slots__ = ("kind", "cls", "f", "items", "ver", "_h")

    def __init__(self, kind, cls=None, f=None, items=(), ver=0):
        self.kind = kind
        self.cls = cls
        self.f = f if f is not None else {}
        self.items = items
        self.ver = ver
        self._h = None

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.kind, self.cls, frozenset(self.f.items()), self.items))
        return self._h

    def __eq__(self, o):
        return self is o or (
            isinstance(o, H)
            and self.kind == o.kind
            and self.cls == o.cls
            and self.items == o.items
            and self.f == o.f
        )

    def with_f(self, name, val):
        f = dict(self.f)
        f[name] = val
        return H(self.kind, self.cls, f, self.items, self.ver)

    def without_f(self, name):
        f = dict(self.f)
        f.pop(name, None)
        return H(self.kind, self.cls, f, self.items, self.ver)

    def with_items(self, items):
        return H(self.kind, self.cls, self.f, tuple(items), self.ver + 1)


def is_open(h):
    """True if the container may hold elements that are not listed."""
    if h.kind in ("list", "set"):
        return any(x.k in ("open", "star") for x in h.items)
    return any(e[0] == "s" for e in h.items)


class Ev:
    __slots__ = ("kind", "d", "site", "_h")

    def __init__(self, kind, site, **d):
        self.kind = kind
        self.d = d
        self.site = site
        self._h = None

    def __getattr__(self, n):
        try:
            return self.d[n]
        except KeyError:
            raise AttributeError(n)

    def get(self, n, default=None):
        return self.d.get(n, default)

    def ident(self):
        return (self.kind, self.site, tuple(sorted((k, _hashable(v)) for k, v in self.d.items())))

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.kind, self.site))
        return self._h

    def __eq__(self, o):
        return self is o or (self.kind == o.kind and self.site == o.site and self.d == o.d)

    def __repr__(self):
        d = {k: v for k, v in self.d.items() if k not in ("node",) and v not in (None, (), {})}
        return "%s@%s %s" % (self.kind, self.site, ", ".join("%s=%s" % (k, _short(v)) for k, v in d.items()))


def _short(v):
    if isinstance(v, V):
        return show(v, 3)
    if isinstance(v, (tuple, list)):
        return "[" + ", ".join(_short(x) for x in v) + "]"
    if isinstance(v, dict):
        return "{" + ", ".join("%s: %s" % (k, _short(x)) for k, x in v.items()) + "}"
    return str(v)


def _hashable(v):
    if isinstance(v, dict):
        return tuple(sorted((k, _hashable(x)) for k, x in v.items()))
    if isinstance(v, list):
        return tuple(_hashable(x) for x in v)
    return v


class State:
    __slots__ = ("heap", "base", "ev", "facts", "held", "ctr", "pend", "threads", "thread", "epoch")

    def __init__(self, base=None):
        self.base = base if base is not None else {}
        self.heap = {}
        self.ev = ()
        self.facts = {}
        self.held = ()
        self.ctr = {}
        self.pend = None
        self.threads = ()
        self.thread = "main"
        self.epoch = 0

    def fork(self):
        s = State.__new__(State)
        s.base = self.base
        s.heap = dict(self.heap)
        s.ev = self.ev
        s.facts = dict(self.facts)
        s.held = self.held
        s.ctr = dict(self.ctr)
        s.pend = self.pend
        s.threads = self.threads
        s.thread = self.thread
        s.epoch = self.epoch
        return s

    def get(self, oid):
        h = self.heap.get(oid)
        if h is None:
            h = self.base.get(oid)
        return h

    def obj(self, v):
        return self.get(v.a[0]) if v.k == "ref" else None

    def put(self, oid, h):
        self.heap[oid] = h

    def sig(self):
        return (frozenset(self.heap.items()), self.ev, self.held, self.pend, self.threads, self.thread, self.epoch)


def distinct(a, b):
    """Two values that can never be equal, whatever their symbols stand for."""
    if a.k == "c" and b.k == "c":
        return a != b and cval(a) != cval(b)
    if a.k == "tup" and b.k == "tup":
        return len(a.a) != len(b.a) or any(distinct(x, y) for x, y in zip(a.a, b.a))
    return {a.k, b.k} == {"tup", "c"}


def spelled(fmt, how, args):
    """The parts of a text made by "%s" or "{}", if it is made of nothing else."""
    parts = re.split(r"%s|%d" if how == "%" else r"\{\}", fmt)
    rest = "".join(parts)
    if len(parts) != len(args) + 1 or any(c in rest for c in ("%" if how == "%" else "{}")) or any(x.k in ("star", "spread") for x in args):
        return None
    out = []
    for i, t in enumerate(parts):
        if t:
            out.append(C(t))
        if i < len(args):
            out.append(args[i])
    return out
