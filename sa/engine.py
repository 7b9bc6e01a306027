"""Abstract interpreter for the Python subset used by the analysed repository.

The analysis is an interprocedural, flow-sensitive dataflow analysis in the
style of property simulation: abstract states carry the events seen so far and
the branch facts; states that agree on heap and events are merged at every
statement boundary; loops over unknown iterables are analysed once from a
widened (havocked) state; calls into the repository are inlined on the
abstract state, calls leaving it become events with provenance terms.
No repository code is imported or run, and no solver is involved.
"""

import ast
import builtins as _pybuiltins
import os
import time

from .values import *  # noqa
from .values import _short

UNROLL = 40
MAX_STATES = 400
MAX_DEPTH = 60

PURE_METHODS = {
    "lower", "upper", "strip", "split", "replace", "startswith", "endswith", "format", "join", "encode", "decode",
    "get", "keys", "items", "values", "isoformat", "title", "rstrip", "lstrip", "capitalize", "splitlines", "group",
    "count", "index", "is_regular_ll", "hexdigest", "digest", "as_posix", "with_name", "with_suffix", "total_seconds",
}
PURE_EXT = {
    "os.path.join", "os.path.dirname", "os.path.basename", "os.path.splitext", "os.path.expanduser",
    "os.path.realpath", "os.path.abspath", "os.path.normpath", "os.path.commonpath", "os.path.relpath",
    "builtins.str", "builtins.int", "builtins.float", "builtins.bool", "builtins.abs", "builtins.min", "builtins.max",
    "builtins.len", "builtins.sum", "builtins.round", "builtins.type", "builtins.repr", "builtins.ord",
    "builtins.callable", "builtins.hash", "builtins.id", "builtins.range", "builtins.chr", "builtins.bytes",
    "builtins.divmod", "builtins.pow", "builtins.reversed",
    "json.dumps", "json.loads", "re.match", "re.search", "re.compile", "re.fullmatch", "math.prod",
    "numpy.array", "numpy.asarray", "numpy.allclose", "numpy.isclose", "platform.system", "pathlib.Path", "os.fspath",
    "struct.pack", "struct.unpack", "numpy.dtype", "numpy.frombuffer", "operator.itemgetter", "operator.attrgetter",
}
NOISE_ROOTS = ("logging.", "LOG.")
NEVER_NONE = {"matched", "str", "fstr", "fmt", "digest", "list", "dict", "set", "os.path.join", "os.path.realpath", "os.path.abspath", "os.path.basename", "os.path.dirname", "builtins.str", "builtins.int", "builtins.float", "builtins.len", "builtins.bool", "builtins.list", "builtins.dict", "builtins.sorted", "builtins.open"}

class AnalysisError(Exception):
    """The analysis cannot decide (an anchor vanished, an unsupported construct)."""


class FuncInfo:
    def __init__(self, node, module, qual, cls, line):
        self.node = node
        self.module = module
        self.qual = qual
        self.cls = cls  # ClassInfo or None
        self.name = getattr(node, "name", "<lambda>")
        self.line = line
        self.decorators = []
        body = node.body if isinstance(node.body, list) else [ast.Expr(node.body)]
        self.body = body
        self.is_lambda = isinstance(node, ast.Lambda)
        self.locals, self.globals, self.nonlocals = local_names(node)
        self.is_gen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in own_nodes(body))
        self.abstract = False

    def __hash__(self):
        return id(self.node)

    def __eq__(self, o):
        return isinstance(o, FuncInfo) and self.node is o.node

    def __repr__(self):
        return "F(%s)" % self.qual


class ClassInfo:
    def __init__(self, name, module, qual, node, oid):
        self.name = name
        self.module = module
        self.qual = qual
        self.node = node
        self.oid = oid
        self.bases = []
        self.mro = [self]
        self.record = None  # fields of a dataclass

    def __repr__(self):
        return "K(%s)" % self.qual

    def ext_bases(self):
        return [b for b in self.mro if isinstance(b, str)]

    def repo_mro(self):
        return [b for b in self.mro if isinstance(b, ClassInfo)]

    def is_sub(self, other):
        return other in self.mro


def own_nodes(body):
    """Nodes of a body not descending into nested functions/classes/lambdas."""
    stack = list(body)
    while stack:
        n = stack.pop()
        yield n
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
                yield c
                continue
            stack.append(c)


def target_names(t):
    if isinstance(t, ast.Name):
        yield t.id
    elif isinstance(t, (ast.Tuple, ast.List)):
        for e in t.elts:
            yield from target_names(e)
    elif isinstance(t, ast.Starred):
        yield from target_names(t.value)


def local_names(node):
    names, glob, nonl = set(), set(), set()
    a = node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        names.add(x.arg)
    if a.vararg:
        names.add(a.vararg.arg)
    if a.kwarg:
        names.add(a.kwarg.arg)
    body = node.body if isinstance(node.body, list) else [ast.Expr(node.body)]
    stack = list(body)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
            names.add(n.name)
            continue
        if isinstance(n, ast.Lambda):
            continue
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            # comprehension scope; only walrus leaks, and the first iterable is evaluated outside
            for c in ast.walk(n):
                if isinstance(c, ast.NamedExpr):
                    names.update(target_names(c.target))
            continue
        if isinstance(n, ast.Global):
            glob.update(n.names)
        elif isinstance(n, ast.Nonlocal):
            nonl.update(n.names)
        elif isinstance(n, ast.Assign):
            for t in n.targets:
                names.update(target_names(t))
        elif isinstance(n, (ast.AugAssign, ast.AnnAssign, ast.NamedExpr)):
            names.update(target_names(n.target))
        elif isinstance(n, (ast.For, ast.AsyncFor)):
            names.update(target_names(n.target))
        elif isinstance(n, ast.With):
            for i in n.items:
                if i.optional_vars is not None:
                    names.update(target_names(i.optional_vars))
        elif isinstance(n, ast.ExceptHandler):
            if n.name:
                names.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                names.add((al.asname or al.name).split(".")[0])
        elif isinstance(n, ast.Delete):
            for t in n.targets:
                names.update(target_names(t))
        elif isinstance(n, (ast.MatchAs, ast.MatchStar)):
            if n.name:
                names.add(n.name)
        stack.extend(ast.iter_child_nodes(n))
    return names - glob - nonl, glob, nonl


class Ctl:
    __slots__ = ("returns", "raises", "breaks", "conts")

    def __init__(self):
        self.returns, self.raises, self.breaks, self.conts = [], [], [], []

    def extend(self, o):
        self.returns += o.returns
        self.raises += o.raises
        self.breaks += o.breaks
        self.conts += o.conts


class Frame:
    def __init__(self, info, env, module, cls=None, first=None, parent=None):
        self.info = info
        self.env = env
        self.module = module
        self.cls = cls
        self.first = first
        self.ctl = Ctl()
        self.yield_cb = None
        self.parent = parent
        self.depth = parent.depth + 1 if parent else 0
        self.exc = []  # exceptions being handled
        self.escaped = False

    def chain(self):
        out, f = [], self
        while f is not None:
            if f.info is not None:
                out.append(f.info.qual)
            f = f.parent
        return tuple(reversed(out))


class Outcome:
    def __init__(self, kind, value, state):
        self.kind = kind  # return | raise
        self.value = value
        self.state = state
        self.events = state.ev

    def __repr__(self):
        return "%s %s" % (self.kind, show(self.value))



class Tidy(ast.NodeTransformer):
    """`while True: if c: break; ...` is `while not c: ...`."""

    def visit_While(self, n):
        self.generic_visit(n)
        while isinstance(n.test, ast.Constant) and n.test.value and not n.orelse and isinstance(n.body[0], ast.If) and len(n.body[0].body) == 1 and isinstance(n.body[0].body[0], ast.Break):
            first = n.body[0]
            test = first.test.operand if isinstance(first.test, ast.UnaryOp) and isinstance(first.test.op, ast.Not) else ast.copy_location(ast.UnaryOp(ast.Not(), first.test), first.test)
            n = ast.copy_location(ast.While(test, (first.orelse + n.body[1:]) or [ast.copy_location(ast.Pass(), first)], []), n)
        return n


class Engine:
    def __init__(self, root, pkg="earthkit.regrid", only=None):
        self.deadline = time.monotonic() + 600
        self.root = root
        self.pkg = pkg
        self.src = {}
        self.trees = {}
        self.is_pkg = set()
        self._scan(only)
        self.modules = {}  # name -> env oid
        self.modstate = {}
        self.state0 = State()
        self.joining = True
        self.loading = []
        # per-exploration hooks
        self.interest = None
        self.opaque = {}
        self.models = {}
        self.may_raise = None
        self.assume = None
        self.serve = False
        self.track = None
        self.stats_funcs = set()
        self.stats_calls = set()
        self.stats_sites = set()
        self.stats_states = 0
        self.unsupported = set()
        self.in_request = 0
        self.deadlocks = []
        from . import models

        self.lib = models.Models(self)

    # ------------------------------------------------------------------ loading
    def _scan(self, only):
        base = os.path.join(self.root, "src", *self.pkg.split("."))
        for dp, dn, fn in os.walk(base):
            dn[:] = sorted(d for d in dn if d != "__pycache__")
            for f in sorted(fn):
                if not f.endswith(".py"):
                    continue
                p = os.path.join(dp, f)
                rel = os.path.relpath(p, os.path.join(self.root, "src"))
                name = rel[:-3].replace(os.sep, ".")
                ispkg = False
                if name.endswith(".__init__"):
                    name = name[: -len(".__init__")]
                    ispkg = True
                with open(p, encoding="utf-8") as fh:
                    src = fh.read()
                try:
                    tree = Tidy().visit(ast.parse(src, p))
                except SyntaxError as e:
                    raise AnalysisError("cannot parse %s: %s" % (p, e))
                self.src[name] = p
                self.trees[name] = tree
                if ispkg:
                    self.is_pkg.add(name)
        if not self.trees:
            raise AnalysisError("no source found under %s" % base)

    def relpath(self, module):
        p = self.src.get(module)
        return os.path.relpath(p, self.root) if p else module

    def site(self, fr, node):
        rel = self.relpath(fr.module)
        q = fr.info.qual if fr.info is not None else "<module>"
        return "%s:%s:%s" % (rel, getattr(node, "lineno", 0), q)

    def load(self, name, st, fr=None):
        """Ensure module `name` has been (abstractly) initialised; return state list."""
        if name in self.modules:
            return st
        parent = name.rpartition(".")[0]
        if parent in self.trees and parent not in self.modules:
            st = self.load(parent, st, fr)
            if name in self.modules:
                return st
        return self.add_module(name, self.trees[name], st)

    def add_module(self, name, tree, st):
        oid = "mod:" + name
        self.modules[name] = oid
        f = {
            "__name__": C(name),
            "__file__": C(self.src.get(name, name)),
            "__package__": C(name if name in self.is_pkg else name.rpartition(".")[0]),
            "__doc__": NONE,
        }
        st.put(oid, H("env", None, f))
        fr = Frame(None, oid, name)
        was = self.joining
        self.joining = True
        try:
            out = self.block(tree.body, [st], fr)
        finally:
            self.joining = was
        if not out:
            why = [show(e) for _, e in fr.ctl.raises]
            raise AnalysisError("module %s does not initialise: %s" % (name, why))
        return out[0]

    def load_all(self, names=None):
        st = self.state0
        for n in names or sorted(self.trees):
            st = self.load(n, st)
        self.state0 = st
        self.freeze()

    def freeze(self):
        """Make the module-initialisation heap the shared base of all explorations."""
        st = self.state0
        base = dict(st.base)
        base.update(st.heap)
        s = State(base)
        s.ctr = dict(st.ctr)
        s.threads = st.threads
        self.state0 = s
        self.joining = False

    # ------------------------------------------------------------------ helpers
    def uid(self, st, node, fr, tag=""):
        key = (fr.module, getattr(node, "lineno", 0), getattr(node, "col_offset", 0), tag)
        n = st.ctr.get(key, 0) + 1
        st.ctr[key] = n
        m = fr.module.rpartition(".")[2]
        return "%s:%d:%d%s#%d" % (m, key[1], key[2], tag, n)

    def new(self, st, h, node, fr, tag=""):
        oid = self.uid(st, node, fr, "o" + h.kind[0] + tag)
        st.put(oid, h)
        return REF(oid)

    def emit(self, st, kind, fr, node, **d):
        if self.interest is None:
            return
        e = Ev(kind, self.site(fr, node), **d)
        if self.interest(e, st, fr):
            e.d["held"] = st.held
            e.d["thread"] = st.thread
            e.d["fn"] = fr.chain()
            st.ev = st.ev + (e,)

    def raise_(self, st, exc, fr, node):
        self.emit(st, "raise", fr, node, exc=exc)
        fr.ctl.raises.append((st, exc))
        return []

    def raise_b(self, st, name, msg, fr, node):
        return self.raise_(st, EXC(EXT("builtins." + name), C(msg)), fr, node)

    # ------------------------------------------------------------------ merging
    def merge(self, states):
        if len(states) <= 1:
            return states
        if self.joining:
            return [self.join_all(states)]
        by = {}
        order = []
        for s in states:
            k = s.sig()
            o = by.get(k)
            if o is None:
                by[k] = s
                order.append(k)
            else:
                self._mergefacts(o, s)
        out = [by[k] for k in order]
        if len(out) > MAX_STATES:
            out = self.widen(out)
        return out

    @staticmethod
    def _mergefacts(o, s):
        if o.facts != s.facts:
            o.facts = {a: b for a, b in o.facts.items() if s.facts.get(a) == b}
        if o.ctr != s.ctr:
            for k, n in s.ctr.items():
                if o.ctr.get(k, 0) < n:
                    o.ctr[k] = n

    def widen(self, states):
        """Join states that agree on events (bounded disjunctions)."""
        by = {}
        for s in states:
            by.setdefault((s.ev, s.held, s.pend, s.threads, s.thread), []).append(s)
        return [self.join_all(g) for g in by.values()]

    def join_all(self, states):
        out = states[0]
        for s in states[1:]:
            out = self.join(out, s)
        return out

    def join(self, a, b):
        self._mergefacts(a, b)
        a.held = a.held if a.held == b.held else tuple(x for x in a.held if x in b.held)
        for t in b.threads:
            if t not in a.threads:
                a.threads = a.threads + (t,)
        for oid, hb in b.heap.items():
            ha = a.get(oid)
            if ha is None:
                a.heap[oid] = hb
            elif ha is not hb and ha != hb:
                a.heap[oid] = self.join_h(ha, hb)
        for oid in list(a.heap):
            if oid not in b.heap:
                hb = b.get(oid)
                if hb is not None and hb != a.heap[oid]:
                    a.heap[oid] = self.join_h(a.heap[oid], hb)
        return a

    def join_h(self, x, y):
        f = dict(x.f)
        for k, v in y.f.items():
            if k in f:
                if f[k] != v:
                    f[k] = self.join_v(f[k], v)
            else:
                f[k] = v
        items = x.items
        if x.items != y.items:
            items = list(x.items)
            if x.kind in ("dict", "inst"):
                keys = {e[1]: i for i, e in enumerate(items) if e[0] == "k"}
                for e in y.items:
                    if e[0] == "k" and e[1] in keys:
                        i = keys[e[1]]
                        items[i] = ("k", e[1], self.join_v(items[i][2], e[2]))
                    elif e not in items:
                        items.append(e)
                if not any(e[0] == "s" for e in items) and x.kind == "dict":
                    pass
            else:
                common = 0
                while common < min(len(x.items), len(y.items)) and x.items[common] == y.items[common]:
                    common += 1
                items = list(x.items[:common]) + [OPEN] + [i for i in x.items[common:] if i != OPEN]
                items += [i for i in y.items[common:] if i not in items]
            items = tuple(items)
        return H(x.kind, x.cls, f, items, max(x.ver, y.ver) + 1)

    def join_v(self, a, b):
        if a == b:
            return a
        ch = CH([a, b])
        if ch.k == "ch" and len(ch.a) > 8:
            return SYM("join", None)
        return ch

    def merge_pairs(self, pairs):
        if len(pairs) <= 1:
            return pairs
        if self.joining:
            v = pairs[0][1]
            for _, w in pairs[1:]:
                v = self.join_v(v, w)
            return [(self.join_all([s for s, _ in pairs]), v)]
        by, order = {}, []
        for s, v in pairs:
            k = (v, s.sig())
            o = by.get(k)
            if o is None:
                by[k] = s
                order.append(k)
            else:
                self._mergefacts(o, s)
        out = [(by[k], k[0]) for k in order]
        if len(out) > MAX_STATES:
            g = {}
            for s, v in out:
                g.setdefault((v, s.ev, s.held, s.pend, s.threads, s.thread), []).append(s)
            out = [(self.join_all(ss), k[0]) for k, ss in g.items()]
        return out

    # ------------------------------------------------------------------ statements
    def block(self, stmts, states, fr):
        for s in stmts:
            if not states:
                return states
            new = []
            for st in states:
                new += self.stmt(s, st, fr)
            states = self.merge(new)
        return states

    def stmt(self, n, st, fr):
        self.stats_states += 1
        m = getattr(self, "s_" + type(n).__name__, None)
        if m is None:
            self.unsupported.add((type(n).__name__, self.site(fr, n)))
            return [st]
        return m(n, st, fr)

    def s_Expr(self, n, st, fr):
        return [s for s, _ in self.ev(n.value, st, fr)]

    def s_Pass(self, n, st, fr):
        return [st]

    def s_Assign(self, n, st, fr):
        out = []
        for s, v in self.ev(n.value, st, fr):
            cur = [s]
            for t in n.targets:
                nxt = []
                for c in cur:
                    nxt += self.assign(t, v, c, fr)
                cur = nxt
            out += cur
        return out

    def s_AnnAssign(self, n, st, fr):
        if n.value is None:
            return [st]
        out = []
        for s, v in self.ev(n.value, st, fr):
            out += self.assign(n.target, v, s, fr)
        return out

    def s_AugAssign(self, n, st, fr):
        out = []
        load = _as_load(n.target)
        op = type(n.op).__name__
        for s, (cur, rhs) in self.evs([load, n.value], st, fr):
            h = s.obj(cur)
            if h is not None and h.kind == "list" and op == "Add":
                for s2, _ in self.lib.list_method(s, cur, "extend", [rhs], {}, fr, n):
                    out += self.assign(n.target, cur, s2, fr)
                continue
            if h is not None and h.kind == "dict" and op == "BitOr":
                for s2, _ in self.lib.dict_method(s, cur, "update", [rhs], {}, fr, n):
                    out += self.assign(n.target, cur, s2, fr)
                continue
            self.emit(s, "aug", fr, n, op=op, target=cur, value=rhs)
            for s2, v in self.binop(op, cur, rhs, s, fr, n):
                out += self.assign(n.target, v, s2, fr)
        return out

    def assign(self, t, v, st, fr):
        if isinstance(t, ast.Name):
            self.setvar(t.id, v, st, fr)
            return [st]
        if isinstance(t, ast.Starred):
            return self.assign(t.value, v, st, fr)
        if isinstance(t, (ast.Tuple, ast.List)):
            out = []
            for s, v1 in self.split(v, st):
                elems = self.unpack(v1, len(t.elts), t.elts, s, fr, t)
                if elems is None:
                    self.raise_b(s, "ValueError", "cannot unpack %s" % show(v1), fr, t)
                    continue
                cur = [s]
                for tt, vv in zip(t.elts, elems):
                    nxt = []
                    for c in cur:
                        nxt += self.assign(tt, vv, c, fr)
                    cur = nxt
                out += cur
            return out
        if isinstance(t, ast.Attribute):
            out = []
            for s, o in self.ev(t.value, st, fr):
                for s1, o1 in self.split(o, s):
                    out += self.setattr_(s1, o1, t.attr, v, fr, t)
            return out
        if isinstance(t, ast.Subscript):
            out = []
            for s, (o, i) in self.evs([t.value, t.slice], st, fr):
                for s1, o1 in self.split(o, s):
                    out += self.setitem(s1, o1, i, v, fr, t)
            return out
        self.unsupported.add((type(t).__name__, self.site(fr, t)))
        return [st]

    def unpack(self, v, n, elts, st, fr, node):
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        seq = self.concrete_iter(st, v)
        if seq is not None:
            if star:
                i = star[0]
                if len(seq) < n - 1:
                    return None
                tail = n - 1 - i
                mid = seq[i: len(seq) - tail]
                r = self.new(st, H("list", None, {}, tuple(mid)), node, fr)
                return list(seq[:i]) + [r] + list(seq[len(seq) - tail:] if tail else [])
            if len(seq) != n:
                if v.k in ("tup", "c") or st.obj(v) is not None:
                    return None
            return seq
        if v.k == "c" and not is_c(v, str, bytes, tuple):
            return None
        return [T("item", v, C(i)) for i in range(n)]

    def setvar(self, name, v, st, fr):
        info = fr.info
        oid = fr.env
        if info is not None and not isinstance(info, ClassInfo):
            if name in info.globals:
                oid = self.modules[fr.module]
            elif name in info.nonlocals:
                o = st.get(oid).cls
                while o is not None and name not in st.get(o).f:
                    o = st.get(o).cls
                if o is not None:
                    oid = o
        h = st.get(oid)
        st.put(oid, h.with_f(name, v))
        if oid.startswith("mod:"):
            self.emit(st, "setglobal", fr, fr.info.node if fr.info else None, name=name, value=v, module=oid[4:])

    def s_Return(self, n, st, fr):
        if n.value is None:
            fr.ctl.returns.append((st, NONE))
            return []
        for s, v in self.ev(n.value, st, fr):
            fr.ctl.returns.append((s, v))
        return []

    def s_If(self, n, st, fr):
        t, f = self.cond(n.test, st, fr)
        a = self.block(n.body, self.merge(t), fr)
        b = self.block(n.orelse, self.merge(f), fr) if n.orelse else self.merge(f)
        return a + b

    def s_Assert(self, n, st, fr):
        t, f = self.cond(n.test, st, fr)
        for s in f:
            self.raise_(s, EXC(EXT("builtins.AssertionError")), fr, n)
        return t

    def s_Raise(self, n, st, fr):
        if n.exc is None:
            e = fr.exc[-1] if fr.exc else EXC(EXT("builtins.RuntimeError"))
            return self.raise_(st, e, fr, n)
        nodes = [n.exc] + ([n.cause] if n.cause is not None else [])
        for s, vals in self.evs(nodes, st, fr):
            for s1, v in self.split(vals[0], s):
                if v.k in ("cls", "ext"):
                    for s2, e in self.call(v, [], {}, s1, fr, n):
                        self.raise_(s2, self.as_exc(e), fr, n)
                else:
                    self.raise_(s1, self.as_exc(v), fr, n)
        return []

    def as_exc(self, v):
        if v.k == "exc":
            return v
        return EXC(EXT("?"), v)

    def s_Global(self, n, st, fr):
        return [st]

    s_Nonlocal = s_Global

    def s_Break(self, n, st, fr):
        fr.ctl.breaks.append(st)
        return []

    def s_Continue(self, n, st, fr):
        fr.ctl.conts.append(st)
        return []

    def s_Delete(self, n, st, fr):
        cur = [st]
        for t in n.targets:
            nxt = []
            for s in cur:
                if isinstance(t, ast.Name):
                    h = s.get(fr.env)
                    s.put(fr.env, h.without_f(t.id))
                    nxt.append(s)
                elif isinstance(t, ast.Subscript):
                    for s1, (o, i) in self.evs([t.value, t.slice], s, fr):
                        for s2, o1 in self.split(o, s1):
                            nxt += self.delitem(s2, o1, i, fr, t)
                elif isinstance(t, ast.Attribute):
                    for s1, o in self.ev(t.value, s, fr):
                        h = s1.obj(o)
                        if h is not None:
                            s1.put(o.a[0], h.without_f(t.attr))
                            self.emit(s1, "setattr", fr, n, obj=o, name=t.attr, value=V("deleted"))
                        nxt.append(s1)
                else:
                    nxt.append(s)
            cur = nxt
        return cur

    def s_FunctionDef(self, n, st, fr):
        return self._funcdef(n, st, fr)

    s_AsyncFunctionDef = s_FunctionDef

    def _qual(self, fr, name):
        if fr.info is None:
            return "%s.%s" % (fr.module.replace(self.pkg + ".", ""), name)
        return "%s.%s" % (fr.info.qual, name)

    def _finfo(self, n, fr):
        cache = self.__dict__.setdefault("_finfos", {})
        fi = cache.get(id(n))
        if fi is None:
            cls = fr.info if isinstance(fr.info, ClassInfo) else None
            fi = FuncInfo(n, fr.module, self._qual(fr, getattr(n, "name", "<lambda>")), cls, n.lineno)
            cache[id(n)] = fi
        return fi

    def _funcdef(self, n, st, fr):
        a = n.args
        defaults = a.defaults + [d for d in a.kw_defaults if d is not None]
        out = []
        fr.escaped = True
        fi = self._finfo(n, fr)
        if isinstance(fr.info, ClassInfo):
            fi.cls = fr.info
        for s, dvals in self.evs(defaults, st, fr):
            env = fr.env
            if isinstance(fr.info, ClassInfo):
                env = s.get(fr.env).cls  # methods do not close over the class body
            v = FN(fi, env, None, tuple(dvals))
            cur = [(s, v)]
            for d in reversed(n.decorator_list):
                nxt = []
                for s1, v1 in cur:
                    for s2, dv in self.ev(d, s1, fr):
                        nxt += self.decorate(dv, v1, s2, fr, d)
                cur = nxt
            for s1, v1 in cur:
                self.setvar(n.name, v1, s1, fr)
                out.append(s1)
        return out

    def decorate(self, d, v, st, fr, node):
        if d.k == "ext":
            nm = d.a[0]
            if nm == "builtins.property":
                return [(st, V("prop", v, None))]
            if nm in ("builtins.staticmethod", "builtins.classmethod"):
                return [(st, V("smeth" if nm.endswith("staticmethod") else "cmeth", v))]
            if nm == "contextlib.contextmanager":
                return [(st, V("cmfn", v))]
            if nm == "abc.abstractmethod":
                if v.k == "fn":
                    v.a[0].abstract = True
                return [(st, v)]
            if nm in ("functools.cache", "functools.lru_cache"):
                return [(st, V("memo", v))]
            return [(st, v)]
        if d.k == "t":
            if d.a[0] == "attr" and d.a[1].k == "prop" and d.a[2] == C("setter"):
                return [(st, V("prop", d.a[1].a[0], v))]
            if str(d.a[0]).endswith("lru_cache"):
                return [(st, V("memo", v))]
            return [(st, v)]
        return self.call(d, [v], {}, st, fr, node)

    def s_ClassDef(self, n, st, fr):
        out = []
        kwn = [k.value for k in n.keywords]
        for s, bases in self.evs(list(n.bases) + kwn, st, fr):
            bases = bases[: len(n.bases)]
            oid = self.uid(s, n, fr, "K" + n.name)
            info = self.__dict__.setdefault("_cinfos", {}).get(oid)
            if info is None:
                info = ClassInfo(n.name, fr.module, self._qual(fr, n.name), n, oid)
                self._cinfos[oid] = info
            info.bases = bases
            lin = []
            for b in bases:
                if b.k == "cls":
                    lin.append(list(b.a[0].mro))
                elif b.k == "ext":
                    lin.append([b.a[0]])
            info.mro = _c3([info], lin)
            s.put(oid, H("cls", fr.env, {}))
            fr.escaped = True
            cfr = Frame(info, oid, fr.module, cls=info, parent=fr)
            res = self.block(n.body, [s], cfr)
            fr.ctl.raises += cfr.ctl.raises
            tup = next((b for b in bases if b.k == "ntc"), None)
            if tup is None and EXT("typing.NamedTuple") in bases:
                tup = V("ntc", n.name, tuple(x.target.id for x in n.body if isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name)))
            for r in res:
                cur = [(r, CLS(info) if tup is None else V("ntc", tup.a[0], tup.a[1], CLS(info)))]
                for d in reversed(n.decorator_list):
                    nxt = []
                    for s1, v1 in cur:
                        for s2, dv in self.ev(d, s1, fr):
                            if dv.k in ("ext", "t"):
                                if EXT("dataclasses.dataclass") == dv or (dv.k == "t" and dv.a[0] == "dataclasses.dataclass"):
                                    info.record = [x.target.id for x in n.body if isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name) and "ClassVar" not in ast.unparse(x.annotation)]
                                nxt.append((s2, v1))
                            else:
                                nxt += self.call(dv, [v1], {}, s2, fr, d)
                    cur = nxt
                for s1, v1 in cur:
                    self.setvar(n.name, v1, s1, fr)
                    out.append(s1)
        return out

    # imports -----------------------------------------------------------------
    def import_module(self, name, st):
        if name in self.trees:
            st = self.load(name, st) if self.joining else st
            if not self.joining and name not in self.modules:
                raise AnalysisError("module %s was not initialised" % name)
            return st, MOD(name)
        if name == self.pkg.split(".")[0] or self.pkg.startswith(name + "."):
            return st, EXT(name)
        return st, EXT(name)

    def s_Import(self, n, st, fr):
        for al in n.names:
            if al.name in self.trees:
                st, m = self.import_module(al.name, st)
            self.emit(st, "import", fr, n, name=al.name)
            if self.may_raise is not None and al.name not in self.trees:
                for ex in self.may_raise("import:" + al.name, fr, n) or ():
                    self.raise_(st.fork(), ex, fr, n)
            if al.asname:
                self.setvar(al.asname, MOD(al.name) if al.name in self.trees else EXT(al.name), st, fr)
            else:
                top = al.name.split(".")[0]
                self.setvar(top, MOD(top) if top in self.trees else EXT(top), st, fr)
        return [st]

    def s_ImportFrom(self, n, st, fr):
        base = n.module or ""
        if n.level:
            pk = fr.module if fr.module in self.is_pkg else fr.module.rpartition(".")[0]
            for _ in range(n.level - 1):
                pk = pk.rpartition(".")[0]
            base = pk + ("." + base if base else "")
        for al in n.names:
            full = base + "." + al.name
            name = al.asname or al.name
            if base in self.trees:
                st, _ = self.import_module(base, st)
                h = st.get(self.modules[base])
                if al.name == "*":
                    for k, v in h.f.items():
                        if not k.startswith("_"):
                            self.setvar(k, v, st, fr)
                    continue
                if al.name in h.f:
                    self.setvar(name, h.f[al.name], st, fr)
                elif full in self.trees:
                    st, m = self.import_module(full, st)
                    self.setvar(name, m, st, fr)
                else:
                    return self.raise_b(st, "ImportError", "cannot import %s" % full, fr, n)
            elif base.startswith(self.pkg + "."):
                return self.raise_b(st, "ImportError", "no module %s" % base, fr, n)
            elif full in self.trees:
                st, m = self.import_module(full, st)
                self.setvar(name, m, st, fr)
            else:
                self.setvar(name, EXT(full), st, fr)
        return [st]

    # try ---------------------------------------------------------------------
    def s_Try(self, n, st, fr):
        outer = fr.ctl
        inner = Ctl()
        fr.ctl = inner
        try:
            norm = self.block(n.body, [st], fr)
            raised, inner.raises = inner.raises, []
            norm = self.block(n.orelse, norm, fr) if n.orelse else norm
            # exceptions raised in orelse are not handled here
            pending = self._merge_raises(raised)
            res = list(norm)
            for s, exc in pending:
                res += self._handle(n.handlers, s, exc, fr, inner)
            if n.finalbody:
                fr.ctl = outer
                fin = []
                fin += self.block(n.finalbody, self.merge(res), fr)
                for kind in ("returns", "raises"):
                    for s, v in self._group(getattr(inner, kind)):
                        if is_blocked(v):
                            getattr(outer, kind).append((s, v))
                            continue
                        for s2 in self.block(n.finalbody, [s], fr):
                            getattr(outer, kind).append((s2, v))
                for kind in ("breaks", "conts"):
                    for s in self.merge(getattr(inner, kind)):
                        getattr(outer, kind).extend(self.block(n.finalbody, [s], fr))
                return fin
            outer.extend(inner)
            return res
        finally:
            fr.ctl = outer

    s_TryStar = s_Try

    def _group(self, pairs):
        return self.merge_pairs(pairs)

    def _merge_raises(self, raised):
        return self.merge_pairs(raised) if not self.joining else self._join_raises(raised)

    def _join_raises(self, raised):
        by = {}
        for s, e in raised:
            by.setdefault(e.a[0], []).append((s, e))
        return [(self.join_all([s for s, _ in g]), g[0][1]) for g in by.values()]

    def _handle(self, handlers, st, exc, fr, inner):
        out = []
        cur = st
        for h in handlers:
            if h.type is None:
                m = True if not is_blocked(exc) else False
                if m:
                    out += self._run_handler(h, cur, exc, fr)
                    return out
                continue
            tv = self.ev(h.type, cur.fork(), fr)
            m = self.exc_match(exc, tv[0][1]) if tv else None
            if m is True:
                out += self._run_handler(h, cur, exc, fr)
                return out
            if m is None:
                out += self._run_handler(h, cur.fork(), exc, fr)
        inner.raises.append((cur, exc))
        return out

    def _run_handler(self, h, st, exc, fr):
        self.emit(st, "handler", fr, h, exc=exc)
        if h.name:
            self.setvar(h.name, exc, st, fr)
        fr.exc.append(exc)
        try:
            return self.block(h.body, [st], fr)
        finally:
            fr.exc.pop()

    def exc_match(self, exc, tv):
        """True / False / None (maybe)."""
        if is_blocked(exc):
            return False
        if tv.k == "tup":
            rs = [self.exc_match(exc, x) for x in tv.a]
            if True in rs:
                return True
            return None if None in rs else False
        ec = exc.a[0]
        if ec == tv:
            return True
        if ec.k == "ch" or ec.k not in ("ext", "cls"):
            return None
        if ec == EXT("?"):
            if tv in (EXT("builtins.Exception"), EXT("builtins.BaseException")):
                return True
            return None
        if ec == EXT("?base"):
            if tv == EXT("builtins.BaseException"):
                return True
            if tv == EXT("builtins.Exception"):
                return False
            return None if tv.k == "ext" and _is_base_only(tv.a[0]) else False
        names = []
        if ec.k == "cls":
            if tv.k == "cls":
                return ec.a[0].is_sub(tv.a[0])
            names = ec.a[0].ext_bases()
        else:
            names = [ec.a[0]]
        if tv.k == "cls":
            return False
        if tv.k != "ext":
            return None
        t = _pyexc(tv.a[0])
        for nm in names:
            e = _pyexc(nm)
            if e is not None and t is not None:
                if issubclass(e, t):
                    return True
            elif e is None and t in (Exception, BaseException):
                return True
            elif nm == tv.a[0]:
                return True
            elif e is None:
                return None
        return False

    # with --------------------------------------------------------------------
    def s_With(self, n, st, fr):
        return self._with(n.items, n.body, st, fr, n)

    s_AsyncWith = s_With

    def _with(self, items, body, st, fr, n):
        if not items:
            return self.block(body, [st], fr)
        item = items[0]
        out = []
        for s0, cm0 in self.ev(item.context_expr, st, fr):
            for s, cm in self.split(cm0, s0):

                def inner(s1, val):
                    states = [s1]
                    if item.optional_vars is not None:
                        states = self.assign(item.optional_vars, val, s1, fr)
                    r = []
                    for s2 in states:
                        r += self._with(items[1:], body, s2, fr, n)
                    return r

                out += self.with_value(cm, s, fr, item.context_expr, inner)
        return out

    def with_value(self, cm, s, fr, node, inner):
        h = s.obj(cm)
        if h is not None and h.kind == "lock":
            out = []
            for s1 in self.acquire(s, cm, fr, node):
                out += self._scoped(s1, fr, lambda x: inner(x, cm), lambda x, k, e: self._rel(x, cm, fr, node))
            return out
        if cm.k == "cm":
            return self._with_gen(cm, s, fr, node, inner)
        if h is not None and h.kind == "inst":
            ent = self.class_attr(h.cls, "__enter__", s)
            ext = self.class_attr(h.cls, "__exit__", s)
            if ent is not None or ext is not None:
                out = []
                enters = (
                    self.call(self.bind(ent, cm, h.cls, s), [], {}, s, fr, node) if ent is not None else [(s, cm)]
                )
                for s1, val in enters:

                    def on_exit(x, kind, e, s1=s1):
                        args = [NONE, NONE, NONE] if kind != "raise" else [e.a[0], e, T("traceback", e)]
                        r = []
                        if ext is None:
                            return [(x, False)]
                        for x2, rv in self.call(self.bind(ext, cm, h.cls, x), args, {}, x, fr, node):
                            if kind == "raise":
                                t, f = self.branch(rv, x2, fr, node)
                                r += [(y, True) for y in t] + [(y, False) for y in f]
                            else:
                                r.append((x2, False))
                        return r

                    out += self._scoped(s1, fr, lambda x, val=val: inner(x, val), on_exit)
                return out
            if h.cls is None or not h.cls.ext_bases():
                return self.raise_b(s, "AttributeError", "__enter__", fr, node)
        # external context manager
        name = self.describe(cm)
        out = []
        suppress = name.startswith("contextlib.suppress")
        stack = name.startswith("contextlib.ExitStack")
        for s1 in self._ext_enter(cm, name, s, fr, node):
            val = T("enter", cm) if not stack else cm
            if name.startswith("sqlite3.connect") or name.endswith("Connection"):
                val = cm
            if name.startswith("contextlib.closing") and cm.k == "t" and len(cm.a) > 1:
                val = cm.a[1]

            def on_exit(x, kind, e):
                self.emit(x, "ctxexit", fr, node, cm=cm, name=name, how=kind)
                if suppress and kind == "raise":
                    ms = [self.exc_match(e, y) for y in cm.a[1:] if isinstance(y, V)]
                    if True in ms:
                        return [(x, True)]
                    if None in ms:
                        return [(x, True), (x.fork(), False)]
                return [(x, False)]

            out += self._scoped(s1, fr, lambda x: inner(x, val), on_exit)
        return out

    def _ext_enter(self, cm, name, s, fr, node):
        self.emit(s, "ctxenter", fr, node, cm=cm, name=name)
        if self.may_raise is not None:
            for ex in self.may_raise("enter:" + name, fr, node) or ():
                self.raise_(s.fork(), ex, fr, node)
        return [s]

    def _rel(self, st, lock, fr, node):
        self.release(st, lock, fr, node)
        return [(st, False)]

    def _scoped(self, st, fr, body, on_exit):
        outer = fr.ctl
        inner = Ctl()
        fr.ctl = inner
        try:
            norm = body(st)
        finally:
            fr.ctl = outer
        res = []
        for s in self.merge(norm):
            for s2, _ in on_exit(s, "normal", None):
                res.append(s2)
        for s, v in self._group(inner.returns):
            for s2, _ in on_exit(s, "return", None):
                outer.returns.append((s2, v))
        for s, e in self._merge_raises(inner.raises):
            for s2, sup in on_exit(s, "raise", e):
                if sup and not is_blocked(e):
                    res.append(s2)
                else:
                    outer.raises.append((s2, e))
        for s in self.merge(inner.breaks):
            outer.breaks += [s2 for s2, _ in on_exit(s, "break", None)]
        for s in self.merge(inner.conts):
            outer.conts += [s2 for s2, _ in on_exit(s, "cont", None)]
        return res

    def _with_gen(self, cm, st, fr, node, inner):
        """with <contextmanager function>: run the generator, resuming at the yield."""
        fnv, args, kw = cm.a
        info = fnv.a[0]
        outer = fr.ctl
        pend_outer = Ctl()
        res = []
        frames = self._enter_fn(fnv, list(args), dict(kw), st, fr, node)
        for s, gfr in frames:

            def cb(sy, val, gfr=gfr):
                body = Ctl()
                fr.ctl = body
                try:
                    norm = inner(sy, val)
                finally:
                    fr.ctl = outer
                out = []
                for x in norm:
                    x.pend = ("n", x.pend)
                    out.append(x)
                for x, v in body.returns:
                    x.pend = ("r", v, x.pend)
                    out.append(x)
                for x in body.breaks:
                    x.pend = ("b", x.pend)
                    out.append(x)
                for x in body.conts:
                    x.pend = ("c", x.pend)
                    out.append(x)
                for x, e in body.raises:
                    if is_blocked(e):
                        outer.raises.append((x, e))
                    else:
                        x.pend = ("x", x.pend)
                        gfr.ctl.raises.append((x, e))
                return out

            gfr.yield_cb = cb
            norm = self.block(info.body, [s], gfr)
            norm = norm + [x for x, _ in gfr.ctl.returns]
            for x, e in gfr.ctl.raises:
                self._leave(x, gfr)
                if x.pend is not None:
                    x.pend = x.pend[-1]
                outer.raises.append((x, e))
            for x in norm:
                self._leave(x, gfr)
                p = x.pend
                if p is None:
                    outer.raises.append((x, EXC(EXT("builtins.RuntimeError"), C("generator didn't yield"))))
                    continue
                x.pend = p[-1]
                if p[0] in ("n", "x"):  # "x": exception swallowed by the generator
                    res.append(x)
                elif p[0] == "r":
                    outer.returns.append((x, p[1]))
                elif p[0] == "b":
                    outer.breaks.append(x)
                elif p[0] == "c":
                    outer.conts.append(x)
        return self.merge(res)

    # locks ---------------------------------------------------------------------
    def acquire(self, st, lock, fr, node):
        h = st.obj(lock)
        kind = h.f.get("kind", C("Lock"))
        owner_held = lock in st.held
        self.emit(st, "acquire", fr, node, lock=lock, lkind=cval(kind), again=owner_held)
        if owner_held and cval(kind) in ("Lock",):
            # a plain lock taken twice by the same thread never returns
            if not self.joining:
                self.deadlocks.append(Ev("acquire", self.site(fr, node), lock=lock, chain=fr.chain()))
            return []
        st.held = st.held + (lock,)
        return [st]

    def release(self, st, lock, fr, node):
        self.emit(st, "release", fr, node, lock=lock, ok=lock in st.held)
        if lock in st.held:
            l = list(st.held)
            for i in range(len(l) - 1, -1, -1):
                if l[i] == lock:
                    del l[i]
                    break
            st.held = tuple(l)

    # loops ---------------------------------------------------------------------
    def s_For(self, n, st, fr):
        out = []
        for s0, it0 in self.ev(n.iter, st, fr):
            for s, it in self.split(it0, s0):
                seq = self.concrete_iter(s, it)
                if seq is not None and len(seq) <= UNROLL:
                    out += self._for_concrete(n, s, seq, fr)
                else:
                    out += self._for_generic(n, s, it, fr)
        return out

    s_AsyncFor = s_For

    def _loopbody(self, body, states, fr):
        """Run a loop body; returns (continuing states, break states)."""
        outer = fr.ctl
        inner = Ctl()
        fr.ctl = inner
        try:
            norm = self.block(body, states, fr)
        finally:
            fr.ctl = outer
        outer.returns += inner.returns
        outer.raises += inner.raises
        return self.merge(norm + inner.conts), inner.breaks

    def _for_concrete(self, n, s, seq, fr):
        states, exits = [s], []
        for e in seq:
            nxt = []
            for x in states:
                nxt += self.assign(n.target, e, x, fr)
            states, br = self._loopbody(n.body, self.merge(nxt), fr)
            exits += br
            if not states:
                break
        if n.orelse:
            states = self.block(n.orelse, states, fr)
        return self.merge(states + exits)

    def _for_generic(self, n, s, it, fr):
        self.emit(s, "loop", fr, n, what="over", iter=it)
        zero = s.fork()
        lid = self.uid(s, n, fr, "loop")
        elem = self.elem_of(it, lid, s, fr, n)

        def run(x):
            self.emit(x, "loop", fr, n, what="iter", iter=it, elem=elem)
            r = self.assign(n.target, elem, x, fr)
            return self._loopbody(n.body, r, fr)

        states, exits = self._fixpoint(s, run, fr, lid, n)
        if not exits:
            self._totals(s, zero, states, lid)
        for x in states:
            self.emit(x, "loop", fr, n, what="next", iter=it)
        nonempty = self.truth(it, zero)
        done = list(states)
        if nonempty is not True:
            done.append(zero)
        if n.orelse:
            done = self.block(n.orelse, self.merge(done), fr)
        for x in done:
            self.emit(x, "loop", fr, n, what="done", iter=it)
        for x in exits:
            self.emit(x, "loop", fr, n, what="break", iter=it)
        return self.merge(done + exits)

    def _totals(self, s, zero, states, lid):
        """A local to which every iteration adds the same function of the element is a sum over the collection."""
        for oid, hz in list(zero.heap.items()):
            if hz.kind != "env":
                continue
            for k, old in hz.f.items():
                sym = SYM("loop:%s@%s" % (k, lid))
                deltas = set()
                for x in states:
                    hx = x.get(oid)
                    v = hx.f.get(k) if hx is not None else None
                    if v is None or v == old or not (v.k == "t" and v.a[0] == "bin:Add" and v.a[1] == sym):
                        deltas.add(None)
                        break
                    deltas.add(self.snap(x, v.a[2]))
                if len(deltas) != 1 or None in deltas:
                    continue
                (d,) = deltas
                if any(y.k == "sym" and str(y.a[0]).startswith("loop:") and str(y.a[0]).endswith("@" + lid) for y in walk(d)):
                    continue
                total = T("builtins.sum", T("list", V("star", d)))
                if old != C(0):
                    total = T("bin:Add", old, total)
                for x in states + [zero]:
                    x.put(oid, x.get(oid).with_f(k, total))

    def _fixpoint(self, s, run, fr, lid, node):
        cur = s
        seen = set()
        for attempt in range(4):
            save = fr.ctl
            trial = Ctl()
            fr.ctl = trial
            ev0 = cur.ev
            try:
                states, exits = run(cur.fork())
            finally:
                fr.ctl = save
            changed = set()
            for x in states:
                changed |= self._changes(cur, x)
            changed -= seen
            if not changed or attempt == 3:
                save.extend(trial)
                return states, exits
            seen |= changed
            cur = cur.fork()
            self._havoc(cur, changed, lid, states)
        return states, exits

    def _changes(self, a, b):
        out = set()
        for oid, hb in b.heap.items():
            ha = a.get(oid)
            if ha is None or ha is hb:
                continue
            if ha.kind == "env":
                for k, v in hb.f.items():
                    if k in ha.f and ha.f[k] != v:
                        out.add((oid, "f", k))
            else:
                for k, v in hb.f.items():
                    if k in ha.f and ha.f[k] != v:
                        out.add((oid, "f", k))
                if ha.items != hb.items:
                    out.add((oid, "i", None))
        return out

    def _havoc(self, st, changed, lid, after):
        for oid, what, k in sorted(changed, key=str):
            h = st.get(oid)
            if what == "f":
                old = h.f[k]
                vals = [x.get(oid).f.get(k) for x in after if x.get(oid) is not None]
                if all(v is not None and v.k == "ref" for v in vals + [old]):
                    nv = CH([old] + vals)
                elif h.kind == "hash":
                    nv = SYM("loop:%s" % lid)
                else:
                    nv = SYM("loop:%s@%s" % (k, lid))
                st.put(oid, h.with_f(k, nv))
            else:
                if h.kind in ("list", "set"):
                    keep = self._common_prefix(h.items, [x.get(oid).items for x in after if x.get(oid) is not None])
                    st.put(oid, h.with_items(tuple(keep) + (OPEN,)))
                else:
                    st.put(oid, h.with_items(h.items + (("s", SYM("loop:items@%s" % lid)),)))

    @staticmethod
    def _common_prefix(items, others):
        n = len(items)
        for o in others:
            i = 0
            while i < min(n, len(o)) and o[i] == items[i]:
                i += 1
            n = min(n, i)
        return items[:n]

    def s_While(self, n, st, fr):
        exits, done = [], []
        states = [st]
        const_true = isinstance(n.test, ast.Constant) and bool(n.test.value)
        limit = 12
        it = 0
        while states:
            # concretely decided conditions are unrolled
            undecided, nxt = [], []
            for s in states:
                if const_true:
                    if s.thread != "main" and it < 6:
                        nxt.append(s)
                    else:
                        undecided.append(s)
                    continue
                probe = s.fork()
                save, fr.ctl = fr.ctl, Ctl()
                keep, self.interest = self.interest, None
                try:
                    t, f = self.cond(n.test, probe, fr)
                finally:
                    fr.ctl = save
                    self.interest = keep
                if t and not f and it < limit:
                    t, f = self.cond(n.test, s, fr)
                    nxt += t
                elif f and not t:
                    t, f = self.cond(n.test, s, fr)
                    done += f
                else:
                    undecided.append(s)
            for s in undecided:
                d, e = self._while_generic(n, s, fr, const_true)
                done += d
                exits += e
            if not nxt:
                break
            states, br = self._loopbody(n.body, self.merge(nxt), fr)
            exits += br
            it += 1
            if it > limit + 2:
                break
        if n.orelse:
            done = self.block(n.orelse, self.merge(done), fr)
        return self.merge(done + exits)

    def _while_generic(self, n, s, fr, const_true):
        lid = self.uid(s, n, fr, "while")
        self.emit(s, "loop", fr, n, what="while", iter=NONE)
        done0 = []
        if not const_true:
            t0, f0 = self.cond(n.test, s.fork(), fr)
            done0 = f0

        def run(x):
            if const_true:
                t = [x]
            else:
                t, _ = self.cond(n.test, x, fr)
            for y in t:
                self.emit(y, "loop", fr, n, what="iter", iter=NONE, elem=NONE)
            return self._loopbody(n.body, t, fr)

        states, exits = self._fixpoint(s, run, fr, lid, n)
        done = list(done0)
        for x in states:
            self.emit(x, "loop", fr, n, what="next", iter=NONE)
            if not const_true:
                _, f = self.cond(n.test, x, fr)
                done += f
        for x in done + exits:
            self.emit(x, "loop", fr, n, what="done", iter=NONE)
        return done, exits

    def s_Match(self, n, st, fr):
        out = []
        for s, subj in self.ev(n.subject, st, fr):
            rest = [s]
            for case in n.cases:
                nxt = []
                for x in rest:
                    t, f = self._pattern(case.pattern, subj, x, fr)
                    if case.guard is not None:
                        tt = []
                        for y in t:
                            a, b = self.cond(case.guard, y, fr)
                            tt += a
                            f = f + b
                        t = tt
                    out += self.block(case.body, self.merge(t), fr)
                    nxt += f
                rest = self.merge(nxt)
            out += rest
        return out

    def _pattern(self, p, v, st, fr):
        if isinstance(p, ast.MatchAs):
            if p.pattern is None:
                if p.name:
                    self.setvar(p.name, v, st, fr)
                return [st], []
            t, f = self._pattern(p.pattern, v, st, fr)
            for x in t:
                if p.name:
                    self.setvar(p.name, v, x, fr)
            return t, f
        if isinstance(p, ast.MatchOr):
            ts, cur = [], [st]
            for q in p.patterns:
                nxt = []
                for x in cur:
                    t, f = self._pattern(q, v, x, fr)
                    ts += t
                    nxt += f
                cur = nxt
            return ts, cur
        if isinstance(p, ast.MatchValue):
            ts, fs = [], []
            for s, c in self.ev(p.value, st, fr):
                for s2, b in self.compare1("Eq", v, c, s, fr, p):
                    t, f = self.branch(b, s2, fr, p)
                    ts += t
                    fs += f
            return ts, fs
        if isinstance(p, ast.MatchSingleton):
            return self.branch(self.cmp_is(v, C(p.value)), st, fr, p)
        if isinstance(p, ast.MatchClass) and not p.patterns and not p.kwd_patterns:
            ts, fs = [], []
            for s, c in self.ev(p.cls, st, fr):
                for s2, b in self.lib.isinstance_(s, v, c):
                    t, f = self.branch(b, s2, fr, p)
                    ts += t
                    fs += f
            return ts, fs
        b = T("match", v, C(ast.dump(p)))
        return self.branch(b, st, fr, p)

    # ------------------------------------------------------------------ conditions
    def cond(self, node, st, fr):
        """Evaluate a condition; returns (true states, false states)."""
        if isinstance(node, ast.BoolOp):
            isand = isinstance(node.op, ast.And)
            cur, early = [st], []
            for e in node.values:
                nxt = []
                for s in cur:
                    t, f = self.cond(e, s, fr)
                    if isand:
                        nxt += t
                        early += f
                    else:
                        nxt += f
                        early += t
                cur = nxt
            return (cur, early) if isand else (early, cur)
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            t, f = self.cond(node.operand, st, fr)
            return f, t
        ts, fs = [], []
        for s, v in self.ev(node, st, fr):
            t, f = self.branch(v, s, fr, node)
            ts += t
            fs += f
        return ts, fs

    def branch(self, v, st, fr, node):
        if v.k == "ch":
            ts, fs = [], []
            for i, w in enumerate(v.a):
                t, f = self.branch(w, st.fork() if i < len(v.a) - 1 else st, fr, node)
                ts += t
                fs += f
            return ts, fs
        if v.k == "t" and v.a[0] == "not":
            t, f = self.branch(v.a[1], st, fr, node)
            return f, t
        if v.k == "t" and v.a[0] == "bool":
            return self.branch(v.a[1], st, fr, node)
        if v.k == "t" and v.a[0] in ("and", "or"):
            isand = v.a[0] == "and"
            cur, early = [st], []
            for e in v.a[1:]:
                nxt = []
                for s in cur:
                    t, f = self.branch(e, s, fr, node)
                    nxt += t if isand else f
                    early += f if isand else t
                cur = nxt
            for x in early:
                x.facts[v] = not isand  # kept when the states of the alternatives are merged
            return (cur, early) if isand else (early, cur)
        h = st.obj(v)
        if h is not None and h.kind == "inst":
            m = self.class_attr(h.cls, "__bool__", st) or self.class_attr(h.cls, "__len__", st)
            if m is not None and m.k == "fn":
                ts, fs = [], []
                for s, r in self.call(self.bind(m, v, h.cls, st), [], {}, st, fr, node):
                    t, f = self.branch(r, s, fr, node)
                    ts += t
                    fs += f
                return ts, fs
        r = self.truth(v, st)
        if r is True:
            return [st], []
        if r is False:
            return [], [st]
        if self.joining:
            return [st], [st.fork()]
        atom = self.atom(v, st)
        f = st.fork()
        st.facts[atom] = True
        f.facts[atom] = False
        self.emit(st, "branch", fr, node, atom=atom, taken=True)
        self.emit(f, "branch", fr, node, atom=atom, taken=False)
        return [st], [f]

    def atom(self, v, st):
        if v.k == "t" and v.a[0] in ("is", "eq", "in", "lt", "isinstance", "truthy"):
            return v
        if v.k == "ref" and st.obj(v) is not None:
            return T("truthy", self.verref(v, st))
        return T("truthy", v)

    def truth(self, v, st):
        k = v.k
        if k == "c":
            return bool(v.a[1])
        if k == "tup":
            return len(v.a) > 0
        if k == "t":
            op = v.a[0]
            if op == "matched":
                return True
            if op == "truthy":
                return self.fact(v, st) if v.a[1].k == "t" and v.a[1].a[0] == "ver" else self.truth(v.a[1], st)
            if op == "bool":
                return self.truth(v.a[1], st)
            if op == "not":
                r = self.truth(v.a[1], st)
                return None if r is None else not r
            if op in ("and", "or"):
                r = st.facts.get(v)
                if r is not None:
                    return r
                rs = [self.truth(x, st) for x in v.a[1:]]
                if op == "and":
                    return False if False in rs else (True if all(rs) else None)
                return True if True in rs else (False if all(r is False for r in rs) else None)
            if op in ("is", "eq", "in", "lt", "isinstance"):
                return self.atom_truth(v, st)
            if op in ("list", "dict"):
                pass
        if k == "ref":
            h = st.obj(v)
            if h is None:
                return None
            if h.kind in ("list", "set", "dict") or (h.kind == "inst" and h.cls is not None and "builtins.dict" in h.cls.ext_bases()):
                known = [x for x in h.items if not (isinstance(x, V) and x.k in ("open", "star")) and not (isinstance(x, tuple) and x[0] == "s")]
                if known:
                    return True
                if not is_open_any(h):
                    return False
                return self.fact(T("truthy", self.verref(v, st)), st)
            return True
        if k in ("fn", "cls", "ext", "mod", "cm", "cmfn", "part", "prop", "exc", "nt", "super"):
            return True
        if k == "ch":
            rs = {self.truth(x, st) for x in v.a}
            return rs.pop() if len(rs) == 1 else None
        r = self.fact(T("truthy", v), st)
        if r is None:
            if st.facts.get(T("is", v, NONE)) is True:
                return False
            for c in (True, 1):
                if st.facts.get(self.mk_eq(v, C(c))) is True:
                    return True
            kc = self.resolve(v, st)
            if kc is not v and kc.k == "c":
                return bool(kc.a[1])
            if k == "sym" and v.a[1] in ("fn", "obj", "array", "grid"):
                return True
        return r

    def fact(self, atom, st):
        r = st.facts.get(atom)
        if r is None and self.assume is not None:
            r = self.assume(atom, st)
        if r is None:
            for c, val in st.facts.items():  # the last member of a conjunction known to be false
                if c.k == "t" and c.a[0] in ("and", "or") and val is (c.a[0] == "or") and atom in c.a[1:]:
                    if all(x == atom or st.facts.get(x) is (not val) for x in c.a[1:]):
                        return val
        return r

    def verref(self, v, st):
        h = st.obj(v)
        return T("ver", v, C(h.ver))

    def resolve(self, v, st):
        """A constant known equal to v on this path, or v itself."""
        if v.k in ("c", "ref", "fn", "cls", "tup"):
            return v
        for a, b in st.facts.items():
            if b and a.k == "t" and a.a[0] in ("eq", "is"):
                x, y = a.a[1], a.a[2]
                if x == v and y.k == "c":
                    return y
                if y == v and x.k == "c":
                    return x
        return v

    def atom_truth(self, v, st):
        r = self.fact(v, st)
        if r is not None:
            return r
        op = v.a[0]
        a, b = v.a[1], v.a[2]
        if op == "is":
            o = b if a == NONE else a
            if NONE in (a, b):
                if st.facts.get(T("truthy", o)) is True:
                    return False
                for at, val in st.facts.items():
                    if val and at.k == "t" and at.a[0] in ("isinstance", "lt", "in") and at.a[1] == o and at.a[0] == "isinstance":
                        return False
                    if val and at.k == "t" and at.a[0] == "eq" and o in at.a[1:]:
                        z = at.a[1] if at.a[2] == o else at.a[2]
                        if z.k == "c":
                            return z == NONE
                if o.k == "sym" and o.a[1] not in (None, "opt"):
                    return False
                if o.k == "t" and (o.a[0].startswith("bin:") or o.a[0] in NEVER_NONE):
                    return False
                if o.k == "t" and o.a[0] in ("digest", "fstr", "os.path.join", "list", "dict", "getsize", "str"):
                    return False
            ra = self.resolve(a, st)
            rb = self.resolve(b, st)
            if ra.k == "c" and rb.k == "c":
                return ra == rb
        if op == "eq":
            ra, rb = self.resolve(a, st), self.resolve(b, st)
            if ra.k == "c" and rb.k == "c":
                return cval(ra) == cval(rb)
            if ra.k == "tup" and rb.k == "tup":
                if len(ra.a) != len(rb.a):
                    if not any(x.k == "star" for x in ra.a + rb.a):
                        return False
                elif all(x.k == "c" for x in ra.a + rb.a):
                    return all(cval(x) == cval(y) for x, y in zip(ra.a, rb.a))
            for x, y in ((a, b), (b, a)):
                if y.k == "c" and y != NONE and st.facts.get(T("is", x, NONE)) is True:
                    return False
                if y == NONE:
                    return self.truth(self.cmp_is(x, NONE), st)
            if a.k == "sym" and b.k == "sym" and "distinct" in (a.a[1], b.a[1]) and a != b:
                return False
        if op == "in":
            h = st.obj(b)
        return None

    def mk_eq(self, a, b):
        if repr_key(b) < repr_key(a):
            a, b = b, a
        return T("eq", a, b)

    # ------------------------------------------------------------------ expressions
    def evs(self, nodes, st, fr):
        res = [(st, [])]
        for n in nodes:
            nxt = []
            for s, vals in res:
                for s2, v in self.ev(n, s, fr):
                    nxt.append((s2, vals + [v]))
            res = nxt
        return res

    def ev(self, n, st, fr):
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            self.unsupported.add((type(n).__name__, self.site(fr, n)))
            return [(st, T("unsupported", C(type(n).__name__), C(self.uid(st, n, fr))))]
        return m(n, st, fr)

    def split(self, v, st):
        """Split a choice value into one state per alternative."""
        if v.k != "ch":
            return [(st, v)]
        if self.joining:
            return [(st.fork(), w) for w in v.a]
        out = []
        for i, w in enumerate(v.a):
            out.append((st if i == len(v.a) - 1 else st.fork(), w))
        return out

    def e_Constant(self, n, st, fr):
        return [(st, C(n.value))]

    def e_Name(self, n, st, fr):
        name = n.id
        oid = fr.env
        info = fr.info
        if info is not None and not isinstance(info, ClassInfo) and name in info.globals:
            oid = self.modules[fr.module]
        first = True
        while oid is not None:
            h = st.get(oid)
            if h is None:
                break
            v = h.f.get(name)
            if v is not None:
                return [(st, v)]
            if first and info is not None and not isinstance(info, ClassInfo) and name in info.locals and oid == fr.env:
                if h.kind == "env":
                    return self.raise_b(st, "UnboundLocalError", name, fr, n)
            first = False
            oid = h.cls if h.kind in ("env", "cls") else None
            if oid is not None and not isinstance(oid, str):
                oid = None
        mo = self.modules.get(fr.module)
        if mo:
            v = st.get(mo).f.get(name)
            if v is not None:
                return [(st, v)]
        if hasattr(_pybuiltins, name) or name == "__import__":
            return [(st, EXT("builtins." + name))]
        if self.joining and fr.info is None:
            return [(st, T("undefined", C(name)))]
        return self.raise_b(st, "NameError", name, fr, n)

    def e_Attribute(self, n, st, fr):
        out = []
        for s, o in self.ev(n.value, st, fr):
            for s1, o1 in self.split(o, s):
                out += self.getattr_(s1, o1, n.attr, fr, n)
        return out

    def e_Subscript(self, n, st, fr):
        out = []
        for s, (o, i) in self.evs([n.value, n.slice], st, fr):
            for s1, o1 in self.split(o, s):
                out += self.getitem(s1, o1, i, fr, n)
        return out

    def e_Slice(self, n, st, fr):
        nodes = [x if x is not None else ast.Constant(None) for x in (n.lower, n.upper, n.step)]
        return [(s, T("slice", *v)) for s, v in self.evs(nodes, st, fr)]

    def e_Tuple(self, n, st, fr):
        return self._seq(n, st, fr, lambda s, v: TUP(v) if OPEN not in v and not any(x.k == "star" for x in v) else self.new(s, H("list", None, {}, tuple(v)), n, fr))

    def e_List(self, n, st, fr):
        return self._seq(n, st, fr, lambda s, v: self.new(s, H("list", None, {}, tuple(v)), n, fr))

    def e_Set(self, n, st, fr):
        return self._seq(n, st, fr, lambda s, v: self.new(s, H("set", None, {}, tuple(v)), n, fr))

    def _seq(self, n, st, fr, mk):
        out = []
        for s, vals in self.evs([e.value if isinstance(e, ast.Starred) else e for e in n.elts], st, fr):
            items = []
            for e, v in zip(n.elts, vals):
                if isinstance(e, ast.Starred):
                    seq = self.concrete_iter(s, v)
                    items += seq if seq is not None else self.open_items(s, v)
                else:
                    items.append(v)
            out.append((s, mk(s, items)))
        return out

    def open_items(self, st, v):
        h = st.obj(v)
        if h is not None and h.kind in ("list", "set"):
            return list(h.items)
        return [V("star", T("elem", v, C("*")))]

    def e_Dict(self, n, st, fr):
        nodes = []
        for k, v in zip(n.keys, n.values):
            nodes += [k if k is not None else ast.Constant(None), v]
        out = []
        for s, vals in self.evs(nodes, st, fr):
            items = []
            for i, k in enumerate(n.keys):
                kv, vv = vals[2 * i], vals[2 * i + 1]
                if k is None:
                    items = self.dict_spread(items, s, vv)
                else:
                    items = dict_put(items, kv, vv)
            out.append((s, self.new(s, H("dict", None, {}, tuple(items)), n, fr)))
        return out

    def dict_spread(self, items, st, v):
        h = st.obj(v)
        items = list(items)
        if h is not None and (h.kind == "dict" or h.kind == "inst"):
            for e in h.items:
                if e[0] == "k":
                    items = list(dict_put(items, e[1], e[2]))
                else:
                    items.append(e)
            return items
        items.append(("s", v))
        return items

    def e_BinOp(self, n, st, fr):
        out = []
        for s, (a, b) in self.evs([n.left, n.right], st, fr):
            for s1, a1 in self.split(a, s):
                for s2, b1 in self.split(b, s1):
                    out += self.binop(type(n.op).__name__, a1, b1, s2, fr, n)
        return out

    def binop(self, op, a, b, st, fr, node):
        if a.k == "c" and b.k == "c":
            try:
                return [(st, C(_BIN[op](cval(a), cval(b))))]
            except Exception as e:
                if op == "Mod" and isinstance(cval(a), str):
                    return [(st, T("bin:Mod", a, b))]
                return self.raise_b(st, type(e).__name__, str(e), fr, node)
        if op == "Mod" and is_c(a, str) and not (b.k == "tup" and all(x.k == "c" for x in b.a)) and st.obj(b) is None:
            v = spelled(cval(a), "%", list(b.a) if b.k == "tup" else [b])
            if v is not None:
                return [(st, T("fstr", *[self.snap(st, x) for x in v]))]
        if op == "Mod" and is_c(a, str) and b.k == "tup" and all(x.k == "c" for x in b.a):
            try:
                return [(st, C(cval(a) % tuple(cval(x) for x in b.a)))]
            except Exception:
                pass
        ha, hb = st.obj(a), st.obj(b)
        if op == "Add":
            if a.k == "tup" and b.k == "tup":
                return [(st, TUP(a.a + b.a))]
            if ha is not None and hb is not None and ha.kind == "list" and hb.kind == "list":
                return [(st, self.new(st, H("list", None, {}, ha.items + hb.items), node, fr))]
        if op == "BitOr" and ha is not None and hb is not None and ha.kind == hb.kind == "dict":
            items = self.dict_spread(ha.items, st, b)
            return [(st, self.new(st, H("dict", None, {}, tuple(items)), node, fr))]
        if op == "BitOr" and ha is not None and hb is not None and ha.kind == hb.kind == "set":
            return [(st, self.new(st, H("set", None, {}, tuple(dict.fromkeys(ha.items + hb.items))), node, fr))]
        if op in ("BitAnd", "Sub") and ha is not None and hb is not None and ha.kind == hb.kind == "set" and all(x.k == "c" for x in ha.items + hb.items):
            keep = tuple(x for x in ha.items if (x in hb.items) == (op == "BitAnd"))
            return [(st, self.new(st, H("set", None, {}, keep), node, fr))]
        meth = {"Add": "__add__", "Sub": "__sub__", "MatMult": "__matmul__", "Div": "__truediv__"}.get(op)
        if ha is not None and ha.kind == "inst" and meth:
            m = self.class_attr(ha.cls, meth, st)
            if m is not None and m.k == "fn":
                return self.call(self.bind(m, a, ha.cls, st), [b], {}, st, fr, node)
        if self.may_raise is not None and NONE in (a, b):
            return self.raise_b(st, "TypeError", "operand None", fr, node)
        if op in ("Add", "Sub", "Mult", "MatMult", "Div", "FloorDiv", "Pow", "LShift", "RShift") and NONE in (a, b):
            return self.raise_b(st, "TypeError", "unsupported operand None for %s" % op, fr, node)
        v = T("bin:" + op, self.snap(st, a), self.snap(st, b))
        if op == "MatMult":
            self.emit(st, "matmul", fr, node, left=a, right=b, result=v)
        return [(st, v)]

    def e_UnaryOp(self, n, st, fr):
        out = []
        if isinstance(n.op, ast.Not):
            for s, v in self.ev(n.operand, st, fr):
                out.append((s, self.not_(v, s)))
            return out
        for s, v in self.ev(n.operand, st, fr):
            if v.k == "c":
                try:
                    out.append((s, C({"USub": lambda x: -x, "UAdd": lambda x: +x, "Invert": lambda x: ~x}[type(n.op).__name__](cval(v)))))
                    continue
                except Exception as e:
                    self.raise_b(s, type(e).__name__, str(e), fr, n)
                    continue
            out.append((s, T("un:" + type(n.op).__name__, v)))
        return out

    def not_(self, v, st):
        r = self.truth(v, st)
        if r is not None:
            return C(not r)
        if v.k == "t" and v.a[0] == "not":
            return T("bool", v.a[1]) if not _isboolterm(v.a[1]) else v.a[1]
        return T("not", v if v.k != "ref" else self.verref(v, st) if st.obj(v).kind in ("list", "dict", "set") else v)

    def e_BoolOp(self, n, st, fr):
        isand = isinstance(n.op, ast.And)
        out = []
        cur = [st]
        for i, e in enumerate(n.values):
            nxt = []
            last = i == len(n.values) - 1
            for s in cur:
                for s1, v in self.ev(e, s, fr):
                    if last:
                        out.append((s1, v))
                        continue
                    t, f = self.branch(v, s1, fr, e)
                    go, stop = (t, f) if isand else (f, t)
                    nxt += go
                    out += [(x, v if not _isboolterm(v) else C(not isand)) for x in stop]
            cur = nxt
        return self.merge_pairs(out)

    def e_IfExp(self, n, st, fr):
        t, f = self.cond(n.test, st, fr)
        out = []
        for s in self.merge(t):
            out += self.ev(n.body, s, fr)
        for s in self.merge(f):
            out += self.ev(n.orelse, s, fr)
        return self.merge_pairs(out)

    def e_Compare(self, n, st, fr):
        out = []
        for s, vals in self.evs([n.left] + n.comparators, st, fr):
            cur = [(s, [])]
            for i, op in enumerate(n.ops):
                nxt = []
                for s1, acc in cur:
                    for sa, va in self.split(vals[i], s1):
                        for sb, vb in self.split(vals[i + 1], sa):
                            for s2, r in self.compare1(type(op).__name__, va, vb, sb, fr, n):
                                nxt.append((s2, acc + [r]))
                cur = nxt
            for s1, acc in cur:
                out.append((s1, acc[0] if len(acc) == 1 else T("and", *acc)))
        return out

    def cmp_is(self, a, b):
        if a == b and a.k in ("c", "ref", "cls", "ext", "fn", "mod"):
            return TRUE
        if a.k == "c" and b.k == "c":
            return C(a == b)
        conc = ("c", "ref", "cls", "fn", "tup", "exc", "mod", "cm", "nt", "part", "ext", "cmfn")
        if a.k in conc and b.k in conc and not (a.k == "tup" and b.k == "tup"):
            if a.k == b.k == "ext":
                if a.a[0].startswith("builtins.") and b.a[0].startswith("builtins."):
                    return C(a == b)
                return T("is", a, b) if a != b else TRUE
            if not (a.k == "ref" and b.k == "ref"):
                return FALSE
            return FALSE
        if NONE in (a, b):
            o = a if b == NONE else b
            if o.k == "t" and (o.a[0] in NEVER_NONE or o.a[0].startswith("bin:") or (o.a[0] == "item" and o.a[1] == EXT("os.environ"))):
                return FALSE
            return T("is", o, NONE)
        if repr_key(b) < repr_key(a):
            a, b = b, a
        return T("is", a, b)

    def compare1(self, op, a, b, st, fr, node):
        if op == "Is":
            v = self.cmp_is(a, b)
            return [(st, self._dec(v, st))]
        if op == "IsNot":
            return [(st, self.not_(self.cmp_is(a, b), st))]
        if op in ("Eq", "NotEq"):
            out = []
            h = st.obj(a) if op == "NotEq" else None
            if h is not None and h.kind == "inst" and h.cls is not None:
                m = self.class_attr(h.cls, "__ne__", st)
                if m is not None and m.k == "fn":
                    return self.call(self.bind(m, a, h.cls, st), [b], {}, st, fr, node)
                if {"builtins.dict", "builtins.list", "builtins.set"} & set(h.cls.ext_bases()):
                    v = T("unlike", self.snap(st, a), self.snap(st, b))
                    return [(st, v)]
            for s, v in self.eq(a, b, st, fr, node, op):
                out.append((s, v if op == "Eq" or v.k == "c" and v.a[0] == "direct" else self.not_(v, s)))
            return out
        if op in ("In", "NotIn"):
            out = []
            for s, v in self.contains_(a, b, st, fr, node):
                out.append((s, v if op == "In" else self.not_(v, s)))
            return out
        if a.k == "c" and b.k == "c":
            try:
                return [(st, C(_CMP[op](cval(a), cval(b))))]
            except Exception as e:
                return self.raise_b(st, type(e).__name__, str(e), fr, node)
        if NONE in (a, b):
            return self.raise_b(st, "TypeError", "ordering comparison with None", fr, node)
        for x in (a, b):
            if st.facts.get(T("is", x, NONE)) is True:
                return self.raise_b(st, "TypeError", "ordering comparison with None", fr, node)
        if op in ("Lt", "GtE"):
            v = T("lt", a, b)
        else:
            v = T("lt", b, a)
        w = self.sized(v)
        if w is not v:
            v = w if op in ("Lt", "Gt") else self.not_(w, st)
            r = self.truth(v, st)
            return [(st, v if r is None else C(r))]
        v = self._dec(v, st)
        return [(st, v if op in ("Lt", "Gt") else self.not_(v, st))]

    @staticmethod
    def sized(v):
        """len(x) == 0 and the like say the same as the truth of x."""
        a, b = v.a[1], v.a[2]
        if a.k == b.k or "c" not in (a.k, b.k):
            return v
        c, x = (a, b) if a.k == "c" else (b, a)
        n = cval(c)
        if x.k != "t" or x.a[0] != "builtins.len" or isinstance(n, bool) or not isinstance(n, int):
            return v
        x = x.a[1]
        if x.k == "t" and x.a[0] != "ver" and x.a[0] not in ("list", "dict"):
            return v
        if x.k == "sym" and x.a[1] in ("array", "fn", "obj", "grid"):
            return v
        full = T("truthy", x)
        op = v.a[0]
        if op == "eq" and n == 0 or op == "lt" and c is b and n == 1:
            return T("not", full)
        if op == "lt" and c is a and n == 0:
            return full
        return v

    def _dec(self, v, st):
        r = self.truth(v, st)
        return v if r is None else C(r)

    def eq(self, a, b, st, fr, node, op="Eq"):
        if a == b and a.k in ("c", "ref", "cls", "ext", "fn", "sym", "tup", "mod") and not (st.obj(a) is not None and st.obj(a).kind == "inst"):
            return [(st, TRUE)]
        if a.k == "c" and b.k == "c":
            return [(st, C(cval(a) == cval(b)))]
        h = st.obj(a)
        if h is not None and h.kind == "inst":
            m = self.class_attr(h.cls, "__eq__", st)
            if m is not None and m.k == "fn":
                return self.call(self.bind(m, a, h.cls, st), [b], {}, st, fr, node)
        if a.k == "tup" and b.k == "tup":
            if len(a.a) != len(b.a):
                return [(st, FALSE)]
            if all(x.k == "c" for x in a.a + b.a):
                return [(st, C(a == b))]
            if distinct(a, b):
                return [(st, FALSE)]
            cur = [(st, [])]
            for x, y in zip(a.a, b.a):
                cur = [(s2, acc + [v]) if acc != [FALSE] and v != FALSE else (s2, [FALSE]) for s, acc in cur for s2, v in ([(s, FALSE)] if acc == [FALSE] else self.eq(x, y, s, fr, node, op))]
            out = []
            for s, acc in cur:
                acc = [v for v in acc if v != TRUE]
                out.append((s, TRUE if not acc else acc[0] if len(acc) == 1 else self._dec(T("and", *acc), s)))
            return out
        if a.k == "tup" and b.k == "c" or b.k == "tup" and a.k == "c":
            return [(st, FALSE)]
        hb = st.obj(b)
        if h is not None and hb is not None and h.kind == hb.kind and h.kind in ("list", "set", "dict"):
            if h.items == hb.items and not is_open_any(h):
                return [(st, TRUE)]
            if h.kind in ("list", "set") and not is_open_any(h) and not is_open_any(hb) and all(x.k == "c" for x in h.items + hb.items):
                if h.kind == "set":
                    return [(st, C(set(h.items) == set(hb.items)))]
                return [(st, C(h.items == hb.items))]
            if h.kind == "list" and not is_open_any(h) and not is_open_any(hb) and len(h.items) != len(hb.items):
                return [(st, FALSE)]
        if (h is not None and h.kind in ("list", "set", "dict") and b.k == "c") or (
            hb is not None and hb.kind in ("list", "set", "dict") and a.k == "c"
        ):
            return [(st, FALSE)]
        if a.k in ("cls", "fn") and b.k in ("cls", "fn", "c"):
            return [(st, C(a == b))]
        v = self.sized(self.mk_eq(self.snap(st, a), self.snap(st, b)))
        return [(st, self._dec(v, st))]

    def contains_(self, a, b, st, fr, node):
        h = st.obj(b)
        items = None
        closed = False
        if b.k == "tup":
            items, closed = list(b.a), True
        elif h is not None and h.kind in ("list", "set"):
            items = [x for x in h.items if x.k not in ("open", "star")]
            closed = not is_open_any(h)
        elif h is not None and (h.kind == "dict" or (h.kind == "inst" and "builtins.dict" in h.cls.ext_bases())):
            if h.kind == "inst":
                m = self.class_attr(h.cls, "__contains__", st)
                if m is not None and m.k == "fn":
                    return self.call(self.bind(m, b, h.cls, st), [a], {}, st, fr, node)
            items = [e[1] for e in h.items if e[0] == "k"]
            closed = not is_open_any(h)
        elif h is not None and h.kind == "inst":
            m = self.class_attr(h.cls, "__contains__", st)
            if m is not None and m.k == "fn":
                return self.call(self.bind(m, b, h.cls, st), [a], {}, st, fr, node)
        elif b.k == "c":
            if a.k == "c":
                try:
                    return [(st, C(cval(a) in cval(b)))]
                except Exception as e:
                    return self.raise_b(st, type(e).__name__, str(e), fr, node)
            return [(st, self._dec(T("in", a, b), st))]
        if items is not None:
            ra = self.resolve(a, st)
            if ra in items or a in items:
                return [(st, TRUE)]
            if closed:
                if not items:
                    return [(st, FALSE)]
                if ra.k == "c" and all(x.k == "c" for x in items):
                    return [(st, FALSE)]
                if all(distinct(ra, x) for x in items):
                    return [(st, FALSE)]
                if len(items) <= 12 and all(x.k == "c" for x in items):
                    v = T("or", *[self.mk_eq(a, x) for x in items]) if len(items) > 1 else self.mk_eq(a, items[0])
                    return [(st, self._dec(v, st))]
            if h is not None:
                self.emit(st, "read", fr, node, obj=b, how="in", key=a)
            v = T("in", self.snap(st, a), self.verref(b, st) if h is not None else b)
            return [(st, self._dec(v, st))]
        v = T("in", self.snap(st, a), self.snap(st, b))
        return [(st, self._dec(v, st))]

    def e_Lambda(self, n, st, fr):
        fr.escaped = True
        fi = self._finfo(n, fr)
        return [(s, FN(fi, fr.env, None, tuple(d))) for s, d in self.evs(n.args.defaults + [k for k in n.args.kw_defaults if k is not None], st, fr)]

    def e_JoinedStr(self, n, st, fr):
        out = []
        for s, vals in self.evs(n.values, st, fr):
            if all(v.k == "c" for v in vals):
                out.append((s, C("".join(str(cval(v)) for v in vals))))
            else:
                out.append((s, T("fstr", *[self.snap(s, v) for v in vals])))
        return out

    def e_FormattedValue(self, n, st, fr):
        out = []
        for s, v in self.ev(n.value, st, fr):
            if v.k == "c" and n.format_spec is None:
                c = cval(v)
                c = repr(c) if n.conversion == 114 else str(c)
                out.append((s, C(c)))
            elif v.k == "c" and isinstance(cval(v), (int, float, str)) and n.conversion == -1 and isinstance(n.format_spec, ast.JoinedStr) and all(isinstance(x, ast.Constant) for x in n.format_spec.values):
                try:
                    out.append((s, C(format(cval(v), "".join(x.value for x in n.format_spec.values)))))
                except ValueError as x:
                    out += self.raise_b(s, "ValueError", str(x), fr, n)
            elif n.format_spec is not None or n.conversion == 114:
                out.append((s, T("fmtspec", v, C(ast.unparse(n.format_spec) if n.format_spec is not None else "r"))))
            else:
                out.append((s, v))
        return out

    def e_Starred(self, n, st, fr):
        return self.ev(n.value, st, fr)

    def e_NamedExpr(self, n, st, fr):
        out = []
        for s, v in self.ev(n.value, st, fr):
            for s2 in self.assign(n.target, v, s, fr):
                out.append((s2, v))
        return out

    def e_Await(self, n, st, fr):
        return self.ev(n.value, st, fr)

    def e_Yield(self, n, st, fr):
        out = []
        for s, v in self.ev(n.value, st, fr) if n.value is not None else [(st, NONE)]:
            f = fr
            while f is not None and f.yield_cb is None and f.parent is not None and f.info is None:
                f = f.parent
            if fr.yield_cb is not None:
                out += [(x, NONE) for x in fr.yield_cb(s, v)]
            else:
                acc = s.get(fr.env).f.get("__yields__")
                if acc is not None:
                    h = s.obj(acc)
                    s.put(acc.a[0], h.with_items(h.items + (v,)))
                out.append((s, NONE))
        return out

    def e_YieldFrom(self, n, st, fr):
        out = []
        for s, v in self.ev(n.value, st, fr):
            acc = s.get(fr.env).f.get("__yields__")
            if acc is not None:
                seq = self.concrete_iter(s, v)
                items = tuple(seq) if seq is not None else tuple(self.open_items(s, v))
                h = s.obj(acc)
                s.put(acc.a[0], h.with_items(h.items + items))
            out.append((s, NONE))
        return out

    # comprehensions ------------------------------------------------------------
    def e_ListComp(self, n, st, fr):
        return self._comp(n, st, fr, "list")

    def e_SetComp(self, n, st, fr):
        return self._comp(n, st, fr, "set")

    def e_GeneratorExp(self, n, st, fr):
        return self._comp(n, st, fr, "list")

    def e_DictComp(self, n, st, fr):
        return self._comp(n, st, fr, "dict")

    def _comp(self, n, st, fr, kind):
        r = self.new(st, H(kind), n, fr, "c")
        env = self.uid(st, n, fr, "cenv")
        st.put(env, H("env", fr.env, {}))
        cfr = Frame(None, env, fr.module, cls=fr.cls, first=fr.first, parent=fr)
        cfr.ctl = fr.ctl
        cfr.info = _CompInfo(fr.info)
        cfr.exc = fr.exc

        def rec(gens, s):
            if not gens:
                out = []
                if kind == "dict":
                    for s1, (k, v) in self.evs([n.key, n.value], s, cfr):
                        h = s1.obj(r)
                        s1.put(r.a[0], h.with_items(dict_put(h.items, k, v)))
                        out.append(s1)
                else:
                    for s1, v in self.ev(n.elt, s, cfr):
                        h = s1.obj(r)
                        if kind == "set" and v in h.items:
                            out.append(s1)
                            continue
                        s1.put(r.a[0], h.with_items(h.items + (v,)))
                        out.append(s1)
                return out
            g = gens[0]
            out = []
            for s0, it0 in self.ev(g.iter, s, cfr if gens is not n.generators else cfr):
                for s1, it in self.split(it0, s0):
                    seq = self.concrete_iter(s1, it)
                    if seq is not None and len(seq) <= UNROLL:
                        states = [s1]
                        for e in seq:
                            nxt = []
                            for x in states:
                                for y in self.assign(g.target, e, x, cfr):
                                    nxt += self._filters(g.ifs, y, cfr, lambda z: rec(gens[1:], z))
                            states = self.merge(nxt)
                        out += states
                    else:
                        out += generic(gens, g, s1, it)
            return self.merge(out)

        def generic(gens, g, s1, it):
            lid = self.uid(s1, g.iter, cfr, "comp")
            elem = self.elem_of(it, lid, s1, cfr, g.iter)
            self.emit(s1, "loop", fr, n, what="over", iter=it)
            h = s1.obj(r)
            before = h.items
            res = []
            self.emit(s1, "loop", fr, n, what="iter", iter=it, elem=elem)
            if kind == "dict":
                s1.put(r.a[0], h.with_items(h.items))
            for y in self.assign(g.target, elem, s1, cfr):
                res += self._filters(g.ifs, y, cfr, lambda z: rec(gens[1:], z))
            final = []
            for y in self.merge(res):
                hh = y.obj(r)
                if hh.items == before:
                    # filtered out: contributes nothing
                    if kind != "dict" and self.joining is False and g.ifs:
                        pass
                elif kind == "dict":
                    newi = [e for e in hh.items if e not in before]
                    y.put(r.a[0], hh.with_items(tuple(before) + tuple(("s", T("entries", *[x for x in e[1:]])) for e in newi)))
                else:
                    newi = hh.items[len(before):]
                    y.put(r.a[0], hh.with_items(tuple(before) + tuple(V("star", x) if x.k not in ("open", "star") else x for x in newi)))
                self.emit(y, "loop", fr, n, what="done", iter=it)
                final.append(y)
            return final

        out = []
        for s in rec(n.generators, st):
            s.heap.pop(env, None) if not getattr(cfr, "escaped", False) else None
            out.append((s, r))
        return out

    def _filters(self, ifs, st, fr, k):
        cur, skip = [st], []
        for c in ifs:
            nxt = []
            for s in cur:
                t, f = self.cond(c, s, fr)
                nxt += t
                skip += f
            cur = nxt
        out = []
        for s in cur:
            out += k(s)
        return out + skip

    # ------------------------------------------------------------------ iteration
    def concrete_iter(self, st, v):
        if v.k == "tup":
            return list(v.a)
        if v.k == "c" and isinstance(cval(v), (str,)):
            return [C(x) for x in cval(v)] if len(cval(v)) <= UNROLL else None
        if v.k == "c" and isinstance(cval(v), bytes):
            return [C(x) for x in cval(v)] if len(cval(v)) <= UNROLL else None
        if v.k == "nt":
            return list(v.a[1:])
        h = st.obj(v)
        if h is None:
            if v.k == "t" and v.a[0] == "builtins.range" and all(x.k == "c" for x in v.a[1:] if isinstance(x, V)):
                try:
                    r = range(*[cval(x) for x in v.a[1:]])
                    return [C(x) for x in r] if len(r) <= UNROLL else None
                except Exception:
                    return None
            return None
        if h.kind in ("list", "set"):
            if is_open_any(h):
                return None
            return list(h.items)
        if h.kind in ("dict",) or (h.kind == "inst" and h.cls is not None and "builtins.dict" in h.cls.ext_bases()):
            if is_open_any(h):
                return None
            return [e[1] for e in h.items]
        if h.kind == "inst" and "_stub_items_" in h.f:
            # a collection of the caller, written down by a rule
            return self.concrete_iter(st, h.f["_stub_items_"])
        return None

    def elem_of(self, it, lid, st, fr, node):
        """A generic element of an iterable."""
        h = st.obj(it)
        if h is not None and h.kind in ("list", "set"):
            gen = [x.a[0] if x.k == "star" else x for x in h.items if x.k != "open"]
            if gen:
                uniq = list(dict.fromkeys(gen))
                if OPEN not in h.items:
                    return CH(uniq)
                return CH(uniq + [T("elem", it, C(lid))])
            return T("elem", it, C(lid))
        if it.k == "t":
            op = it.a[0]
            if op == "d.items":
                k = T("elem", it.a[1], C(lid))
                return TUP([k, T("item", it.a[1], k)])
            if op == "d.values":
                return T("item", it.a[1], T("elem", it.a[1], C(lid)))
            if op == "d.keys":
                return T("elem", it.a[1], C(lid))
            if op == "enumerate":
                return TUP([T("idx", it.a[1], C(lid)), self.elem_of(it.a[1], lid, st, fr, node)])
            if op == "zip":
                return TUP([self.elem_of(x, lid, st, fr, node) for x in it.a[1:]])
            if op == "sortedby":
                e = T("elem", it, C(lid))
                st_el = it.a[1].a[1].a[0]
                return e if it.a[2] == TRUE or st_el.k != "tup" else TUP([T("item", e, C(j)) for j in range(len(st_el.a))])
            if op in ("sorted", "list", "tuple", "reversed", "iter") and len(it.a) == 2 and isinstance(it.a[1], V):
                return self.elem_of(it.a[1], lid, st, fr, node)
        return T("elem", it, C(lid))

    # ------------------------------------------------------------------ attributes
    def class_attr(self, info, name, st, after=None):
        if info is None:
            return None
        mro = info.mro
        if after is not None:
            i = mro.index(after) + 1 if after in mro else 0
            mro = mro[i:]
        for c in mro:
            if isinstance(c, ClassInfo):
                h = st.get(c.oid)
                if h is not None and name in h.f:
                    return h.f[name]
        return None

    def attr_owner(self, info, name, st, after=None):
        mro = info.mro
        if after is not None:
            mro = mro[mro.index(after) + 1:] if after in mro else mro
        for c in mro:
            if isinstance(c, ClassInfo):
                h = st.get(c.oid)
                if h is not None and name in h.f:
                    return c
        return None

    def bind(self, v, self_, cls, st):
        if v.k == "fn" and v.a[2] is None:
            return FN(v.a[0], v.a[1], self_, v.a[3])
        if v.k == "cmfn" and v.a[0].k == "fn" and v.a[0].a[2] is None:
            f = v.a[0]
            return V("cmfn", FN(f.a[0], f.a[1], self_, f.a[3]))
        if v.k == "memo" and v.a[0].k == "fn":
            f = v.a[0]
            return V("memo", FN(f.a[0], f.a[1], self_, f.a[3]))
        if v.k == "smeth":
            return v.a[0]
        if v.k == "cmeth":
            f = v.a[0]
            return FN(f.a[0], f.a[1], CLS(cls), f.a[3]) if f.k == "fn" else f
        return v

    def getattr_(self, st, v, name, fr, node):
        k = v.k
        if k == "ref":
            h = st.obj(v)
            if h is None:
                return [(st, T("attr", v, C(name)))]
            if h.kind == "inst":
                ca = self.class_attr(h.cls, name, st)
                if ca is not None and ca.k == "prop":
                    self.emit(st, "prop", fr, node, obj=v, name=name)
                    return self.call(self.bind(ca.a[0], v, h.cls, st), [], {}, st, fr, node)
                if name in h.f:
                    w = h.f[name]
                    if w.k == "ch" and not self.joining and all(x.k == "ref" for x in w.a):
                        # one object or another: each fork settles on one of them, once
                        out = []
                        for i, x in enumerate(w.a):
                            y = st if i == len(w.a) - 1 else st.fork()
                            y.put(v.a[0], h.with_f(name, x))
                            self.emit(y, "getattr", fr, node, obj=v, name=name, value=x)
                            out.append((y, x))
                        return out
                    self.emit(st, "getattr", fr, node, obj=v, name=name, value=w)
                    return [(st, w)]
                if ca is not None:
                    if ca.k not in ("fn", "smeth", "cmeth", "cmfn", "memo"):
                        self.emit(st, "getattr", fr, node, obj=v, name=name, value=ca)
                    return [(st, self.bind(ca, v, h.cls, st))]
                if name == "__class__":
                    return [(st, CLS(h.cls))]
                if name == "__dict__":
                    return [(st, T("vars", v))]
                if h.cls is not None and h.cls.ext_bases():
                    return [(st, T("attr", v, C(name)))]
                ga = self.class_attr(h.cls, "__getattr__", st)
                if ga is not None and ga.k == "fn":
                    return self.call(self.bind(ga, v, h.cls, st), [C(name)], {}, st, fr, node)
                if h.cls is None:
                    return [(st, T("attr", v, C(name)))]
                return self.raise_b(st, "AttributeError", name, fr, node)
            if h.kind == "cls":
                pass
            return [(st, T("attr", v, C(name)))]
        if k == "cls":
            info = v.a[0]
            ca = self.class_attr(info, name, st)
            if ca is not None:
                if ca.k == "smeth":
                    return [(st, ca.a[0])]
                if ca.k == "cmeth":
                    return [(st, self.bind(ca, v, info, st))]
                if ca.k not in ("fn", "prop"):
                    self.emit(st, "getattr", fr, node, obj=v, name=name, value=ca)
                return [(st, ca)]
            if name == "__name__":
                return [(st, C(info.name))]
            if name in ("__mro__", "__bases__", "__module__", "__qualname__", "__doc__") or info.ext_bases():
                return [(st, T("attr", v, C(name)))]
            return self.raise_b(st, "AttributeError", name, fr, node)
        if k == "mod":
            m = v.a[0]
            if m not in self.modules and self.joining:
                st = self.load(m, st)
            h = st.get(self.modules[m]) if m in self.modules else None
            if h is not None and name in h.f:
                return [(st, h.f[name])]
            full = m + "." + name
            if full in self.trees:
                st, mv = self.import_module(full, st)
                return [(st, mv)]
            return self.raise_b(st, "AttributeError", full, fr, node)
        if k == "ext":
            full = v.a[0] + "." + name
            if full in self.trees:
                st, mv = self.import_module(full, st)
                return [(st, mv)]
            return [(st, EXT(full))]
        if k == "super":
            cls, self_ = v.a
            ocls = st.obj(self_).cls if self_.k == "ref" else self_.a[0]
            ca = self.class_attr(ocls, name, st, after=cls)
            if ca is not None:
                if ca.k == "prop":
                    return self.call(self.bind(ca.a[0], self_, ocls, st), [], {}, st, fr, node)
                return [(st, self.bind(ca, self_, ocls, st))]
            return [(st, T("sattr", self_, C(name), C(cls.name)))]
        if k == "nt":
            names = v.a[0].a[1]
            if name in names:
                return [(st, v.a[1 + names.index(name)])]
            if name == "_fields":
                return [(st, TUP([C(x) for x in names]))]
            if len(v.a[0].a) > 2:
                info = v.a[0].a[2].a[0]
                ca = self.class_attr(info, name, st)
                if ca is not None:
                    if ca.k == "prop":
                        return self.call(self.bind(ca.a[0], v, info, st), [], {}, st, fr, node)
                    return [(st, self.bind(ca, v, info, st) if ca.k == "fn" else ca)]
            return [(st, T("attr", v, C(name)))]
        if k == "exc":
            if name == "args":
                return [(st, TUP([x for x in v.a[1:] if isinstance(x, V)]))]
            return [(st, T("attr", v, C(name)))]
        if k == "fn":
            if name in ("__name__", "__qualname__"):
                return [(st, C(v.a[0].name))]
            if name == "__self__" and v.a[2] is not None:
                return [(st, v.a[2])]
            if name == "__wrapped__":
                return [(st, v)]
            return [(st, T("attr", v, C(name)))]
        if k == "part":
            if name == "func":
                return [(st, v.a[0])]
            return [(st, T("attr", v, C(name)))]
        if v == NONE:
            return self.raise_b(st, "AttributeError", "None has no attribute %s" % name, fr, node)
        if k in ("sym", "t") and st.facts.get(T("is", v, NONE)) is True:
            return self.raise_b(st, "AttributeError", "None has no attribute %s" % name, fr, node)
        t = T("attr", v, C(name))
        if self.track is not None:
            self.emit(st, "extattr", fr, node, obj=v, name=name, value=t)
        m = self.models.get("attr:" + name)
        if m is not None:
            r = m(self, st, v, fr, node)
            if r is not None:
                return r
        return [(st, t)]

    def setattr_(self, st, o, name, v, fr, node):
        h = st.obj(o)
        if h is not None and h.kind == "inst":
            ca = self.class_attr(h.cls, name, st)
            if ca is not None and ca.k == "prop":
                if ca.a[1] is None:
                    self.raise_b(st, "AttributeError", "can't set " + name, fr, node)
                    return []
                return [s for s, _ in self.call(self.bind(ca.a[1], o, h.cls, st), [v], {}, st, fr, node)]
            old = h.f.get(name)
            st.put(o.a[0], h.with_f(name, v))
            self.emit(st, "setattr", fr, node, obj=o, name=name, value=v, old=old)
            return [st]
        if o.k == "cls":
            oid = o.a[0].oid
            hh = st.get(oid)
            st.put(oid, hh.with_f(name, v))
            self.emit(st, "setattr", fr, node, obj=o, name=name, value=v, old=hh.f.get(name))
            return [st]
        if o.k == "mod":
            oid = self.modules.get(o.a[0])
            if oid:
                st.put(oid, st.get(oid).with_f(name, v))
                self.emit(st, "setglobal", fr, node, name=name, value=v, module=o.a[0])
            return [st]
        if o == NONE:
            self.raise_b(st, "AttributeError", "None has no attribute " + name, fr, node)
            return []
        self.emit(st, "extset", fr, node, obj=o, name=name, value=v)
        return [st]

    # ------------------------------------------------------------------ items
    def getitem(self, st, o, i, fr, node):
        h = st.obj(o)
        if o.k == "t" and o.a[0] == "matched" and i.k == "c":
            return self.lib.call_method(st, o, "group", [i], {}, fr, node)
        if o.k == "t" and o.a[0] == "globals" and is_c(i, str):
            env = st.get("mod:" + o.a[1].a[0]) or st.get("mod:" + o.a[1].a[0].replace(self.pkg + ".", "", 1))
            if env is not None:
                v = env.f.get(cval(i))
                return [(st, v)] if v is not None else self.raise_b(st, "KeyError", "global name", fr, node)
        if h is not None:
            if h.kind == "inst":
                m = self.class_attr(h.cls, "__getitem__", st)
                if m is not None and m.k == "fn":
                    return self.call(self.bind(m, o, h.cls, st), [i], {}, st, fr, node)
            if h.kind == "dict" or (h.kind == "inst" and h.cls is not None and "builtins.dict" in h.cls.ext_bases()):
                return self.lib.dict_lookup(st, o, i, None, fr, node, mode="index")
            if h.kind == "list":
                if is_c(i, int) and not isinstance(cval(i), bool):
                    idx = cval(i)
                    items = h.items
                    if not is_open_any(h):
                        if -len(items) <= idx < len(items):
                            return [(st, items[idx])]
                        return self.raise_b(st, "IndexError", "list index", fr, node)
                    if idx >= 0 and idx < len(items) and not any(x.k in ("open", "star") for x in items[: idx + 1]):
                        return [(st, items[idx])]
                    if idx < 0 and -idx <= len(items) and not any(x.k in ("open", "star") for x in items[idx:]):
                        return [(st, items[idx])]
                    if idx == 0 and h.f.get("src") is not None and len(items) == 1:
                        r = self.lib.first_of(st, h.f["src"])
                        if r is not None:
                            return [(st, r)]
                    known = [x.a[0] if x.k == "star" else x for x in items if x.k != "open"]
                    if known and OPEN not in items:
                        return [(st, CH(known))]
                if i.k == "t" and i.a[0] == "slice":
                    if not is_open_any(h) and all(x.k == "c" for x in i.a[1:]):
                        sl = slice(*[cval(x) for x in i.a[1:]])
                        return [(st, self.new(st, H("list", None, {}, h.items[sl]), node, fr))]
                if not is_open_any(h) and not h.items:
                    return self.raise_b(st, "IndexError", "list index", fr, node)
                return [(st, T("item", self.verref(o, st), i))]
        if o == EXT("os.environ"):
            return self.lib.env_lookup(st, i, None, fr, node)
        if o.k == "tup":
            if is_c(i, int):
                idx = cval(i)
                if -len(o.a) <= idx < len(o.a):
                    return [(st, o.a[idx])]
                return self.raise_b(st, "IndexError", "tuple index", fr, node)
            if i.k == "t" and i.a[0] == "slice" and all(x.k == "c" for x in i.a[1:]):
                return [(st, TUP(o.a[slice(*[cval(x) for x in i.a[1:]])]))]
        if o.k == "c" and i.k == "c":
            try:
                return [(st, C(cval(o)[cval(i)]))]
            except Exception as e:
                return self.raise_b(st, type(e).__name__, str(e), fr, node)
        if o.k == "c" and i.k == "t" and i.a[0] == "slice" and all(x.k == "c" for x in i.a[1:]):
            try:
                return [(st, C(cval(o)[slice(*[cval(x) for x in i.a[1:]])]))]
            except Exception as e:
                return self.raise_b(st, type(e).__name__, str(e), fr, node)
        if o.k == "nt" and is_c(i, int):
            return [(st, o.a[1 + cval(i)])]
        if o == NONE:
            return self.raise_b(st, "TypeError", "None is not subscriptable", fr, node)
        if o.k == "t" and o.a[0] == "sortedby" and i in (C(0), C(-1)):
            r = models_mod().sorted_at(o, cval(i))
            if r is not None:
                return [(st, r)]
        if o.k == "t" and i == C(0):
            r = self.lib.first_of(st, o)
            if r is not None:
                return [(st, r)]
        m = self.models.get("getitem")
        if m is not None:
            r = m(self, st, o, i, fr, node)
            if r is not None:
                return r
        if self.may_raise is not None:
            for ex in self.may_raise("getitem", fr, node) or ():
                self.raise_(st.fork(), ex, fr, node)
        self.emit(st, "getitem", fr, node, obj=o, key=i)
        return [(st, T("item", self.snap(st, o), self.snap(st, i)))]

    def setitem(self, st, o, i, v, fr, node):
        h = st.obj(o)
        if h is not None:
            if h.kind == "inst":
                m = self.class_attr(h.cls, "__setitem__", st)
                if m is not None and m.k == "fn":
                    return [s for s, _ in self.call(self.bind(m, o, h.cls, st), [i, v], {}, st, fr, node)]
            if h.kind in ("dict", "inst"):
                key = self.resolve(i, st) if i.k in ("sym", "t") else i
                st.put(o.a[0], h.with_items(dict_put(h.items, key, v)))
                self.emit(st, "setitem", fr, node, obj=o, key=i, value=v)
                return [st]
            if h.kind == "list":
                items = h.items
                if is_c(i, int) and not is_open_any(h) and -len(items) <= cval(i) < len(items):
                    l = list(items)
                    l[cval(i)] = v
                    st.put(o.a[0], h.with_items(l))
                else:
                    st.put(o.a[0], h.with_items(items + (OPEN, v)))
                self.emit(st, "setitem", fr, node, obj=o, key=i, value=v)
                return [st]
        self.emit(st, "setitem", fr, node, obj=o, key=i, value=v)
        return [st]

    def delitem(self, st, o, i, fr, node):
        h = st.obj(o)
        self.emit(st, "delitem", fr, node, obj=o, key=i)
        if h is not None and h.kind in ("dict", "inst"):
            keys = [e[1] for e in h.items if e[0] == "k"]
            if i in keys:
                st.put(o.a[0], h.with_items([e for e in h.items if not (e[0] == "k" and e[1] == i)]))
            elif not is_open_any(h) and all(x.k == "c" for x in keys) and i.k == "c":
                self.raise_b(st, "KeyError", show(i), fr, node)
                return []
            else:
                st.put(o.a[0], h.with_items(h.items))
        elif h is not None and h.kind == "list":
            if is_c(i, int) and not is_open_any(h):
                l = list(h.items)
                try:
                    del l[cval(i)]
                except IndexError:
                    self.raise_b(st, "IndexError", "del", fr, node)
                    return []
                st.put(o.a[0], h.with_items(l))
            else:
                st.put(o.a[0], h.with_items((OPEN,) + tuple(h.items)))
        return [st]

    # ------------------------------------------------------------------ snapshots
    def snap(self, st, v, depth=6):
        """Structural copy of container contents, for terms that outlive mutation."""
        if depth <= 0:
            return v
        if v.k == "tup":
            return TUP([self.snap(st, x, depth - 1) for x in v.a])
        if v.k == "ch":
            return V("ch", *[self.snap(st, x, depth - 1) for x in v.a])
        if v.k == "ref":
            h = st.obj(v)
            if h is None:
                return v
            if h.kind in ("list", "set"):
                return T(h.kind, *[self.snap(st, x, depth - 1) if x.k not in ("open", "star") else V(x.k, *[self.snap(st, y, depth - 1) for y in x.a]) for x in h.items])
            if h.kind == "dict" or (h.kind == "inst" and h.cls is not None and "builtins.dict" in h.cls.ext_bases()):
                out = []
                for e in h.items:
                    if e[0] == "k":
                        out.append(TUP([self.snap(st, e[1], depth - 1), self.snap(st, e[2], depth - 1)]))
                    else:
                        out.append(V("spread", self.snap(st, e[1], depth - 1)))
                return T("dict", *out)
            if h.kind == "hash":
                return T("hash", h.f["algo"], *[self.snap(st, x, depth - 1) for x in h.items])
        return v

    # ------------------------------------------------------------------ calls
    def e_Call(self, n, st, fr):
        out = []
        for s0, f0 in self.ev(n.func, st, fr):
            # zero-argument super()
            if f0 == EXT("builtins.super") and not n.args:
                c = fr
                while c is not None and (c.cls is None or c.first is None):
                    c = c.parent
                if c is not None:
                    out.append((s0, V("super", c.cls, c.first)))
                    continue
            if f0 == EXT("builtins.globals"):
                out.append((s0, V("t", "globals", MOD(fr.module))))
                continue
            if f0 == EXT("builtins.locals"):
                out.append((s0, T("locals")))
                continue
            nodes = [a.value if isinstance(a, ast.Starred) else a for a in n.args] + [k.value for k in n.keywords]
            for s, vals in self.evs(nodes, s0, fr):
                args, kw = [], {}
                for a, v in zip(n.args, vals):
                    if isinstance(a, ast.Starred):
                        seq = self.concrete_iter(s, v)
                        args += seq if seq is not None else [V("starargs", v)]
                    else:
                        args.append(v)
                for k, v in zip(n.keywords, vals[len(n.args):]):
                    if k.arg is None:
                        h = s.obj(v)
                        if h is not None and h.kind in ("dict", "inst"):
                            for e in h.items:
                                if e[0] == "k" and is_c(e[1], str):
                                    kw[cval(e[1])] = e[2]
                                elif e[0] == "s":
                                    kw["**"] = e[1]
                                else:
                                    kw["**"] = v
                        else:
                            kw["**"] = v
                    else:
                        kw[k.arg] = v
                for s1, f1 in self.split(f0, s):
                    out += self.call(f1, args, kw, s1, fr, n)
        return self.merge_pairs(out)

    def is_thread_fn(self, v, st):
        """A bound method of an instance of a threading.Thread subclass."""
        if v.k == "fn" and v.a[2] is not None and v.a[2].k == "ref":
            h = st.obj(v.a[2])
            return h is not None and h.kind == "inst" and h.cls is not None and "threading.Thread" in h.cls.ext_bases()
        return False

    def call(self, f, args, kw, st, fr, node):
        self.stats_calls.add((fr.module, getattr(node, "lineno", 0), getattr(node, "col_offset", 0)))
        if f.k == "ch":
            out = []
            for s, w in self.split(f, st):
                out += self.call(w, args, kw, s, fr, node)
            return out
        # a bound method of another thread's object handed over as an argument is a request to it
        if self.in_request == 0 and not self.joining:
            req = [a for a in list(args) + list(kw.values()) if self.is_thread_fn(a, st)]
            if req and not (st.thread != "main") and f.k in ("fn", "cls", "part"):
                self.emit(st, "request", fr, node, func=req[0], args=[a for a in args if a != req[0]], kwargs={k: v for k, v in kw.items() if v != req[0]})
                self.in_request += 1
                try:
                    return self.call_(f, args, kw, st, fr, node)
                finally:
                    self.in_request -= 1
        if time.monotonic() > self.deadline:
            raise AnalysisError("the exploration takes too long")
        return self.call_(f, args, kw, st, fr, node)

    def call_(self, f, args, kw, st, fr, node):
        k = f.k
        if k == "fn":
            return self.call_fn(f, args, kw, st, fr, node)
        if k == "cls":
            return self.instantiate(f, args, kw, st, fr, node)
        if k == "cmfn":
            return [(st, V("cm", f.a[0], tuple(args), tuple(sorted(kw.items()))))]
        if k == "memo":
            self.emit(st, "memocall", fr, node, func=f.a[0], args=args)
            return self.call(f.a[0], args, kw, st, fr, node)
        if k == "part":
            kk = dict(f.a[2])
            kk.update(kw)
            return self.call(f.a[0], list(f.a[1]) + list(args), kk, st, fr, node)
        if k == "ext":
            return self.lib.call_ext(f.a[0], None, args, kw, st, fr, node)
        if k == "t" and f.a[0] == "attr":
            return self.lib.call_method(st, f.a[1], cval(f.a[2]), args, kw, fr, node)
        if k == "t" and f.a[0] == "sattr":
            return self.lib.call_super_ext(st, f.a[1], cval(f.a[2]), f.a[3], args, kw, fr, node)
        if k == "ntc":
            names = f.a[1]
            vals = dict(zip(names, args))
            vals.update(kw)
            for x in names if len(f.a) > 2 else ():
                if x not in vals:
                    d = self.class_attr(f.a[2].a[0], x, st)
                    if d is not None:
                        vals[x] = d
            if set(vals) != set(names):
                return self.raise_b(st, "TypeError", "namedtuple fields", fr, node)
            return [(st, V("nt", f, *[vals[x] for x in names]))]
        if k == "ref":
            h = st.obj(f)
            if h is not None and h.kind == "inst":
                m = self.class_attr(h.cls, "__call__", st)
                if m is not None:
                    return self.call(self.bind(m, f, h.cls, st), args, kw, st, fr, node)
        if f == NONE:
            return self.raise_b(st, "TypeError", "None is not callable", fr, node)
        if k == "wraps":
            return [(st, args[0] if args else NONE)]
        if k == "smeth":
            return self.call(f.a[0], args, kw, st, fr, node)
        # unknown callable (a symbolic argument, a term)
        return self.lib.generic("call:" + self.describe(f), f, args, kw, st, fr, node)

    def describe(self, v):
        if v.k == "ext":
            return v.a[0]
        if v.k == "sym":
            return v.a[0]
        if v.k == "t":
            if v.a[0] == "attr":
                return self.describe(v.a[1]) + "." + str(cval(v.a[2]))
            return str(v.a[0])
        if v.k == "ref":
            return str(v.a[0])
        return v.k

    def _in_order(self, info, args, kw):
        """Required parameters passed by name, in their places."""
        a = getattr(info.node, "args", None)
        if not kw or a is None or any(x.k == "star" for x in args) or "**" in kw:
            return args, kw
        pos = [x.arg for x in a.args]
        need = len(a.posonlyargs + a.args) - len(a.defaults) - len(a.posonlyargs)
        args, kw = list(args), dict(kw)
        while len(args) < need and not a.posonlyargs and pos[len(args)] in kw:
            args.append(kw.pop(pos[len(args)]))
        return args, kw

    def key_of(self, info):
        return info.module + ":" + info.qual

    def call_fn(self, f, args, kw, st, fr, node):
        info = f.a[0]
        self.stats_funcs.add(info.qual)
        ov = self.opaque.get(info.qual)
        if ov is not None:
            full, kw2 = self._in_order(info, ([f.a[2]] if f.a[2] is not None else []) + list(args), kw)
            r = ov(self, st, f, full, kw2, fr, node)
            if r is not None:
                return r
        depth = 0
        p = fr
        same = 0
        while p is not None:
            depth += 1
            if p.info is not None and not isinstance(p.info, (ClassInfo, _CompInfo)) and p.info == info and p.info.node is info.node:
                same += 1
            p = p.parent
        if depth > MAX_DEPTH or same >= 2:
            self.emit(st, "recurse", fr, node, func=info.qual, args=args)
            t = T("rec:" + info.qual, *[self.snap(st, a) for a in args], C(self.uid(st, node, fr)))
            return [(st, t)]
        if info.is_gen:
            return self.call_gen(f, args, kw, st, fr, node)
        out = []
        full = ([f.a[2]] if f.a[2] is not None else []) + list(args)
        self.emit(st, "enterfn", fr, node, func=info.qual, args=full, kwargs=kw)
        for s, nfr in self._enter_fn(f, args, kw, st, fr, node):
            if info.is_lambda:
                res = self.ev(info.node.body, s, nfr)
            else:
                states = self.block(info.body, [s], nfr)
                res = [(x, NONE) for x in states] + nfr.ctl.returns
            for x, e in nfr.ctl.raises:
                self._leave(x, nfr)
                self.emit(x, "leavefn", fr, node, func=info.qual, how="raise", value=e)
                fr.ctl.raises.append((x, e))
            for x, v in res:
                self._leave(x, nfr)
                self.emit(x, "leavefn", fr, node, func=info.qual, how="return", value=v)
                out.append((x, v))
        return self.merge_pairs(out)

    def call_gen(self, f, args, kw, st, fr, node):
        info = f.a[0]
        out = []
        for s, nfr in self._enter_fn(f, args, kw, st, fr, node):
            acc = self.new(s, H("list"), node, fr, "y")
            s.put(nfr.env, s.get(nfr.env).with_f("__yields__", acc))
            states = self.block(info.body, [s], nfr)
            for x in states + [x for x, _ in nfr.ctl.returns]:
                self._leave(x, nfr)
                out.append((x, acc))
            for x, e in nfr.ctl.raises:
                self._leave(x, nfr)
                fr.ctl.raises.append((x, e))
        return out

    def _leave(self, st, nfr):
        if not nfr.escaped:
            st.heap.pop(nfr.env, None)

    def _enter_fn(self, f, args, kw, st, fr, node):
        info, env, self_, defaults = f.a
        a = info.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        kwonly = [x.arg for x in a.kwonlyargs]
        args = ([self_] if self_ is not None else []) + list(args)
        vals = {}
        kw = dict(kw)
        spread = kw.pop("**", None)
        star = None
        plain = []
        for x in args:
            if x.k == "starargs":
                star = x.a[0]
            elif star is None:
                plain.append(x)
        for n, v in zip(pos, plain):
            vals[n] = v
        extra = plain[len(pos):]
        if extra and not a.vararg:
            return self._typeerr(st, "too many arguments to %s" % info.qual, fr, node)
        nposonly = len(a.posonlyargs)
        for n in list(kw):
            if n in pos[nposonly:] or n in kwonly:
                if n in vals:
                    return self._typeerr(st, "multiple values for %s in %s" % (n, info.qual), fr, node)
                vals[n] = kw.pop(n)
        if kw and not a.kwarg:
            return self._typeerr(st, "unexpected keyword %s for %s" % (sorted(kw), info.qual), fr, node)
        nd = len(a.defaults)
        dpos = dict(zip(pos[len(pos) - nd:], defaults[:nd]))
        dkw = {}
        i = nd
        for n, d in zip(kwonly, a.kw_defaults):
            if d is not None:
                dkw[n] = defaults[i]
                i += 1
        for n in pos + kwonly:
            if n in vals:
                continue
            if star is not None and n in pos:
                vals[n] = T("starred", star, C(pos.index(n)))
            elif spread is not None:
                d = dpos.get(n, dkw.get(n))
                vals[n] = T("kwopt", spread, C(n), d) if d is not None else T("item", spread, C(n))
            elif n in dpos:
                vals[n] = dpos[n]
            elif n in dkw:
                vals[n] = dkw[n]
            else:
                return self._typeerr(st, "missing argument %s of %s" % (n, info.qual), fr, node)
        if a.vararg:
            if star is not None:
                vals[a.vararg.arg] = self.new(st, H("list", None, {}, tuple(extra) + tuple(self.open_items(st, star))), node, fr, "va")
            else:
                vals[a.vararg.arg] = TUP(extra)
        eoid = self.uid(st, info.node, Frame(info, None, info.module), "env")
        if a.kwarg:
            items = [("k", C(k), v) for k, v in kw.items()]
            if spread is not None:
                items.append(("s", spread))
            vals[a.kwarg.arg] = self.new(st, H("dict", None, {}, tuple(items)), node, fr, "kw")
        st.put(eoid, H("env", env, vals))
        first = vals.get(pos[0]) if pos else None
        nfr = Frame(info, eoid, info.module, cls=info.cls, first=first, parent=fr)
        return [(st, nfr)]

    def _typeerr(self, st, msg, fr, node):
        self.raise_b(st, "TypeError", msg, fr, node)
        return []

    def instantiate(self, cv, args, kw, st, fr, node):
        info = cv.a[0]
        ext = info.ext_bases()
        if any(_pyexc(e) for e in ext):
            return [(st, EXC(cv, *args))]
        h = H("inst", info, {}, ())
        out = []
        ref = self.new(st, h, node, fr, info.name)
        self.emit(st, "new", fr, node, cls=info, obj=ref, args=args)
        init = self.class_attr(info, "__init__", st)
        if init is not None and init.k == "fn":
            for s, _ in self.call(self.bind(init, ref, info, st), args, kw, st, fr, node):
                out.append((s, ref))
            return out
        if "builtins.dict" in ext:
            for s, _ in self.lib.dict_init(st, ref, args, kw, fr, node):
                out.append((s, ref))
            return out
        if info.record is not None:
            return self.record_init(ref, info, args, kw, st, fr, node)
        if args and not ext:
            return self._typeerr(st, "%s() takes no arguments" % info.name, fr, node)
        if ext:
            st.put(ref.a[0], st.obj(ref).with_f("__extinit__", TUP(args)))
        return [(st, ref)]

    def record_init(self, ref, info, args, kw, st, fr, node):
        """The constructor of a dataclass."""
        names = []
        for b in reversed(info.repo_mro()):
            names += [x for x in b.record or () if x not in names]
        vals = dict(zip(names, args))
        vals.update(kw)
        if len(args) > len(names) or set(vals) - set(names):
            return self._typeerr(st, "%s() takes other arguments" % info.name, fr, node)
        cur = [st]
        for x in names:
            nxt = []
            for s in cur:
                got = [(s, vals[x])] if x in vals else []
                if not got:
                    d = self.class_attr(info, x, s)
                    if d is not None and d.k == "t" and d.a[0] == "dataclasses.field":
                        opt = {y.a[0]: y.a[1] for y in d.a[1:] if isinstance(y, V) and y.k == "kw"}
                        got = [(s, opt["default"])] if "default" in opt else self.call(opt["default_factory"], [], {}, s, fr, node) if "default_factory" in opt else []
                    elif d is not None:
                        got = [(s, d)]
                if not got:
                    return self._typeerr(st, "%s() misses %s" % (info.name, x), fr, node)
                for s2, v in got:
                    s2.put(ref.a[0], s2.get(ref.a[0]).with_f(x, v))
                    nxt.append(s2)
            cur = nxt
        out = []
        post = self.class_attr(info, "__post_init__", st)
        for s in cur:
            if post is not None and post.k == "fn":
                out += [(s2, ref) for s2, _ in self.call(self.bind(post, ref, info, s), [], {}, s, fr, node)]
            else:
                out.append((s, ref))
        return out

    # ------------------------------------------------------------------ exploration
    def explore(self, fn, args=(), kw=None, st=None, interest=None, may_raise=None, opaque=None, models=None, assume=None, serve=False, track=None):
        """Analyse a function from an abstract state; returns the list of outcomes."""
        self.interest = interest
        self.may_raise = may_raise
        self.opaque = dict(opaque or {})
        for key in list(self.opaque):
            q = self._means(key)
            if q is not None and q != key:
                self.opaque.setdefault(q, self.opaque[key])
        self.models = models or {}
        self.assume = assume
        self.serve = serve
        self.track = track
        st = st if st is not None else self.state0.fork()
        fr = Frame(None, "mod:%driver", "%driver")
        if "%driver" not in self.modules:
            self.modules["%driver"] = "mod:%driver"
        if st.get("mod:%driver") is None:
            st.put("mod:%driver", H("env", None, {"__name__": C("%driver")}))
        node = ast.Pass(lineno=0, col_offset=0)
        try:
            res = self.call(fn, list(args), dict(kw or {}), st, fr, node)
        finally:
            self.interest = None
        out = [Outcome("return", v, s) for s, v in self.merge_pairs(res)]
        out += [Outcome("raise", e, s) for s, e in self.merge_pairs(fr.ctl.raises)]
        return out

    def driver(self, src, name="main", **bind):
        """Compile a history (a small function over the public API) for analysis."""
        tree = ast.parse(src)
        cnt = self.__dict__.setdefault("_ndrv", 0)
        self._ndrv += 1
        mod = "%%drv%d" % cnt
        st = self.state0.fork()
        was = self.joining
        self.trees.setdefault(mod, tree)
        self.modules[mod] = "mod:" + mod
        f = {"__name__": C(mod), "__file__": C(mod)}
        f.update(bind)
        st.put("mod:" + mod, H("env", None, f))
        fr = Frame(None, "mod:" + mod, mod)
        out = self.block(tree.body, [st], fr)
        if len(out) != 1:
            raise AnalysisError("driver does not initialise: %s" % [show(e) for _, e in fr.ctl.raises])
        st = out[0]
        return st, st.get("mod:" + mod).f[name]

    def _means(self, key):
        """The name of the function that is found under a dotted name."""
        memo = self.__dict__.setdefault("_meanings", {})
        if key in memo:
            return memo[key]
        r = None
        parts = key.split(".")
        for i in range(len(parts) - 1, 0, -1):
            m = self.pkg + "." + ".".join(parts[:i])
            if m not in self.modules:
                continue
            v = self.state0.get(self.modules[m]).f.get(parts[i])
            for p in parts[i + 1:]:
                v = self.state0.get(v.a[0].oid).f.get(p) if v is not None and v.k == "cls" else None
            while v is not None and v.k in ("smeth", "cmeth", "cmfn", "memo") and isinstance(v.a[0], V):
                v = v.a[0]
            if v is not None and v.k == "fn":
                r = v.a[0].qual
            break
        memo[key] = r
        return r

    def lookup(self, dotted):
        """Resolve 'module:attr.attr' in the initial state."""
        mod, _, path = dotted.partition(":")
        m = self.pkg + ("." + mod if mod else "")
        if m not in self.modules:
            raise AnalysisError("module %s is gone" % m)
        h = self.state0.get(self.modules[m])
        parts = path.split(".")
        v = h.f.get(parts[0])
        if v is None:
            raise AnalysisError("anchor %s is gone" % dotted)
        for p in parts[1:]:
            hh = self.state0.obj(v)
            if v.k == "cls":
                w = self.class_attr(v.a[0], p, self.state0)
            elif hh is not None and hh.kind == "inst":
                w = hh.f.get(p)
                if w is None:
                    w = self.class_attr(hh.cls, p, self.state0)
                    if w is not None:
                        w = self.bind(w, v, hh.cls, self.state0)
            else:
                w = None
            if w is None:
                raise AnalysisError("anchor %s is gone" % dotted)
            v = w
        return v

    def classes(self):
        return list(self.__dict__.get("_cinfos", {}).values())

    def subclasses(self, info):
        return [c for c in self.classes() if info in c.mro and c is not info]

    def is_abstract(self, info, st=None):
        st = st or self.state0
        for c in info.repo_mro():
            for nm, v in st.get(c.oid).f.items():
                w = v
                if w.k in ("prop", "smeth", "cmeth") and isinstance(w.a[0], V):
                    w = w.a[0]
                if w.k == "fn" and w.a[0].abstract:
                    ow = self.attr_owner(info, nm, st)
                    cur = st.get(ow.oid).f[nm]
                    if cur == v:
                        return True
        return False


def models_mod():
    from . import models

    return models


class _CompInfo:
    """Frame info of a comprehension scope: qualifies as its enclosing function."""

    def __init__(self, outer):
        self.qual = outer.qual if outer is not None else "<module>"
        self.locals, self.globals, self.nonlocals = set(), set(), set()
        self.node = None


def is_blocked(e):
    return isinstance(e, V) and e.k == "exc" and e.a[0] == EXT("!blocked")


def is_open_any(h):
    for x in h.items:
        if isinstance(x, tuple):
            if x[0] == "s":
                return True
        elif x.k in ("open", "star"):
            return True
    return False


def dict_put(items, k, v):
    out = []
    done = False
    for e in items:
        if e[0] == "k" and e[1] == k:
            # a later spread may have overridden it: keep position, drop shadowed value
            out.append(("k", k, v))
            done = True
        else:
            out.append(e)
    if done:
        # if a spread follows, re-insert at the end so that the newest write wins
        idx = [i for i, e in enumerate(out) if e[0] == "k" and e[1] == k][0]
        if any(e[0] == "s" for e in out[idx:]):
            out.pop(idx)
            out.append(("k", k, v))
    else:
        out.append(("k", k, v))
    return tuple(out)


def repr_key(v):
    return show(v, 8)


def _isboolterm(v):
    return (v.k == "t" and (v.a[0] in ("is", "eq", "in", "lt", "isinstance", "not", "bool") or (v.a[0] in ("and", "or") and all(_isboolterm(x) for x in v.a[1:])))) or (v.k == "c" and isinstance(v.a[1], bool))


def _as_load(t):
    if isinstance(t, ast.Name):
        n = ast.Name(t.id, ast.Load())
    elif isinstance(t, ast.Attribute):
        n = ast.Attribute(t.value, t.attr, ast.Load())
    else:
        n = ast.Subscript(t.value, t.slice, ast.Load())
    return ast.copy_location(n, t)


def _pyexc(name):
    if name.startswith("builtins."):
        o = getattr(_pybuiltins, name[9:], None)
        if isinstance(o, type) and issubclass(o, BaseException):
            return o
    return None


def _is_base_only(name):
    o = _pyexc(name)
    return o is not None and not issubclass(o, Exception)


def _c3(head, lin):
    out = list(head)
    seqs = [list(x) for x in lin]
    seen = set(id(x) if not isinstance(x, str) else x for x in out)
    # simple linearisation: keep left-to-right order, drop earlier duplicates
    flat = [x for s in seqs for x in s]
    res = []
    for i, x in enumerate(flat):
        if x not in flat[i + 1:]:
            res.append(x)
    return out + res


import operator as _op  # noqa: E402

_BIN = {
    "Add": _op.add, "Sub": _op.sub, "Mult": _op.mul, "Div": _op.truediv, "FloorDiv": _op.floordiv, "Mod": _op.mod,
    "Pow": _op.pow, "LShift": _op.lshift, "RShift": _op.rshift, "BitOr": _op.or_, "BitAnd": _op.and_,
    "BitXor": _op.xor, "MatMult": _op.matmul,
}
_CMP = {"Lt": _op.lt, "LtE": _op.le, "Gt": _op.gt, "GtE": _op.ge}
