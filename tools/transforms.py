"""Behaviour-preserving rewrites of the whole package, by syntax tree (development only; no check uses it):
python3 tools/transforms.py [transform ...] [-p PROP ...] -- every check must stay quiet on every one."""
import ast
import copy
import json
import os
import shutil
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FUNC = (ast.FunctionDef,)
COUNT = [0]


def fresh(p="tmp"):
    COUNT[0] += 1
    return "%s_%d" % (p, COUNT[0])


def name(n):
    return ast.Name(n, ast.Load())


def store(n):
    return ast.Name(n, ast.Store())


def assign(n, v):
    return ast.Assign([store(n)], v)


def simple(v):
    return isinstance(v, (ast.Name, ast.Constant)) or v is None


def own(fn):
    """Nodes of a function, without those of functions inside it."""
    todo = list(fn.body)
    while todo:
        n = todo.pop()
        yield n
        if not isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            todo.extend(ast.iter_child_nodes(n))


def is_gen(fn):
    return any(isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await)) for n in own(fn))


class Blocks(ast.NodeTransformer):
    """Rewrites lists of statements inside functions."""

    depth = 0

    def visit_FunctionDef(self, n):
        self.depth += 1
        self.generic_visit(n)
        self.depth -= 1
        return n

    def generic_visit(self, n):
        super().generic_visit(n)
        if self.depth:
            for f in ("body", "orelse", "finalbody"):
                b = getattr(n, f, None)
                if isinstance(b, list) and b and isinstance(b[0], ast.stmt) and not isinstance(n, ast.ClassDef):
                    setattr(n, f, self.block(b) or [ast.Pass()])
        return n

    def block(self, b):
        out = []
        for s in b:
            r = self.stmt(s)
            out.extend(r if isinstance(r, list) else [r])
        return out

    def stmt(self, s):
        return s


class InvertIf(Blocks):
    def stmt(self, s):
        if isinstance(s, ast.If) and s.orelse and not (len(s.orelse) == 1 and isinstance(s.orelse[0], ast.If)):
            t = s.test.operand if isinstance(s.test, ast.UnaryOp) and isinstance(s.test.op, ast.Not) else ast.UnaryOp(ast.Not(), s.test)
            return ast.If(t, s.orelse, s.body)
        return s


class ReturnTemp(Blocks):
    def stmt(self, s):
        if isinstance(s, ast.Return) and not simple(s.value):
            n = fresh("result")
            return [assign(n, s.value), ast.Return(name(n))]
        return s


class CompLoop(Blocks):
    def stmt(self, s):
        if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, (ast.ListComp, ast.DictComp)) and len(s.value.generators) == 1:
            c = s.value
            g = c.generators[0]
            n = fresh("items")
            if isinstance(c, ast.ListComp):
                add = ast.Expr(ast.Call(ast.Attribute(name(n), "append", ast.Load()), [c.elt], []))
                init = ast.List([], ast.Load())
            else:
                add = ast.Assign([ast.Subscript(name(n), c.key, ast.Store())], c.value)
                init = ast.Dict([], [])
            body = [add]
            for t in reversed(g.ifs):
                body = [ast.If(t, body, [])]
            s2 = copy.copy(s)
            s2.value = name(n)
            return [assign(n, init), ast.For(g.target, g.iter, body, []), s2]
        return s


class Format(ast.NodeTransformer):
    def visit_JoinedStr(self, n):
        self.generic_visit(n)
        t, args = "", []
        for v in n.values:
            if isinstance(v, ast.Constant):
                t += v.value.replace("{", "{{").replace("}", "}}")
            else:
                spec = ""
                if v.format_spec is not None:
                    fs = v.format_spec
                    if not (isinstance(fs, ast.JoinedStr) and all(isinstance(x, ast.Constant) for x in fs.values)):
                        return n
                    spec = ":" + "".join(x.value for x in fs.values)
                t += "{" + ("!" + chr(v.conversion) if v.conversion != -1 else "") + spec + "}"
                args.append(v.value)
        return ast.Call(ast.Attribute(ast.Constant(t), "format", ast.Load()), args, [])

    def visit_FormattedValue(self, n):
        n.value = self.visit(n.value)
        return n


class Percent(ast.NodeTransformer):
    """f-strings as sums of str()."""

    def visit_JoinedStr(self, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                if v.format_spec is not None:
                    return n
                parts.append(ast.Call(name("repr" if v.conversion == 114 else "str"), [self.visit(v.value)], []))
        if not parts:
            return ast.Constant("")
        r = parts[0]
        for p in parts[1:]:
            r = ast.BinOp(r, ast.Add(), p)
        return r


class NestAnd(Blocks):
    def stmt(self, s):
        if isinstance(s, ast.If) and not s.orelse and isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.And):
            body = s.body
            for t in reversed(s.test.values):
                body = [ast.If(t, body, [])]
            return body
        return s


class MergeIf(Blocks):
    def stmt(self, s):
        if isinstance(s, ast.If) and not s.orelse and len(s.body) == 1 and isinstance(s.body[0], ast.If) and not s.body[0].orelse:
            return ast.If(ast.BoolOp(ast.And(), [s.test, s.body[0].test]), s.body[0].body, [])
        return s


class InOr(ast.NodeTransformer):
    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)) and isinstance(n.comparators[0], (ast.Tuple, ast.List)) and simple(n.left) and n.comparators[0].elts and all(isinstance(x, ast.Constant) for x in n.comparators[0].elts):
            r = ast.BoolOp(ast.Or(), [ast.Compare(n.left, [ast.Eq()], [x]) for x in n.comparators[0].elts])
            return ast.UnaryOp(ast.Not(), r) if isinstance(n.ops[0], ast.NotIn) else r
        return n


class PlainAssign(ast.NodeTransformer):
    def visit_AugAssign(self, n):
        t = n.target
        if isinstance(t, ast.Name) or (isinstance(t, ast.Attribute) and not any(isinstance(x, ast.Call) for x in ast.walk(t))):
            if isinstance(n.value, (ast.List, ast.Call)) and isinstance(n.op, ast.Add) and not isinstance(t, ast.Attribute):
                return n  # may extend in place
            load = copy.deepcopy(t)
            load.ctx = ast.Load()
            return ast.Assign([t], ast.BinOp(load, n.op, n.value))
        return n


class AugAssign(ast.NodeTransformer):
    def visit_Assign(self, n):
        if len(n.targets) == 1 and isinstance(n.targets[0], (ast.Name, ast.Attribute)) and isinstance(n.value, ast.BinOp) and isinstance(n.value.op, (ast.Sub, ast.Mult, ast.Div)) and ast.unparse(n.targets[0]) == ast.unparse(n.value.left):
            return ast.AugAssign(n.targets[0], n.value.op, n.value.right)
        return n


class Guard(Blocks):
    """if c: return/raise; rest  ->  if c: ... else: rest"""

    def block(self, b):
        for i, s in enumerate(b):
            if isinstance(s, ast.If) and not s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break)) and i + 1 < len(b):
                return b[:i] + [ast.If(s.test, s.body, self.block(b[i + 1:]))]
        return b


class Unguard(Blocks):
    """if c: return a else: rest -> if c: return a; rest"""

    def block(self, b):
        out = []
        for s in b:
            if isinstance(s, ast.If) and s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise)):
                out.append(ast.If(s.test, s.body, []))
                out.extend(self.block(s.orelse))
            else:
                out.append(s)
        return out


class Ternary(Blocks):
    def stmt(self, s):
        if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, ast.IfExp):
            a, b = copy.copy(s), copy.copy(s)
            a.value, b.value = s.value.body, s.value.orelse
            return ast.If(s.value.test, [a], [b])
        return s


class ToTernary(Blocks):
    def block(self, b):
        out = []
        i = 0
        while i < len(b):
            s = b[i]
            nx = b[i + 1] if i + 1 < len(b) else None
            if isinstance(s, ast.If) and len(s.body) == 1 and isinstance(s.body[0], ast.Return) and s.body[0].value is not None:
                if not s.orelse and isinstance(nx, ast.Return) and nx.value is not None:
                    out.append(ast.Return(ast.IfExp(s.test, s.body[0].value, nx.value)))
                    i += 2
                    continue
                if len(s.orelse) == 1 and isinstance(s.orelse[0], ast.Return) and s.orelse[0].value is not None:
                    out.append(ast.Return(ast.IfExp(s.test, s.body[0].value, s.orelse[0].value)))
                    i += 1
                    continue
            if isinstance(s, ast.If) and len(s.body) == 1 and len(s.orelse) == 1 and isinstance(s.body[0], ast.Assign) and isinstance(s.orelse[0], ast.Assign) and ast.dump(s.body[0].targets[0]) == ast.dump(s.orelse[0].targets[0]):
                out.append(ast.Assign(s.body[0].targets, ast.IfExp(s.test, s.body[0].value, s.orelse[0].value)))
                i += 1
                continue
            out.append(s)
            i += 1
        return out


class Flip(ast.NodeTransformer):
    M = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and type(n.ops[0]) in self.M:
            return ast.Compare(n.comparators[0], [self.M[type(n.ops[0])]()], [n.left])
        return n


class NotCompare(ast.NodeTransformer):
    M = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}

    def visit_FunctionDef(self, n):
        return n if n.name in ("__eq__", "__ne__") else self.generic_visit(n)

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and type(n.ops[0]) in self.M:
            return ast.UnaryOp(ast.Not(), ast.Compare(n.left, [self.M[type(n.ops[0])]()], n.comparators))
        return n


class Enumerate(ast.NodeTransformer):
    def visit_For(self, n):
        self.generic_visit(n)
        if not (isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Name) and n.iter.func.id == "enumerate"):
            n.iter = ast.Call(name("enumerate"), [n.iter], [])
            n.target = ast.Tuple([store(fresh("pos")), n.target], ast.Store())
        return n


class Unpack(Blocks):
    def stmt(self, s):
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Tuple) and isinstance(s.value, ast.Call) and not any(isinstance(x, ast.Starred) for x in s.targets[0].elts):
            n = fresh("pair")
            return [assign(n, s.value)] + [ast.Assign([t], ast.Subscript(name(n), ast.Constant(i), ast.Load())) for i, t in enumerate(s.targets[0].elts)]
        return s


class Me(ast.NodeTransformer):
    """self under another name."""

    def visit_FunctionDef(self, n):
        if n.args.args and n.args.args[0].arg == "self" and n.name != "__init__":
            for b in n.body:
                todo = [b]
                while todo:
                    x = todo.pop()
                    if isinstance(x, ast.Name) and x.id == "self":
                        x.id = "me"
                    if not isinstance(x, ast.ClassDef):
                        todo.extend(ast.iter_child_nodes(x))
            i = 1 if isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) else 0
            n.body.insert(i, assign("me", name("self")))
        return n


class HoistArgs(Blocks):
    """The arguments of a call are worked out first."""

    def stmt(self, s):
        v = getattr(s, "value", None)
        if isinstance(s, (ast.Expr, ast.Assign, ast.Return)) and isinstance(v, ast.Call):
            f = v.func
            while isinstance(f, ast.Attribute):
                f = f.value
            if isinstance(f, ast.Name) and f.id not in ("super", "locals") and not any(isinstance(a, ast.Starred) for a in v.args) and all(k.arg for k in v.keywords):
                out = []
                for i, a in enumerate(v.args):
                    if not simple(a) and not isinstance(a, (ast.GeneratorExp, ast.Lambda)) and not any(isinstance(x, (ast.Yield, ast.Await)) for x in ast.walk(a)):
                        n = fresh("arg")
                        out.append(assign(n, a))
                        v.args[i] = name(n)
                for k in v.keywords:
                    if not simple(k.value) and not isinstance(k.value, (ast.GeneratorExp, ast.Lambda)):
                        n = fresh("arg")
                        out.append(assign(n, k.value))
                        k.value = name(n)
                return out + [s]
        return s


class HoistTest(Blocks):
    """Conditions are worked out before the if."""

    def stmt(self, s):
        if isinstance(s, ast.If) and not simple(s.test):
            n = fresh("cond")
            t = s.test
            s.test = name(n)
            return [assign(n, t), s]
        return s


class WhileTrue(Blocks):
    def stmt(self, s):
        if isinstance(s, ast.While) and not s.orelse and not (isinstance(s.test, ast.Constant)):
            return ast.While(ast.Constant(True), [ast.If(ast.UnaryOp(ast.Not(), s.test), [ast.Break()], [])] + s.body, [])
        return s


class Rename(ast.NodeTransformer):
    """Local variables under other names."""

    def visit_FunctionDef(self, n):
        params, stored, no = set(), set(), set()
        for x in ast.walk(n):
            if isinstance(x, ast.arg):
                params.add(x.arg)
            elif isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                stored.add(x.id)
            elif isinstance(x, (ast.Global, ast.Nonlocal)):
                no.update(x.names)
            elif isinstance(x, (ast.FunctionDef, ast.ClassDef)) and x is not n:
                no.add(x.name)
            elif isinstance(x, ast.alias):
                no.add((x.asname or x.name).split(".")[0])
            elif isinstance(x, ast.ExceptHandler) and x.name:
                no.add(x.name)
        todo = stored - params - no
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and x.id in todo:
                x.id = x.id + "_"
        return n


class Wrap(ast.NodeTransformer):
    """Every undecorated function hands on to a helper."""

    def wrap(self, n, method, owner=""):
        a = n.args
        if n.decorator_list or n.name.startswith("__") or is_gen(n) or any(isinstance(x, (ast.Global, ast.Nonlocal)) for x in own(n)):
            return [n]
        inner = copy.deepcopy(n)
        inner.name = "_do_" + owner.lower() + "_" + n.name.replace("_", "u_", 1 if n.name[0] == "_" else 0)
        pos = [x.arg for x in a.posonlyargs + a.args]
        call_args = [name(x) for x in (pos[1:] if method else pos)]
        if a.vararg:
            call_args.append(ast.Starred(name(a.vararg.arg), ast.Load()))
        kws = [ast.keyword(x.arg, name(x.arg)) for x in a.kwonlyargs]
        if a.kwarg:
            kws.append(ast.keyword(None, name(a.kwarg.arg)))
        inner.args.defaults = []
        inner.args.kw_defaults = [None] * len(a.kwonlyargs)
        f = ast.Attribute(name(pos[0]), inner.name, ast.Load()) if method else name(inner.name)
        doc = n.body[:1] if isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) else []
        n.body = doc + [ast.Return(ast.Call(f, call_args, kws))]
        return [inner, n]

    def visit_ClassDef(self, n):
        out = []
        for s in n.body:
            out.extend(self.wrap(s, True, n.name) if isinstance(s, ast.FunctionDef) and s.args.args and s.args.args[0].arg == "self" else [s])
        n.body = out
        return n

    def visit_Module(self, n):
        out = []
        for s in n.body:
            if isinstance(s, ast.ClassDef):
                s = self.visit_ClassDef(s)
            out.extend(self.wrap(s, False) if isinstance(s, ast.FunctionDef) else [s])
        n.body = out
        return n


class Reverse(ast.NodeTransformer):
    """The methods of classes in the opposite order."""

    def visit_ClassDef(self, n):
        names = [s.name for s in n.body if isinstance(s, ast.FunctionDef)]
        fs = [s for s in n.body if isinstance(s, ast.FunctionDef)]
        later = {x.id for s in n.body if not isinstance(s, ast.FunctionDef) for x in ast.walk(s) if isinstance(x, ast.Name)}
        if len(set(names)) == len(names) and not set(names) & later and not any(isinstance(d, (ast.Name, ast.Attribute)) and getattr(d, "id", getattr(getattr(d, "value", None), "id", "")) in names for f in fs for d in f.decorator_list):
            n.body = [s for s in n.body if not isinstance(s, ast.FunctionDef)] + fs[::-1]
        return n


class Keywords(ast.NodeTransformer):
    """Calls of the module's own functions with keywords."""

    def visit_Module(self, n):
        fns = {s.name: [x.arg for x in s.args.args] for s in n.body if isinstance(s, ast.FunctionDef) and not s.args.vararg and not s.args.posonlyargs}
        methods = {}
        for c in ast.walk(n):
            if isinstance(c, ast.ClassDef):
                for s in c.body:
                    if isinstance(s, ast.FunctionDef):
                        methods.setdefault(s.name, []).append(s)
        for x in ast.walk(n):
            if isinstance(x, ast.Call) and not any(isinstance(a, ast.Starred) for a in x.args):
                ps = None
                if isinstance(x.func, ast.Name) and x.func.id in fns:
                    ps = fns[x.func.id]
                elif isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.value.id == "self" and len(methods.get(x.func.attr, [])) == 1:
                    m = methods[x.func.attr][0]
                    if not m.decorator_list and not m.args.vararg:
                        ps = [a.arg for a in m.args.args][1:]
                if ps is not None and len(x.args) <= len(ps) and "name" not in ps:
                    x.keywords = [ast.keyword(p, a) for p, a in zip(ps, x.args)] + x.keywords
                    x.args = []
        return n


class Annotate(ast.NodeTransformer):
    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        for a in n.args.args:
            if a.arg not in ("self", "cls"):
                a.annotation = ast.Constant("object")
        n.returns = ast.Constant("object")
        return n


class Noise(ast.NodeTransformer):
    """A comparison and an empty loop that do nothing at the start and before every return."""

    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        i = 1 if isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) else 0
        n.body[i:i] = ast.parse("unused_ = None\nfor unused_ in ():\n    pass\nif unused_ is not None:\n    unused_ = None\n").body
        return n


class TryReraise(ast.NodeTransformer):
    """Every function's body inside try ... except: raise."""

    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        i = 1 if isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) else 0
        body = n.body[i:] or [ast.Pass()]
        n.body[i:] = [ast.Try(body, [ast.ExceptHandler(name("Exception"), None, [ast.Raise()])], [], [])]
        return n


class DictCall(ast.NodeTransformer):
    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id == "dict" and not n.args and n.keywords:
            return ast.Dict([ast.Constant(k.arg) if k.arg else None for k in n.keywords], [k.value for k in n.keywords])
        return n


class GetNone(ast.NodeTransformer):
    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Attribute) and n.func.attr == "get" and len(n.args) == 2 and isinstance(n.args[1], ast.Constant) and n.args[1].value is None and not (isinstance(n.func.value, ast.Name) and n.func.value.id == "CONFIG"):
            n.args = n.args[:1]
        return n


class WithTwo(Blocks):
    """with a: with b: -> with a, b:"""

    def stmt(self, s):
        if isinstance(s, ast.With) and len(s.body) == 1 and isinstance(s.body[0], ast.With):
            return ast.With(s.items + s.body[0].items, s.body[0].body)
        return s


class LockTry(Blocks):
    """with lock: -> acquire, try, finally release."""

    def stmt(self, s):
        if isinstance(s, ast.With) and len(s.items) == 1 and s.items[0].optional_vars is None and ast.unparse(s.items[0].context_expr).endswith("lock"):
            x = s.items[0].context_expr
            call = lambda m: ast.Expr(ast.Call(ast.Attribute(x, m, ast.Load()), [], []))  # noqa: E731
            return [call("acquire"), ast.Try(s.body, [], [], [call("release")])]
        return s


class IfReturnBool(Blocks):
    """if c: return True; return False -> return bool(c); and back."""

    def stmt(self, s):
        if isinstance(s, ast.Return) and isinstance(s.value, (ast.Compare, ast.BoolOp)) and all(isinstance(x, (ast.Compare, ast.Call, ast.UnaryOp)) for x in ([s.value] if isinstance(s.value, ast.Compare) else s.value.values)) and not any(isinstance(x, ast.Call) for x in ([s.value] if isinstance(s.value, ast.Compare) else s.value.values)):
            return [ast.If(s.value, [ast.Return(ast.Constant(True))], []), ast.Return(ast.Constant(False))]
        return s


def locals_of(fn):
    a = fn.args
    ps = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + [x.arg for x in (a.vararg, a.kwarg) if x]
    return ps


def comp_vars(nodes):
    return {t.id for b in nodes for x in ast.walk(b) if isinstance(x, ast.comprehension) for t in ast.walk(x.target) if isinstance(t, ast.Name)}


def stores(nodes):
    out = set()
    inside = {id(t) for b in nodes for x in ast.walk(b) if isinstance(x, ast.comprehension) for t in ast.walk(x.target)}
    for b in nodes:
        for x in ast.walk(b):
            if id(x) in inside:
                continue
            if isinstance(x, ast.Name) and not isinstance(x.ctx, ast.Load):
                out.add(x.id)
            elif isinstance(x, ast.ExceptHandler) and x.name:
                out.add(x.name)
            elif isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                out.add(x.name)
            elif isinstance(x, (ast.Import, ast.ImportFrom)):
                out |= {(y.asname or y.name).split(".")[0] for y in x.names}
    return out


def loads(nodes):
    return {x.id for b in nodes for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)}


def sure(stmts):
    """Names surely bound after these statements."""
    out = set()
    for s in stmts:
        if isinstance(s, (ast.Assign, ast.Import, ast.ImportFrom, ast.FunctionDef)):
            out |= stores([s])
        elif isinstance(s, ast.With):
            out |= sure(s.body)
        elif isinstance(s, ast.If) and s.orelse:
            out |= sure(s.body) & sure(s.orelse)
    return out


BAD = (ast.Yield, ast.YieldFrom, ast.Nonlocal, ast.Global, ast.Delete)


def movable(nodes, extra=()):
    for b in nodes:
        for x in ast.walk(b):
            if isinstance(x, BAD + tuple(extra)):
                return False
            if isinstance(x, ast.Name) and x.id in ("super", "locals", "__class__"):
                return False
    return True


class Extract(ast.NodeTransformer):
    """Parts of functions move to functions of their own."""

    method = False

    def __init__(self):
        self.made = []
        self.cls = None

    def visit_Module(self, n):
        out = []
        for s in n.body:
            if isinstance(s, ast.FunctionDef):
                self.made = []
                self.outer(s, None)
                out += self.made
            elif isinstance(s, ast.ClassDef):
                body = []
                early = []
                for f in s.body:
                    self.made = []
                    if isinstance(f, ast.FunctionDef):
                        self.outer(f, s)
                    plain_m = self.made and self.as_method
                    if plain_m:
                        body += self.made
                    else:
                        early += self.made
                    body.append(f)
                s.body = body
                out += early
            out.append(s)
        n.body = out
        return n

    def outer(self, f, cls):
        decs = [ast.unparse(d) for d in f.decorator_list]
        self.as_method = bool(self.method and cls is not None and not any(d in ("staticmethod", "classmethod") for d in decs) and f.args.args and f.args.args[0].arg == "self" and "NamedTuple" not in [ast.unparse(b) for b in cls.bases])
        if is_gen(f) or any(isinstance(x, (ast.Nonlocal, ast.Global)) for x in ast.walk(f)):
            return
        self.fn(f)

    def fn(self, f):
        pass

    def helper(self, names, body):
        nm = fresh("_part")
        names = sorted(names)
        if self.as_method:
            names = [x for x in names if x != "self"]
            self.made.append(ast.FunctionDef(nm, ast.arguments([], [ast.arg("self")] + [ast.arg(x) for x in names], None, [], [], None, []), body, []))
            return ast.Call(ast.Attribute(name("self"), nm, ast.Load()), [name(x) for x in names], [])
        self.made.append(ast.FunctionDef(nm, ast.arguments([], [ast.arg(x) for x in names], None, [], [], None, []), body, []))
        return ast.Call(name(nm), [name(x) for x in names], [])


class ExtractTail(Extract):
    """The second half of a function is another function."""

    def fn(self, f):
        b = f.body
        i0 = 1 if isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant) else 0
        k = i0 + (len(b) - i0 + 1) // 2
        if len(b) - i0 < 3 or not movable(b[k:]):
            return
        known = set(locals_of(f)) | sure(b[:k])
        maybe = stores(b[:k])
        need = (loads(b[k:]) & (known | maybe)) - (comp_vars(b[k:]) - known)
        if need - known or any(isinstance(x, (ast.FunctionDef, ast.Lambda)) and loads([x]) & stores(b[k:]) for s in b[:k] for x in ast.walk(s)):
            return
        f.body = b[:k] + [ast.Return(self.helper(need, b[k:]))]


class ExtractTailM(ExtractTail):
    method = True


class ExtractValue(Extract):
    """Every value assigned or returned that is not simple is worked out by another function."""

    def fn(self, f):
        params = set(locals_of(f))
        every = stores(f.body)

        def go(stmts, known):
            known = set(known)
            for s in stmts:
                v = getattr(s, "value", None)
                if isinstance(s, (ast.Assign, ast.Return)) and isinstance(v, (ast.Call, ast.BinOp, ast.Compare, ast.Dict, ast.ListComp, ast.IfExp)) and movable([v], (ast.NamedExpr, ast.Lambda)):
                    need = (loads([v]) & (params | every)) - (comp_vars([v]) - known)
                    if not need - known and not comp_vars([v]) & known:
                        s.value = self.helper(need, [ast.Return(v)])
                for fld in ("body", "orelse", "finalbody"):
                    sub = getattr(s, fld, None)
                    if isinstance(sub, list) and not isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                        more = set()
                        if isinstance(s, ast.For) and fld == "body":
                            more = stores([s.target])
                        if isinstance(s, ast.With):
                            more = {t.id for i in s.items if i.optional_vars is not None for t in ast.walk(i.optional_vars) if isinstance(t, ast.Name)}
                        go(sub, known | more)
                known |= sure([s])

        go(f.body, params)


class ExtractValueM(ExtractValue):
    method = True


class ExtractBlock(Extract):
    """The bodies of if and for are other functions, where nothing comes out of them."""

    def fn(self, f):
        params = set(locals_of(f))
        every = stores(f.body)

        def go(stmts, known):
            known = set(known)
            for s in stmts:
                for fld in ("body", "orelse"):
                    sub = getattr(s, fld, None)
                    if not isinstance(sub, list) or not sub or isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                        continue
                    more = set()
                    if isinstance(s, ast.For) and fld == "body":
                        more = stores([s.target])
                    if isinstance(s, ast.With):
                        more = {t.id for i in s.items if i.optional_vars is not None for t in ast.walk(i.optional_vars) if isinstance(t, ast.Name)}
                    ins = stores(sub)
                    rest = [x for x in ast.walk(f) if isinstance(x, ast.Name)]
                    here = {id(x) for b in sub for x in ast.walk(b)}
                    outside = {x.id for x in rest if id(x) not in here}
                    need = (loads(sub) & (params | every)) - (comp_vars(sub) - known - more)
                    if isinstance(s, (ast.If, ast.For)) and movable(sub, (ast.Return, ast.Break, ast.Continue, ast.FunctionDef, ast.Raise, ast.AugAssign)) and not ins & outside and not ins & params and not (need - ins) - (known | more) and not (len(sub) == 1 and isinstance(sub[0], ast.Pass)):
                        setattr(s, fld, [ast.Expr(self.helper(need - ins, sub))])
                    else:
                        go(sub, known | more)
                known |= sure([s])

        go(f.body, params)


class ExtractBlockM(ExtractBlock):
    method = True


class Walrus(Blocks):
    """x = e; if x: -> if (x := e):"""

    def block(self, b):
        out = []
        for s in b:
            p = out[-1] if out else None
            if isinstance(s, ast.If) and isinstance(p, ast.Assign) and len(p.targets) == 1 and isinstance(p.targets[0], ast.Name):
                t = s.test
                first = t.left if isinstance(t, ast.Compare) else t.operand if isinstance(t, ast.UnaryOp) else t
                if isinstance(first, ast.Name) and first.id == p.targets[0].id:
                    w = ast.NamedExpr(store(first.id), p.value)
                    if first is t:
                        s.test = w
                    elif isinstance(t, ast.Compare):
                        t.left = w
                    else:
                        t.operand = w
                    out[-1] = s
                    continue
            out.append(s)
        return out


class IsOr(ast.NodeTransformer):
    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id == "isinstance" and isinstance(n.args[1], ast.Tuple) and isinstance(n.args[0], ast.Name):
            return ast.BoolOp(ast.Or(), [ast.Call(name("isinstance"), [n.args[0], t], []) for t in n.args[1].elts])
        return n


class DictBuild(Blocks):
    """Dictionaries and lists are filled one by one."""

    def stmt(self, s):
        if isinstance(s, (ast.Assign, ast.Return)) and (isinstance(s, ast.Return) or len(s.targets) == 1 and isinstance(s.targets[0], ast.Name)):
            v = s.value
            t = fresh("made") if isinstance(s, ast.Return) else s.targets[0].id
            if isinstance(v, ast.Dict) and v.keys and all(k is not None for k in v.keys) and t not in loads([v]):
                out = [assign(t, ast.Dict([], []))] + [ast.Assign([ast.Subscript(name(t), k, ast.Store())], x) for k, x in zip(v.keys, v.values)]
            elif isinstance(v, ast.List) and v.elts and not any(isinstance(x, ast.Starred) for x in v.elts) and t not in loads([v]):
                out = [assign(t, ast.List([], ast.Load()))] + [ast.Expr(ast.Call(ast.Attribute(name(t), "append", ast.Load()), [x], [])) for x in v.elts]
            else:
                return s
            return out + ([ast.Return(name(t))] if isinstance(s, ast.Return) else [])
        return s


class ItemsLoop(Blocks):
    """for k, v in d.items() -> for k in d, looking v up"""

    def stmt(self, s):
        if isinstance(s, ast.For) and isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Attribute) and s.iter.func.attr == "items" and isinstance(s.iter.func.value, ast.Name) and isinstance(s.target, ast.Tuple) and len(s.target.elts) == 2 and all(isinstance(x, ast.Name) for x in s.target.elts):
            k, v = s.target.elts
            s.body = [assign(v.id, ast.Subscript(s.iter.func.value, name(k.id), ast.Load()))] + s.body
            s.target = k
            s.iter = s.iter.func.value
        return s


class OpenTry(Blocks):
    """with open(...) as f: -> try ... finally f.close()"""

    def stmt(self, s):
        if isinstance(s, ast.With) and len(s.items) == 1 and isinstance(s.items[0].context_expr, ast.Call) and isinstance(s.items[0].context_expr.func, ast.Name) and s.items[0].context_expr.func.id == "open" and isinstance(s.items[0].optional_vars, ast.Name):
            f = s.items[0].optional_vars.id
            return [assign(f, s.items[0].context_expr), ast.Try(s.body, [], [], [ast.Expr(ast.Call(ast.Attribute(name(f), "close", ast.Load()), [], []))])]
        return s


class FromImport(ast.NodeTransformer):
    """os.path.join -> from os.path import join"""

    def visit_Module(self, n):
        top = {a.name for s in n.body if isinstance(s, ast.Import) for a in s.names if not a.asname}
        want = {}

        class R(ast.NodeTransformer):
            def visit_Attribute(self, x):
                d = ast.unparse(x)
                mod = d.rpartition(".")[0]
                if mod in ("os.path", "os", "json", "logging", "threading", "hashlib", "shutil", "tempfile", "re") and mod.split(".")[0] in top and isinstance(x.ctx, ast.Load) and d != "os.path":
                    want[d] = d.replace(".", "_") + "_"
                    return name(want[d])
                self.generic_visit(x)
                return x

        n = R().generic_visit(n) or n
        i = max([k for k, s in enumerate(n.body) if isinstance(s, (ast.Import, ast.ImportFrom)) and s.col_offset == 0] or [0]) + 1
        firstuse = min([k for k, s in enumerate(n.body) if not isinstance(s, (ast.Import, ast.ImportFrom)) and not (k == 0 and isinstance(s, ast.Expr))] or [0])
        n.body[min(i, firstuse):min(i, firstuse)] = [ast.ImportFrom(d.rpartition(".")[0], [ast.alias(d.rpartition(".")[2], w)], 0) for d, w in sorted(want.items())]
        return n


class SuperArgs(ast.NodeTransformer):
    def visit_ClassDef(self, n):
        for f in n.body:
            if isinstance(f, ast.FunctionDef) and f.args.args:
                for x in own(f):
                    if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "super" and not x.args:
                        x.args = [name(n.name), name(f.args.args[0].arg)]
        return n


class AnyLoop(Blocks):
    """return any(...) / all(...) -> a loop"""

    def stmt(self, s):
        if isinstance(s, ast.Return) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Name) and s.value.func.id in ("any", "all") and len(s.value.args) == 1 and isinstance(s.value.args[0], (ast.GeneratorExp, ast.ListComp)) and len(s.value.args[0].generators) == 1:
            g = s.value.args[0].generators[0]
            isany = s.value.func.id == "any"
            t = s.value.args[0].elt
            body = [ast.If(t if isany else ast.UnaryOp(ast.Not(), t), [ast.Return(ast.Constant(isany))], [])]
            for c in reversed(g.ifs):
                body = [ast.If(c, body, [])]
            return [ast.For(g.target, g.iter, body, []), ast.Return(ast.Constant(not isany))]
        return s


class ConstHoist(ast.NodeTransformer):
    """Text and numbers in functions are constants of the module."""

    def visit_Module(self, n):
        made = {}

        class R(ast.NodeTransformer):
            def visit_JoinedStr(self, x):
                return x

            def visit_FunctionDef(self, f):
                i = 1 if isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant) else 0
                f.body[i:] = [self.visit(s) for s in f.body[i:]]
                return f

            def visit_Expr(self, x):
                return x if isinstance(x.value, ast.Constant) else self.generic_visit(x)

            def visit_Constant(self, x):
                if isinstance(x.value, (str, int, float, bytes)) and not isinstance(x.value, bool):
                    k = (type(x.value).__name__, x.value)
                    made.setdefault(k, "CONST_%d" % (len(made) + 1))
                    return name(made[k])
                return x

        for k, s in enumerate(n.body):
            if isinstance(s, ast.FunctionDef):
                n.body[k] = R().visit(s)
            elif isinstance(s, ast.ClassDef):
                s.body = [R().visit(f) if isinstance(f, ast.FunctionDef) else f for f in s.body]
        i = 0
        while i < len(n.body) and (isinstance(n.body[i], ast.Expr) or isinstance(n.body[i], ast.ImportFrom) and n.body[i].module == "__future__"):
            i += 1
        n.body[i:i] = [assign(w, ast.Constant(v)) for (_, v), w in made.items()]
        return n


class Chain(ast.NodeTransformer):
    """a < b < c -> a < b and b < c"""

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 2 and isinstance(n.comparators[0], (ast.Name, ast.Attribute, ast.Constant)):
            return ast.BoolOp(ast.And(), [ast.Compare(n.left, [n.ops[0]], [n.comparators[0]]), ast.Compare(n.comparators[0], [n.ops[1]], [n.comparators[1]])])
        return n


class StaticOut(ast.NodeTransformer):
    """Static methods are functions of the module."""

    def visit_Module(self, n):
        out = []
        for s in n.body:
            if isinstance(s, ast.ClassDef):
                for k, f in enumerate(s.body):
                    if isinstance(f, ast.FunctionDef) and [ast.unparse(d) for d in f.decorator_list] == ["staticmethod"] and not any(isinstance(x, ast.Name) and x.id in ("super", s.name) for x in ast.walk(f)):
                        nm = "_%s_%s" % (s.name.lower(), f.name)
                        g = copy.deepcopy(f)
                        g.name = nm
                        g.decorator_list = []
                        out.append(g)
                        s.body[k] = assign(f.name, ast.Call(name("staticmethod"), [name(nm)], []))
            out.append(s)
        n.body = out
        return n


class PropCall(ast.NodeTransformer):
    """@property -> x = property(_x)"""

    def visit_ClassDef(self, n):
        out = []
        for f in n.body:
            out.append(f)
            if isinstance(f, ast.FunctionDef) and [ast.unparse(d) for d in f.decorator_list] == ["property"]:
                f.decorator_list = []
                nm, f.name = f.name, "_get_" + f.name
                out.append(assign(nm, ast.Call(name("property"), [name(f.name)], [])))
        n.body = out
        return n


class SwapAssign(Blocks):
    """Two plain assignments next to each other, the other way round."""

    def block(self, b):
        out = list(b)
        i = 0
        pure = lambda v: not any(isinstance(x, (ast.Call, ast.Attribute, ast.Subscript, ast.Await, ast.BinOp)) for x in ast.walk(v))  # noqa: E731
        while i + 1 < len(out):
            p, q = out[i], out[i + 1]
            if all(isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], (ast.Name, ast.Attribute)) and pure(x.value) for x in (p, q)):
                tp, tq = ast.unparse(p.targets[0]), ast.unparse(q.targets[0])
                if tp != tq and loads([p.value]).isdisjoint({tq}) and loads([q.value]).isdisjoint({tp}) and loads([p.targets[0]]).isdisjoint({tq}) and loads([q.targets[0]]).isdisjoint({tp}):
                    out[i], out[i + 1] = q, p
                    i += 2
                    continue
            i += 1
        return out


class CondExprLog(ast.NodeTransformer):
    """Every function says it was called."""

    def visit_Module(self, n):
        self.generic_visit(n)
        if any(isinstance(s, ast.Assign) and ast.unparse(s).startswith("LOG = ") for s in n.body):
            for c in n.body:
                for f in [c] if isinstance(c, ast.FunctionDef) else [x for x in getattr(c, "body", []) if isinstance(x, ast.FunctionDef)]:
                    i = 1 if isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant) else 0
                    f.body[i:i] = ast.parse("LOG.debug('%s called')" % f.name).body
        return n


ALL = {c.__name__: c for c in (InvertIf, ReturnTemp, CompLoop, Format, Percent, NestAnd, MergeIf, InOr, PlainAssign, AugAssign, Guard, Unguard, Ternary, ToTernary, Flip, NotCompare, Enumerate, Unpack, Me, HoistArgs, HoistTest, WhileTrue, Rename, Wrap, Reverse, Keywords, Annotate, Noise, TryReraise, DictCall, GetNone, WithTwo, LockTry, IfReturnBool, ExtractTail, ExtractTailM, ExtractValue, ExtractValueM, ExtractBlock, ExtractBlockM, Walrus, IsOr, DictBuild, ItemsLoop, OpenTry, FromImport, SuperArgs, AnyLoop, ConstHoist, Chain, StaticOut, PropCall, SwapAssign, CondExprLog)}


def build(tname, root):
    shutil.rmtree(root, ignore_errors=True)
    shutil.copytree("/repo/src", root + "/src", ignore=shutil.ignore_patterns("__pycache__"))
    n = 0
    for d, _, fs in os.walk(root):
        for f in fs:
            if f.endswith(".py") and "sphinxext" not in d and f != "testing.py":
                p = os.path.join(d, f)
                src = open(p).read()
                tree = ast.parse(src)
                before = ast.dump(tree)
                tree = ALL[tname]().visit(tree)
                n += ast.dump(tree) != before
                ast.fix_missing_locations(tree)
                out = ast.unparse(tree)
                compile(out, p, "exec")
                open(p, "w").write(out + "\n")
    return n


def main(argv):
    props = [c["property"] for c in json.load(open(VERIF + "/MANIFEST.json"))["checks"]]
    if "-p" in argv:
        i = argv.index("-p")
        props = argv[i + 1:]
        argv = argv[:i]
    jobs = []
    for t in argv or ALL:
        root = "/tmp/sa_transforms/" + t
        n = build(t, root)
        if "-b" in argv:
            continue
        jobs += [(t, root, p) for p in props]

    def one(j):
        t, root, p = j
        t0 = time.time()
        try:
            r = subprocess.run([sys.executable, "-m", "sa.run", p], cwd=VERIF, capture_output=True, text=True, timeout=900, env={**os.environ, "SA_REPO": root, "SA_EVIDENCE": root + "/ev"})
            return t, p, r.returncode, (r.stdout + r.stderr), time.time() - t0
        except subprocess.TimeoutExpired:
            return t, p, 99, "too slow", 900

    bad = 0
    with ThreadPoolExecutor(int(os.environ.get("JOBS", "7"))) as ex:
        for t, p, rc, out, dt in ex.map(one, jobs):
            if rc or dt > 150:
                bad += 1
                print(t, p, rc, "%.0fs" % dt, " | ".join(x for x in out.splitlines() if "rule:" not in x)[-260:], flush=True)
    print(len(jobs), "runs", bad, "not quiet")


if __name__ == "__main__":
    main(sys.argv[1:])
