"""Finding weights: the inventory, its index and its copies, and applying the weights: P01..P05, B01."""

import ast
import os
import re

from ..core import *  # noqa
from ..values import *  # noqa
from ..values import C, EXC, EXT, FALSE, H, NONE, REF, SYM, T, TRUE, TUP, V
from . import prop
from .diskcache import OPQ, drive, injected

KINDS = {"call", "raise", "acquire", "release", "ctxenter", "ctxexit", "setattr", "setitem", "mut", "delitem", "branch", "download", "mark"}
NET = ("requests", "urllib", "multiurl", "download_and_cache", "cache_file", "simple_download", "http.client", "socket.")


def interest(ev, st, fr):
    return ev.kind in KINDS


def nobranch(ev, st, fr):
    return ev.kind in KINDS and ev.kind != "branch"


def named(f, args, kw):
    """Arguments of a call by parameter name (args include the object itself)."""
    a = f.a[0].node.args
    names = [x.arg for x in a.posonlyargs + a.args]
    out = dict(zip(names, args))
    if len(args) > len(names):
        out["*"] = TUP(tuple(args[len(names):]))
    out.update(kw)
    for n, d in zip(reversed(names), reversed(a.defaults)):
        if n not in out and isinstance(d, ast.Constant):
            out[n] = C(d.value)
    for n, d in zip(a.kwonlyargs, a.kw_defaults):
        if n.arg not in out and isinstance(d, ast.Constant):
            out[n.arg] = C(d.value)
    return out


def gs_opaque(e, st, f, args, kw, fr, node):
    """A grid description of the caller, whatever it is: the same description gives the same grid."""
    x = list(named(f, args, kw).values())[-1]
    x = e.snap(st, x)
    return [(st, x if x.k == "t" and x.a[0] == "gs" else T("gs", x))]


GS = {"gridspec.GridSpec.from_dict": gs_opaque}


def known(a, st):
    """Weights, and entries of an inventory, that were found are not None."""
    if a.k == "t" and a.a[0] == "is" and NONE in a.a[1:] and any(x.k == "t" and x.a[0] in ("Z", "SH", "entry") for x in a.a[1:]):
        return False
    return None


def parts(v):
    """The parts of a path, one join after the other."""
    if v.k == "t" and v.a[0] == "os.path.join":
        return [y for x in v.a[1:] for y in parts(x)]
    if is_c(v, str):
        return [C(x) for x in cval(v).split("/")]
    return [v]


def go(rep, e, src, names, syms=None, opaque=None, **kw):
    st, fn = drive(e, src, **{n: e.lookup(q) for n, q in names.items()}, **(syms or {}))
    for k in kw.pop("put", {}).items():
        st.put(*k)
    kw.setdefault("interest", nobranch)
    kw.setdefault("assume", known)
    return rep.count(e.explore(fn, [], st=st, opaque={**OPQ, **(opaque or {})}, **kw))


def entry_name(o, v):
    """Name of the index entry a value is."""
    h = o.state.obj(v)
    if h is not None and h.kind == "dict":
        for it in h.items:
            if it[0] == "k" and it[1] == C("_name") and it[2].k == "c":
                return cval(it[2])
    return None


@prop("P01")
def p01(rep):
    rep.rule("match", "an entry is chosen only if its method, its source grid and its target grid are the ones asked for, each compared with its own counterpart")
    rep.rule("complete", "no weights are reported only if every entry of the inventory differs from the request in one of the three")
    rep.rule("alias", "the spellings of the nearest neighbour method select the same weights, and no other spelling changes the method")
    rep.rule("kept", "the search goes through the whole inventory of this database and returns what it found")
    rep.rule("file", "the weights loaded are those of the file the chosen entry names")
    e = rep.engine()
    src = "def main():\n    i = MatrixIndex()\n    i['a'] = {'input': ia, 'output': oa, 'interpolation': {'method': ma, 'engine': 'e', 'version': '1'}, '_name': 'a'}\n    i['b'] = {'input': ib, 'output': ob, 'interpolation': {'method': {'type': mb}, 'engine': 'e', 'version': '1'}, '_name': 'b'}\n    return i.find(gi, go, m)\n"
    syms = {k: SYM(k) for k in ("ia", "oa", "ib", "ob", "gi", "go")}
    syms.update({k: SYM(k, "str") for k in ("ma", "mb", "m")})
    want = {"a": (("i", "ia", "gi"), ("o", "oa", "go"), ("m", "ma", "m")), "b": (("i", "ib", "gi"), ("o", "ob", "go"), ("m", "mb", "m"))}
    label = {"i": "source grid", "o": "target grid", "m": "method"}
    got = set()
    for o in go(rep, e, src, {"MatrixIndex": "backends.db:MatrixIndex"}, syms, GS, interest=interest):
        if o.kind != "return":
            rep.ob("match", "search", False, "searching the inventory raises %s" % exc_name(o.value), last_site(o))
            continue
        n = entry_name(o, o.value)
        facts = [(a, v) for a, v in o.state.facts.items() if a.k == "t" and a.a[0] == "eq"]
        for a, v in facts:
            s = {x.a[0] for y in a.a[1:] for x in walk(y) if x.k == "sym"}
            rep.ob("match", "counterparts", any(s == {y, z} for w in want.values() for _, y, z in w) or not s & {"ia", "oa", "ib", "ob"}, "compares %s" % " with ".join(sorted(s)), last_site(o))
        if n is not None:
            got.add(n)
            for k, y, z in want[n]:
                ok = any(v is True and {x.a[0] for q in a.a[1:] for x in walk(q) if x.k == "sym"} == {y, z} for a, v in facts)
                rep.ob("match", "%s: %s" % (n, label[k]), ok, "an entry is chosen whose %s need not be the one asked for" % label[k], last_site(o))
        elif o.value == NONE:
            for w, cs in want.items():
                ok = any(v is False and any({x.a[0] for q in a.a[1:] for x in walk(q) if x.k == "sym"} == {y, z} for _, y, z in cs) for a, v in facts)
                grid = any(v and a == T("is", T("gs", SYM(g)), NONE) for a, v in o.state.facts.items() for g in ("gi", "go"))
                rep.ob("complete", w, ok or grid, "an entry is passed over although it may be the one asked for", last_site(o))
            got.add(None)
        else:
            rep.ob("kept", "search", False, "returns %s" % show(o.value), last_site(o))
    rep.ob("complete", "entries of either kind", got == {"a", "b", None}, "only %s can be found" % sorted(map(str, got)))
    # the database's search
    base = "def main():\n    i = MatrixIndex()\n    i['a'] = {'input': ia, 'output': oa, 'interpolation': {'method': 'nearest-neighbour'}, '_name': 'a'}\n    i['b'] = {'input': ia, 'output': oa, 'interpolation': {'method': 'linear'}, '_name': 'b'}\n    i['c'] = {'input': ia, 'output': oa, 'interpolation': {'method': 'grid-box-average'}, '_name': 'c'}\n    d = MatrixDb(LocalAccessor('p'))\n    d._index = i\n    return d.find_entry(gi, go, %r)\n"
    for m, n in (("nearest-neighbour", "a"), ("nn", "a"), ("nearest-neighbor", "a"), ("linear", "b"), ("grid-box-average", "c"), ("n", None), ("lin", None), ("nearest", None), ("nearest-neighbor-lsm", None), ("nearest-neighbour-lsm", None), ("nnx", None), ("xnn", None), ("my-nearest-neighbor", None), ("linear-x", None), ("", None), ("grid-box", None), ("NN", None), ("Linear", None), ("nearest-neighbour ", None)):
        outs = go(rep, e, base % m, {"MatrixIndex": "backends.db:MatrixIndex", "MatrixDb": "backends.db:MatrixDb", "LocalAccessor": "backends.db:LocalAccessor"}, syms, GS, interest=interest)
        found = {entry_name(o, o.value) if o.value.k == "ref" else None for o in outs if o.kind == "return"}
        bad = [o for o in outs if o.kind != "return"]
        rep.ob("alias", m, not bad and found == {n, None}, "method %r finds the weights of %s" % (m, sorted(map(str, found - {None})) or "nothing"), last_site(outs[0]) if outs else None)
    spell = {"a": {"nearest-neighbour", "nn", "nearest-neighbor"}, "b": {"linear"}, "c": {"grid-box-average"}}
    for o in go(rep, e, base.replace("%r", "m"), {"MatrixIndex": "backends.db:MatrixIndex", "MatrixDb": "backends.db:MatrixDb", "LocalAccessor": "backends.db:LocalAccessor"}, syms, GS, interest=interest):
        n = entry_name(o, o.value) if o.kind == "return" and o.value.k == "ref" else None
        if n is None:
            continue
        is_ = set()
        for a, v in o.state.facts.items():
            if v is True and a.k == "t" and a.a[0] in ("eq", "in") and syms["m"] in a.a[1:]:
                is_ |= {cval(x) for y in a.a[1:] for x in walk(y) if is_c(x, str)}
        rep.ob("alias", "any method", bool(is_) and is_ <= spell[n], "the weights of entry %s are used for %s" % (n, sorted(is_) or "methods of another name"), last_site(o))
    # what is found is what is returned and loaded
    db = {"MatrixDb": "backends.db:MatrixDb", "LocalAccessor": "backends.db:LocalAccessor", "UrlAccessor": "backends.db:UrlAccessor"}

    def memget(e, st, f, args, kw, fr, node):
        d = named(f, args, kw)
        rest = d.pop("*", TUP(())).a
        for k, v in zip(("gridspec_in", "gridspec_out", "method"), rest):
            d.setdefault(k, v)
        return [(st, T("memory", *[V("kw", k, e.snap(st, v)) for k, v in sorted(d.items()) if k != "self"]))]

    nogrid = 0
    outs = go(rep, e, "def main():\n    return MatrixDb(LocalAccessor(p)).find(gi, go, m)\n", db, dict(syms, p=SYM("p", "str")), {**GS, "utils.memcache.MemoryCache.get": memget}, interest=interest)
    for o in outs:
        if o.kind == "return" and o.value.k == "t" and o.value.a[0] == "memory":
            k = {x.a[0]: x.a[1] for x in o.value.a[1:]}
            for name, s in (("gridspec_in", "gi"), ("gridspec_out", "go")):
                rep.ob("kept", name, name in k and has_sym(k[name], s) and not (has_sym(k[name], "gi") and has_sym(k[name], "go")), "weights are asked for with %s as %s" % (show(k.get(name, NONE), 3), name), last_site(o))
            rep.ob("kept", "method", k.get("method") == SYM("m", "str"), "weights are asked for with another method", last_site(o))
        elif o.kind == "return":
            nogrid += 1
            rep.ob("kept", "no grid", any(v and a.k == "t" and a.a[0] == "is" and NONE in a.a[1:] for a, v in o.state.facts.items()), "returns %s without looking" % show(o.value), last_site(o))
        else:
            rep.ob("kept", "find", False, "raises %s" % exc_name(o.value), last_site(o))
    # both ways of making the weights, with and without the cache, look for the same ones
    def ways(e, st, f, args, kw, fr, node):
        d = named(f, args, kw)
        rest = list(d.pop("*", TUP(())).a) or [d.get(k, NONE) for k in ("gridspec_in", "gridspec_out", "method")]
        out = []
        for s, r in e.call(d["create"], rest, {}, st, fr, node):
            for s2, en in e.call(d["find_entry"], rest, {}, s, fr, node):
                out += [(s3, TUP((r, r2))) for s3, r2 in e.call(d["create_from_entry"], [en], {}, s2, fr, node)]
        return out

    def hit(e, st, f, args, kw, fr, node):
        d = named(f, args, kw)
        k = [e.snap(st, d.get(x, NONE)) for x in ("gridspec_in", "gridspec_out", "method")]
        mk = lambda **x: e.new(st, H("dict", None, {}, tuple(("k", C(a), b) for a, b in x.items())), node, fr)  # noqa: E731
        return [(st, mk(_name=T("name", *k), interpolation=mk(method=C("x"), engine=C("e"), version=C("1")), output=mk(shape=T("shape", k[1]))))]

    n = 0
    for m, w in (("'nn'", "nearest-neighbour"), ("'linear'", "linear"), ("'nearest-neighbor'", "nearest-neighbour")):
        for o in go(rep, e, "def main():\n    return MatrixDb(LocalAccessor(p)).find(gi, go, %s)\n" % m, db, dict(syms, p=SYM("p", "str")), {**GS, **NOLOAD, "utils.memcache.MemoryCache.get": ways, "backends.db.MatrixIndex.find": hit}, models={"scipy.sparse.load_npz": lambda e, st, recv, args, kw, fr, node: [(st, T("npz", e.snap(st, args[0])))]}):
            if o.kind == "return" and o.value.k == "tup" and all(x.k == "tup" for x in o.value.a):
                n += 1
                a, b = o.value.a
                rep.ob("kept", "with and without the cache, method " + m, a == b and any(x == C(w) for x in walk(a)) and has_sym(a, "gi") and has_sym(a, "go"), "other weights are used without the cache: %s and %s" % (show(a, 6), show(b, 6)), last_site(o))
    rep.ob("kept", "with and without the cache", n >= 3, "no weights are found")
    # loading an entry
    src = "def main():\n    d = MatrixDb(LocalAccessor(p))\n    en = {'input': ia, 'output': {'shape': sh}, 'interpolation': {'method': m, 'engine': en1, 'version': ve1}, '_name': nm}\n    d._index = {'k': en}\n    d._index = MatrixIndex(d._index)\n    return d._create_matrix_from_entry(en)\n"
    syms.update(p=SYM("p", "str"), sh=SYM("sh"), nm=SYM("nm", "str"), en1=SYM("en1", "str"), ve1=SYM("ve1", "str"))
    outs = go(rep, e, src, {**db, "MatrixIndex": "backends.db:MatrixIndex"}, syms, GS)
    n = 0
    for o in outs:
        if o.kind != "return" or o.value.k != "tup":
            rep.ob("file", "load", False, "loading the weights of an entry gives %s" % show(o.value, 3), last_site(o))
            continue
        n += 1
        z, sh = o.value.a
        ld = [x for x in walk(z) if x.k == "t" and "load_npz" in str(x.a[0])]
        rep.ob("file", "shape", sh == SYM("sh"), "the shape is %s" % show(sh, 3), last_site(o))
        for s in ("p", "nm", "m", "en1", "ve1"):
            rep.ob("file", "path: " + s, bool(ld) and has_sym(ld[0], s), "the file loaded does not depend on the entry's %s" % {"p": "inventory", "nm": "name", "m": "method", "en1": "engine", "ve1": "version"}[s], last_site(o))
        rep.ob("file", "weights", bool(ld) and z == ld[0], "the weights are changed after loading: %s" % show(z, 3), last_site(o))
    rep.ob("file", "loaded", n > 0, "the weights of an entry cannot be loaded")


APPLY = ("bin:MatMult", ".dot", ".reshape", ".ravel", ".flatten", "numpy.reshape", "numpy.ravel", "numpy.dot", "numpy.matmul", ".astype", "numpy.asarray", "numpy.array", ".copy", "kw", "Z", "SH", "tuple", "list")


@prop("P02")
def p02(rep):
    rep.rule("product", "the result is the product of the weights found and all the values, flattened, and nothing else")
    rep.rule("shape", "the result has the shape the inventory gives for the target grid")
    rep.rule("request", "the weights are looked up with the caller's source grid, target grid and method, each in its own place")
    rep.rule("missing", "without weights ValueError is raised, naming the request")
    rep.rule("grid", "the grid returned is the one asked for")
    e = rep.engine()
    args = []

    def find(e, st, f, a, kw, fr, node):
        d = named(f, a, kw)
        t = [e.snap(st, d.get(k, NONE)) for k in ("gridspec_in", "gridspec_out", "method")]
        args.append((t, e.site(fr, node)))
        none = st.fork()
        none.facts[T("found")] = False
        st.facts[T("found")] = True
        return [(st, TUP((T("Z", *t), T("SH", *t)))), (none, TUP((NONE, NONE)))]

    syms = {k: SYM(k) for k in ("v", "gi", "go", "m")}
    for call, what in (("regrid(v, gi, go, interpolation=m)", "regrid"), ("interpolate(v, gi, go, m)", "interpolate")):
        outs = go(rep, e, "def main():\n    return MatrixBackend(None).%s\n" % call, {"MatrixBackend": "backends.precomputed:MatrixBackend"}, syms, {"backends.db.MatrixDb.find": find}, interest=interest)
        n = 0
        for o in outs:
            if o.state.facts.get(T("found")) is False:
                rep.ob("missing", what, o.kind == "raise" and is_exc(o.value, "ValueError"), "without weights %s" % ("raises " + exc_name(o.value) if o.kind == "raise" else "returns " + show(o.value)), last_site(o))
                if o.kind == "raise":
                    rep.ob("missing", what + " named", all(has_sym(o.value, s) for s in ("gi", "go", "m")), "the message does not name the request", last_site(o))
                continue
            if o.kind != "return":
                rep.ob("product", what, False, "raises %s although there are weights" % exc_name(o.value), last_site(o))
                continue
            n += 1
            r = o.value
            if what == "regrid":
                rep.ob("grid", what, r.k == "tup" and len(r.a) == 2 and r.a[1] == SYM("go"), "the grid returned is %s" % show(r.a[1] if r.k == "tup" and len(r.a) == 2 else r, 3), last_site(o))
                r = r.a[0] if r.k == "tup" else r
            ops = [x for x in walk(r) if x.k == "t"]
            odd = [x.a[0] for x in ops if x.a[0] not in APPLY]
            mm = [x for x in ops if x.a[0] in ("bin:MatMult", ".dot", "numpy.dot", "numpy.matmul")]
            ok = len(mm) == 1 and has_sym(mm[0].a[2], "v") and any(x.k == "t" and x.a[0] == "Z" for x in walk(mm[0].a[1])) and not any(x.k == "t" and x.a[0] == "Z" for x in walk(mm[0].a[2])) and not has_sym(mm[0].a[1], "v")
            rep.ob("product", what, ok and not odd, "the result is %s" % show(r, 6), last_site(o))
            if ok:
                w = mm[0].a[1]
                rep.ob("product", what + " weights", w.k == "t" and w.a[0] == "Z", "the weights are changed: %s" % show(w, 4), last_site(o))
                fl = mm[0].a[2]
                flat = fl.k == "t" and (fl.a[0] in (".ravel", ".flatten", "numpy.ravel") or fl.a[0] in (".reshape", "numpy.reshape") and C(-1) in [y for x in fl.a[1:] for y in walk(x)])
                order = [x.a[1] for x in walk(r) if x.k == "kw" and x.a[0] == "order"] + [y for x in ops if x.a[0] in (".ravel", ".flatten", "numpy.ravel") for y in x.a[2:] if is_c(y, str) and len(cval(y)) == 1]
                rep.ob("product", what + " all values", flat and all(x == C("C") for x in order), "the values are not all taken in order: %s" % show(fl, 4), last_site(o))
                shp = [x for x in ops if x.a[0] in (".reshape", "numpy.reshape") and contains(x, mm[0])]
                rep.ob("shape", what, len(shp) >= 1 and r in shp and any(x.k == "t" and x.a[0] == "SH" for y in r.a[1:] if isinstance(y, V) and not contains(y, mm[0]) for x in walk(y)), "the result is not given the target's shape: %s" % show(r, 4), last_site(o))
        rep.ob("product", what + " reached", n > 0, "no path gives a result")
    for t, site in args:
        rep.ob("request", "lookup", t == [SYM("gi"), SYM("go"), SYM("m")], "looks up %s" % ", ".join(show(x, 3) for x in t), site)
    rep.need(args, "the weights are never looked up")


def json_model(version, broken=()):
    """json.load gives an inventory's list with three entries."""

    def load(e, st, recv, args, kw, fr, node):
        d = lambda **k: e.new(st, H("dict", None, {}, tuple(("k", C(a), b) for a, b in k.items())), node, fr)  # noqa: E731
        ent = []
        for n in ("n1", "n2", "n3"):
            ent.append(("k", C(n), d(input=SYM(n + ".in"), output=SYM(n + ".out"), interpolation=SYM(n + ".method"), nnz=SYM(n + ".nnz"))))
        it = [("k", C("matrix"), e.new(st, H("dict", None, {}, tuple(ent)), node, fr))]
        if version is not None:
            it.append(("k", C("version"), version))
        e.emit(st, "call", fr, node, name="json.load", f=NONE, recv=None, args=[], kwargs={}, result=NONE)
        return [(st, e.new(st, H("dict", None, {}, tuple(it)), node, fr))]

    return {"json.load": load, "json.loads": load}


def made(e, st, x, node, fr):
    """A plain structure as objects of the program."""
    if isinstance(x, dict):
        return e.new(st, H("dict", None, {}, tuple(("k", C(k), made(e, st, v, node, fr)) for k, v in x.items())), node, fr)
    if isinstance(x, list):
        return e.new(st, H("list", None, {}, tuple(made(e, st, v, node, fr) for v in x)), node, fr)
    return x if isinstance(x, V) else C(x)


def json_text(x):
    """json.load gives this plain structure."""

    def load(e, st, recv, args, kw, fr, node):
        return [(st, made(e, st, x, node, fr))]

    return {"json.load": load, "json.loads": load}


# descriptions of grids of other releases
STRANGE = [
    {"grid": "unstructured"}, {"mesh": "icon"}, {}, {"grid": None}, {"grid": 5}, {"grid": []}, {"grid": [1]}, {"grid": {"dx": 1}}, {"type": "icon", "grid": [1, 1]}, {"type": None, "grid": "ICON"}, {"grid": [1, 1, 1]}, {"type": "sh", "truncation": 63},
]


@prop("P03")
def p03(rep):
    rep.rule("version", "an inventory's list of a version this release does not know is refused with ValueError and adds nothing")
    rep.rule("tolerant", "an entry with a grid of an unknown kind is left out and all the others are kept, wherever it stands in the list")
    rep.rule("faithful", "an entry keeps its own name and grids, and everything the inventory says about it")
    rep.rule("atomic", "when loading fails, for whatever reason, the database is as before and the error reaches the caller")
    rep.rule("lazy", "the list is loaded once and used until it is refreshed")
    e = rep.engine()
    names = {"MatrixIndex": "backends.db:MatrixIndex", "MatrixDb": "backends.db:MatrixDb", "LocalAccessor": "backends.db:LocalAccessor", "UrlAccessor": "backends.db:UrlAccessor"}
    cur = e.lookup("backends.db:VERSION")
    rep.need(cur is not None and cur.k == "c", "the known version is gone")

    def picky(bad):
        def fd(e, st, f, args, kw, fr, node):
            x = e.snap(st, list(named(f, args, kw).values())[-1])
            if x in bad:
                e.raise_(st, EXC(EXT("builtins.ValueError"), C("unknown grid")), fr, node)
                return []
            return [(st, T("gs", x))]

        return {"gridspec.GridSpec.from_dict": fd}

    src = "def main():\n    i = MatrixIndex()\n    i.load(p)\n    return i\n"
    for nm, ver in (("any", SYM("version")), ("missing", None), ("other", C(cval(cur) + 1)), ("text", C(str(cval(cur)))), ("known", cur)):
        n = 0
        for o in go(rep, e, src, names, {"p": SYM("p", "str")}, picky(()), models=json_model(ver), interest=interest):
            if o.kind == "return":
                n += 1
                known = ver == cur or any(v is True and a.k == "t" and a.a[0] == "eq" and SYM("version") in a.a[1:] and cur in a.a[1:] for a, v in o.state.facts.items())
                rep.ob("version", nm, known, "a list of another version is accepted", last_site(o))
            else:
                rep.ob("version", nm + " refused", is_exc(o.value, "ValueError") and ver != cur, "raises %s" % exc_name(o.value), last_site(o))
        if ver == cur:
            rep.ob("version", nm, n > 0, "the known version is refused")
    for bad in ((), ("n1.in",), ("n2.in",), ("n2.out",), ("n3.out",), ("n1.in", "n3.in")):
        outs = go(rep, e, src, names, {"p": SYM("p", "str")}, picky([SYM(x) for x in bad]), models=json_model(cur))
        sub = "unknown: %s" % (", ".join(bad) or "none")
        ok = [o for o in outs if o.kind == "return"]
        rep.ob("tolerant", sub, len(ok) == len(outs) and bool(ok), "loading fails", last_site(outs[0]) if outs else None)
        for o in ok:
            h = o.state.obj(o.value)
            items = {cval(it[1]): it[2] for it in h.items if it[0] == "k" and it[1].k == "c"}
            good = [n for n in ("n1", "n2", "n3") if n + ".in" not in bad and n + ".out" not in bad]
            rep.ob("tolerant", sub + " kept", sorted(items) == good, "keeps %s of %s" % (sorted(items), good), last_site(o))
            for n in good:
                d = o.state.obj(items.get(n)) if n in items else None
                if d is None:
                    continue
                f = {cval(it[1]): it[2] for it in d.items if it[0] == "k" and it[1].k == "c"}
                rep.ob("faithful", "grids", f.get("input") == T("gs", SYM(n + ".in")) and f.get("output") == T("gs", SYM(n + ".out")), "an entry gets other grids", last_site(o))
                rep.ob("faithful", "name", f.get("_name") == C(n), "an entry gets another name", last_site(o))
                rep.ob("faithful", "rest", f.get("interpolation") == SYM(n + ".method") and f.get("nnz") == SYM(n + ".nnz"), "an entry loses what the inventory says about it", last_site(o))
    # entries of other releases, read by the real thing
    from .utils import folded, no_raise

    entry = lambda **k: {"input": {"grid": [1, 1]}, "output": {"grid": "O32"}, "interpolation": {"method": "linear"}, **k}  # noqa: E731
    for x in STRANGE:
        for side in ("input", "output"):
            doc = {"version": cur, "matrix": {"n1": entry(), "odd": entry(**{side: x}), "n3": entry()}}
            outs = go(rep, e, "def main():\n    i = MatrixIndex()\n    i.load(p)\n    return list(i)\n", names, {"p": SYM("p", "str")}, {"gridspec.GridSpec.from_dict": lambda *a: None}, models=json_text(doc), may_raise=no_raise, assume=folded)
            for o in outs:
                got = [cval(y) for y in o.state.obj(o.value).items if isinstance(y, V) and y.k == "c"] if o.kind == "return" and o.state.obj(o.value) is not None else None
                rep.ob("tolerant", "%s of another kind" % side, got == ["n1", "n3"], "with %s as a grid %s" % (x, "the list gives %s" % got if got is not None else "loading fails: %s" % show(o.value, 3)), last_site(o))
            rep.need(outs, "loading a list has no outcome")
    # failures
    src = "def main():\n    d = MatrixDb(LocalAccessor(p))\n    d._index = old\n    box.d = d\n    d._load_index()\n    return d\n"

    def mk(what):
        def mr(name, fr, node):
            if name and name.startswith(what):
                return [EXC(EXT("builtins.OSError"), C("!injected"))]

        return mr

    for old in ("None", "old"):
        for what in ("builtins.open", "json.load", ".read", "version"):
            ver = C(cval(cur) + 1) if what == "version" else cur
            s2 = src.replace("= old", "= " + old).replace("    box.d = d\n", "").replace("    d._load_index()\n", "    try:\n        d._load_index()\n    except Exception:\n        return (d, 'failed')\n")
            for o in go(rep, e, s2, names, {"p": SYM("p", "str"), "old": SYM("old", "obj")}, picky(()), models={} if what in ("json.load",) else json_model(ver), may_raise=mk(what), interest=interest):
                if o.kind == "return" and o.value.k == "tup":
                    h = o.state.obj(o.value.a[0])
                    keep = h.f.get("_index")
                    rep.ob("atomic", "%s fails, %s before" % (what, "an index" if old == "old" else "none"), keep == (NONE if old == "None" else SYM("old", "obj")), "after a failure the database has %s" % show(keep), last_site(o))
                elif o.kind == "return":
                    swallowed = any(ev.kind == "raise" for ev in o.events)
                    rep.ob("atomic", "%s noticed" % what, not swallowed, "the failure is swallowed", last_site(o))
    # used until refreshed
    cnt = []

    def load(e, st, f, args, kw, fr, node):
        e.emit(st, "call", fr, node, name="load", f=NONE, recv=None, args=[], kwargs={}, result=NONE)
        return [(st, NONE)]

    for o in go(rep, e, "def main():\n    d = MatrixDb(LocalAccessor(p))\n    a = d.index\n    b = d.index\n    return (a, b)\n", names, {"p": SYM("p", "str")}, {"backends.db.MatrixIndex.load": load}):
        if o.kind != "return":
            rep.ob("lazy", "index", False, "cannot be loaded", last_site(o))
            continue
        cnt.append(o)
        ld = [ev for ev in o.events if ev.kind == "call" and ev.name == "load"]
        rep.ob("lazy", "index", len(ld) == 1 and o.value.a[0] == o.value.a[1], "the list is loaded %d times" % len(ld), last_site(o))
    rep.need(cnt, "the index is never loaded")


def remote_opaque(managed, owner="sum"):
    """The disk cache: managed, a cached file is reused unless it has to be made again; otherwise every file is made.
    The cached file comes with its checksum, or with other data, or none."""

    def cf(e, st, f, args, kw, fr, node):
        d = named(f, args, kw)
        ar, force, create = d.get("args", NONE), d.get("force", NONE), d.get("create")
        path = T("cached", e.snap(st, ar))
        e.emit(st, "download", fr, node, name="cache_file", args=[e.snap(st, ar)])
        out = []
        todo = []
        if not managed:
            todo = [st]
        elif force == NONE or force == FALSE:
            out.append((st, path))
        elif force == TRUE:
            todo = [st]
        else:
            items = {"sum": (("k", C("sha256"), SYM("localsha", "str")),), "other": (("k", C("x"), C(1)),)}
            own = NONE if owner == "none" else e.new(st, H("dict", None, {}, items[owner]), node, fr)
            for s, r in e.call(force, [ar, path, own], {}, st, fr, node):
                yes, no = e.branch(r, s, fr, node)
                todo += yes
                out += [(x, path) for x in no]
        for s in todo:
            for s2, r in e.call(create, [T("tmp", path), ar], {}, s, fr, node):
                e.emit(s2, "download", fr, node, name="made", args=[e.snap(s2, r)])
                out.append((s2, path))
        return out

    def dl(e, st, f, args, kw, fr, node):
        d = named(f, args, kw)
        e.emit(st, "download", fr, node, name="download", args=[e.snap(st, d.get("url", NONE))], opts={k: v for k, v in d.items()})
        return [(st, T("file", e.snap(st, d.get("url", NONE))))]

    return {"utils.caching.cache_file": cf, "utils.download.download_and_cache": dl}


NOLOAD = {"backends.db.MatrixIndex.load": lambda e, st, f, args, kw, fr, node: [(st, NONE)]}


def mark(e, st, recv, args, kw, fr, node):
    e.emit(st, "mark", fr, node, name="mark", args=[])
    return [(st, NONE)]


def net(events):
    return [ev for ev in events if ev.kind == "download" and ev.name == "download" or ev.kind == "call" and any(w in str(ev.name) for w in NET)]


@prop("P04")
def p04(rep):
    rep.rule("local", "a local inventory never touches the network or the disk cache, not even for weights it does not have")
    rep.rule("found", "weights the known list has are found without asking the remote inventory again")
    rep.rule("refresh", "when a remote inventory lacks the weights asked for, its list is compared with the remote one and, if that changed, replaced and searched again")
    rep.rule("once", "a remote inventory is only asked once: further requests for weights it does not have are answered without the network")
    rep.rule("choice", "the inventory asked is the one the caller named")
    rep.rule("whole", "the list is downloaded whole, its checksum is that of its contents, and kept with it")
    e = rep.engine()
    names = {"MatrixDb": "backends.db:MatrixDb", "MatrixIndex": "backends.db:MatrixIndex", "LocalAccessor": "backends.db:LocalAccessor", "UrlAccessor": "backends.db:UrlAccessor"}
    syms = {k: SYM(k) for k in ("gi", "go", "ia", "oa")}
    syms.update({k: SYM(k, "str") for k in ("m", "p", "u", "nm")})

    def load(e, st, f, args, kw, fr, node):
        d = named(f, args, kw)
        e.emit(st, "call", fr, node, name="load", f=NONE, recv=d.get("self"), args=[e.snap(st, d.get("path", NONE))], kwargs={}, result=NONE)
        h = st.obj(d["self"])
        st.put(d["self"].a[0], h.with_f("loaded", e.snap(st, d.get("path", NONE))))
        return [(st, NONE)]

    def find(hit):
        def fi(e, st, f, args, kw, fr, node):
            d = named(f, args, kw)
            h = st.obj(d["self"])
            gen = sum(1 for ev in st.ev if ev.kind == "call" and ev.name == "load")
            e.emit(st, "call", fr, node, name="search", f=NONE, recv=d["self"], args=[e.snap(st, d.get(k, NONE)) for k in ("gridspec_in", "gridspec_out", "method")], kwargs={}, result=NONE)
            if hit is None:
                return [(st, NONE)]
            if hit == "now" or gen >= 2 or (h is not None and hit == "later" and gen >= 1 and any(ev.kind == "mark" for ev in ())):
                return [(st, T("entry", C(gen)))]
            return [(st, NONE)]

        return {"backends.db.MatrixIndex.find": fi, "backends.db.MatrixIndex.load": load}

    # local: everything a lookup can do
    for what in ("d.find_entry(gi, go, m)", "d.find(gi, go, m)", "d.load_matrix({'interpolation': {'method': 'x', 'engine': 'e', 'version': '1'}, '_name': nm})", "d.index_file_path()", "d.matrix_source()", "len(d)"):
        for hit in (None, "now"):
            opq = {**GS, **find(hit), **remote_opaque(True)}
            outs = go(rep, e, "def main():\n    d = MatrixDb.from_path(p)\n    return %s\n" % what, names, syms, opq)
            bad = [ev for o in outs for ev in net(o.events) + [x for x in o.events if x.kind == "download"]]
            rep.ob("local", what.split("(")[0], not bad, "uses %s" % (bad[0].name if bad else ""), bad[0].site if bad else None)
    # remote, weights known
    for managed, owner in ((True, "sum"), (True, "other"), (True, "none"), (False, "sum")):
        tag = ("cache on" if managed else "cache off") + {"sum": "", "other": ", no checksum kept", "none": ", nothing kept"}[owner]
        for hit in ("now", "later", None):
            src = "def main():\n    d = MatrixDb.from_url(u)\n    d.index\n    mark()\n    r = d.find_entry(gi, go, m)\n    mark()\n    r2 = d.find_entry(gi, go, m)\n    return (r, r2, d.matrix_source(), d._index)\n"
            opq = {**GS, **find(hit), **remote_opaque(managed, owner)}
            outs = go(rep, e, src, names, {**syms, "mark": EXT("mark")}, opq, models={"mark": mark}, interest=interest)
            n = 0
            for o in outs:
                if o.kind != "return":
                    rep.ob("refresh", tag, False, "raises %s" % exc_name(o.value), last_site(o))
                    continue
                n += 1
                mk = [i for i, ev in enumerate(o.events) if ev.kind == "mark"]
                if len(mk) != 2:
                    continue
                first, second = o.events[mk[0]: mk[1]], o.events[mk[1]:]
                if hit == "now":
                    rep.ob("found", tag, not net(first) and not net(second), "asks the remote inventory although the weights are known", last_site(o))
                    continue
                asked = net(first)
                rep.ob("refresh", tag + " asks", bool(asked), "the remote inventory is not asked", last_site(o))
                urls = [ev.args[0] for ev in o.events if ev.kind == "download"]
                rep.ob("choice", "remote", all(any(has_sym(x, "u") for x in walk(y)) for y in urls), "another inventory is asked", last_site(o))
                same = [v for a, v in o.state.facts.items() if a.k == "t" and a.a[0] == "eq" and has_sym(a, "localsha")]
                loads = [ev for ev in first if ev.kind == "call" and ev.name == "load"]
                search = [ev for ev in first if ev.kind == "call" and ev.name == "search"]
                ss = [x for x in o.events if x.kind == "call" and x.name == "search"]
                for ev in ss:
                    rep.ob("found", "request", all(has_sym(ev.args[i], y) and not any(has_sym(ev.args[i], z) for z in ("gi", "go", "m") if z != y) for i, y in enumerate(("gi", "go"))) and ev.args[2] == ss[0].args[2], "searches for %s" % ", ".join(show(x, 3) for x in ev.args), ev.site)
                if managed and owner != "sum":
                    rep.ob("refresh", tag + " replaced", any(any(is_c(x, str) and cval(x).endswith(".gz") for x in walk(ev.args[0])) for ev in asked), "a list without a checksum is kept", last_site(o))
                elif managed:
                    if same:
                        fresh = [ev for ev in first if ev.kind == "download" and ev.name == "download" and any("gz" in str(x) for x in walk(ev.args[0])) or ev.kind == "download" and ev.name == "download" and any(is_c(x, str) and cval(x).endswith(".gz") for x in walk(ev.args[0]))]
                        rep.ob("refresh", "list changed: %s" % (not same[0]), bool(fresh) == (not same[0]), "the list is%s replaced" % ("" if fresh else " not"), last_site(o))
                    else:
                        rep.ob("refresh", "compares", False, "the remote list is not compared with the known one", last_site(o))
                rep.ob("refresh", tag + " reloads", bool(loads), "the refreshed list is not loaded", last_site(o))
                rep.ob("refresh", tag + " searches again", len(search) >= 2 and bool(loads) and first.index(search[-1]) > first.index(loads[-1]), "the refreshed list is not searched", last_site(o))
                if hit == "later":
                    rep.ob("refresh", tag + " finds", o.value.a[0].k == "t" and o.value.a[0].a[0] == "entry", "weights in the refreshed list are not found", last_site(o))
                else:
                    rep.ob("refresh", tag + " not found", o.value.a[0] == NONE, "returns %s" % show(o.value.a[0]), last_site(o))
                    rep.ob("once", tag, not net(second), "asks the remote inventory again", (net(second) or o.events)[-1].site)
            rep.need(n, "%s: no path answers" % tag)
    # each remote inventory is asked for its own news, whatever happened to another
    for managed, owner in ((True, "sum"), (False, "sum")):
        src = "def main():\n    a = MatrixDb.from_url(u)\n    b = MatrixDb.from_url(u2)\n    b.index\n    a.find_entry(gi, go, m)\n    mark()\n    return b.find_entry(gi, go, m)\n"
        opq = {**GS, **find(None), **remote_opaque(managed, owner)}
        n = 0
        for o in go(rep, e, src, names, {**syms, "u2": SYM("u2", "str"), "mark": EXT("mark")}, opq, models={"mark": mark}, interest=interest):
            mk = [i for i, ev in enumerate(o.events) if ev.kind == "mark"]
            if o.kind != "return" or len(mk) != 1:
                continue
            n += 1
            asked = net(o.events[mk[0]:])
            ok = bool(asked) and all(any(has_sym(x, "u2") for x in walk(y)) for ev in o.events[mk[0]:] if ev.kind == "download" for y in ev.args[:1])
            rep.ob("refresh", "two inventories, cache %s" % ("on" if managed else "off"), ok, "the second inventory is not asked after the first was", last_site(o))
        rep.need(n, "two inventories are never both searched")
    # what is downloaded
    outs = go(rep, e, "def main():\n    return UrlAccessor(u).index_path()\n", names, syms, remote_opaque(False))
    n = 0
    for o in outs:
        if o.kind != "return":
            continue
        dl = [ev for ev in o.events if ev.kind == "download" and ev.name == "download"]
        wr = [ev for ev in o.events if ev.kind == "call" and ev.name in (".write", "shutil.copyfileobj")]
        n += 1
        rep.ob("whole", "list", len(dl) >= 1 and any(is_c(x, str) and cval(x).endswith("index.json.gz") for x in walk(dl[0].args[0])), "the list is not downloaded", last_site(o))
        rep.ob("whole", "contents", any("file" in str(x.a[0]) for ev in wr for y in ev.args for x in walk(y) if x.k == "t") or any(any(x.k == "t" and x.a[0] == "file" for x in walk(y)) for ev in wr for y in ev.args), "the contents written are not the downloaded ones", last_site(o))
        for ev in [x for x in o.events if x.kind == "download" and x.name == "made"]:
            vs = [x for y in ev.args for x in walk(y)]
            rep.ob("whole", "checksum", any(is_c(x, str) and cval(x) == "sha256" for x in vs) and any(x.k == "t" and "read" in str(x.a[0]) for x in vs), "the checksum kept is not that of the contents: %s" % show(ev.args[0], 6), ev.site)
    rep.need(n, "the list of a remote inventory is never made")


@prop("P05")
def p05(rep):
    rep.rule("layout", "the file of an entry is found at the same place by everything that writes or reads an inventory")
    rep.rule("own", "the place of an entry's file depends on its engine, version, method and name")
    rep.rule("copy", "copying weights keeps their place below the new directory, never replaces a file unless told to, and a dry run writes nothing")
    rep.rule("subset", "a subset of an inventory has exactly the entries asked for, and a missing one is an error unless allowed")
    e = rep.engine()
    names = {"MatrixIndex": "backends.db:MatrixIndex", "MatrixDb": "backends.db:MatrixDb", "LocalAccessor": "backends.db:LocalAccessor", "UrlAccessor": "backends.db:UrlAccessor"}
    syms = {k: SYM(k, "str") for k in ("en", "ve", "me", "nm", "p", "u", "out")}
    for shape, m in (("name", "me"), ("options", "{'type': me, 'x': 1}")):
        ent = "{'interpolation': {'method': %s, 'engine': en, 'version': ve}, '_name': nm}" % m
        for where, acc in (("local", "MatrixDb.from_path(p)"), ("remote", "MatrixDb.from_url(u)")):
            src = "def main():\n    d = %s\n    d._index = MatrixIndex()\n    return d._matrix_fs_path(%s)\n" % (acc, ent)
            for o in go(rep, e, src, names, syms, {**remote_opaque(True), **NOLOAD}):
                sub = "%s, method as %s" % (where, shape)
                if o.kind != "return":
                    rep.ob("own", sub, False, "raises %s" % exc_name(o.value), last_site(o))
                    continue
                for s in ("en", "ve", "me", "nm", "p" if where == "local" else "u"):
                    rep.ob("own", "%s: %s" % (sub, s), has_sym(o.value, s), "the place does not depend on it", last_site(o))
                rep.ob("own", sub + " file", any(is_c(x, str) and cval(x).endswith(".npz") for x in walk(o.value)), "is not the file of the weights", last_site(o))
        # writer and reader agree on the directory
        for where, acc, root in (("local", "MatrixDb.from_path(p)", "p"), ("remote", "MatrixDb.from_url(u)", "u")):
            src = "def main():\n    d = %s\n    d._index = MatrixIndex()\n    i = %s\n    return (d._matrix_fs_path(i), MatrixIndex.matrix_path(i))\n" % (acc, ent)
            for o in go(rep, e, src, names, syms, {**remote_opaque(True), **NOLOAD}):
                if o.kind == "return" and o.value.k == "tup":
                    a, b = o.value.a
                    if where == "remote" and a.k == "t" and a.a[0] == "file":
                        a = a.a[1]
                    rep.ob("layout", "%s, method as %s" % (where, shape), parts(a) == [SYM(root, "str")] + parts(b), "the file is sought at %s" % show(a, 6), last_site(o))
        src = "def main():\n    i = %s\n    return (MatrixIndex.matrix_dir_name(i), MatrixIndex.matrix_path(i))\n" % ent
        for o in go(rep, e, src, names, syms, NOLOAD):
            if o.kind == "return" and o.value.k == "tup":
                d, p = o.value.a
                rep.ob("layout", "method as " + shape, contains(p, d) and p.k == "t" and p.a[0] == "os.path.join" and p.a[1] == d, "the file is not in the entry's directory", last_site(o))
    ent = "{'interpolation': {'method': me, 'engine': en, 'version': ve}, '_name': nm}"
    for ok in (True, False):
        for dry in (True, False):
            src = "def main():\n    d = MatrixDb.from_path(p)\n    d._index = MatrixIndex()\n    return d.copy_matrix_file(%s, out, exist_ok=%s, dry_run=%s)\n" % (ent, ok, dry)
            for o in go(rep, e, src, names, syms, NOLOAD, interest=interest):
                sub = "exist_ok=%s dry_run=%s" % (ok, dry)
                there = [v for a, v in o.state.facts.items() if a.k == "t" and a.a[0] == "truthy" and a.a[1].k == "t" and a.a[1].a[0] in ("os.path.exists", "os.path.isfile")]
                wr = [ev for ev in o.events if ev.kind == "call" and ev.name in ("shutil.copyfile", "shutil.copy", "shutil.copy2", "os.makedirs", "os.rename", "os.replace", "shutil.move")]
                cp = [ev for ev in wr if ev.name != "os.makedirs"]
                if dry:
                    rep.ob("copy", sub, not wr, "a dry run writes", wr[0].site if wr else last_site(o))
                elif not ok and True in there:
                    rep.ob("copy", sub + " there", o.kind == "raise" and is_exc(o.value, "FileExistsError") and not cp, "a file is replaced without leave", last_site(o))
                else:
                    rep.ob("copy", sub, o.kind == "return" and len(cp) == 1 and has_sym(cp[0].args[0], "p") and has_sym(cp[0].args[1], "out") and not has_sym(cp[0].args[0], "out"), "the weights are not copied", last_site(o))
                    if len(cp) == 1 and o.kind == "return":
                        rep.ob("copy", "place", o.value == cp[0].args[1] and parts(o.value) == [SYM("out", "str")] + parts(cp[0].args[0])[1:], "the copy lies elsewhere than said", last_site(o))
    # subsets
    def find(e, st, f, args, kw, fr, node):
        d = named(f, args, kw)
        k = [e.snap(st, d.get(x, NONE)) for x in ("gridspec_in", "gridspec_out", "method")]
        a, b = st.fork(), st
        a.facts[T("hit", *k)] = True
        b.facts[T("hit", *k)] = False
        ref = e.new(a, H("dict", None, {}, (("k", C("_name"), C("n:" + str(k[0].a[0]))), ("k", C("_raw"), T("raw", k[0])))), node, fr)
        e.emit(a, "call", fr, node, name="search", f=NONE, recv=None, args=k, kwargs={}, result=ref)
        e.emit(b, "call", fr, node, name="search", f=NONE, recv=None, args=k, kwargs={}, result=NONE)
        return [(a, ref), (b, NONE)]

    for fail in (True, False):
        src = "def main():\n    i = MatrixIndex()\n    return i.subset([{'input': g1, 'output': h1, 'method': m1}, {'input': g2, 'output': h2}], fail_on_missing=%s)\n" % fail
        s2 = {k: SYM(k) for k in ("g1", "h1", "g2", "h2", "m1")}
        for o in go(rep, e, src, names, s2, {"backends.db.MatrixIndex.find": find, **NOLOAD}, interest=interest):
            hits = {a.a[1].a[0]: v for a, v in o.state.facts.items() if a.k == "t" and a.a[0] == "hit"}
            ks = [a for a in o.state.facts if a.k == "t" and a.a[0] == "hit"]
            for a in ks:
                g = a.a[1].a[0]
                rep.ob("subset", "asks", a.a[2] == SYM("h" + g[1:]) and a.a[3] == (SYM("m1") if g == "g1" else C("linear")), "looks for something else: %s" % show(a, 3), last_site(o))
            if False in hits.values() and fail:
                rep.ob("subset", "missing", o.kind == "raise" and is_exc(o.value, "ValueError"), "a missing entry goes unnoticed", last_site(o))
            else:
                h = o.state.obj(o.value) if o.kind == "return" else None
                rep.ob("subset", "all asked for", sorted(hits) == ["g1", "g2"], "entries asked for are left out", last_site(o))
                got = sorted(cval(it[1]) for it in h.items) if h is not None else None
                rep.ob("subset", "exact", got == sorted("n:" + g for g, v in hits.items() if v), "has %s" % got, last_site(o))


@prop("B01")
def b01(rep):
    rep.rule("unknown", "a backend nobody registered is refused with ValueError")
    rep.rule("own", "requests that name different backends or inventories never share a backend; the same request may")
    rep.rule("inventory", "the inventory named by the caller is the one used: none or ecmwf the system one, a web address a remote one, anything else a local directory")
    rep.rule("registered", "every backend of the package is registered under its name, and one that cannot be loaded leaves the others usable")
    rep.rule("options", "what is asked of the backend's maker is passed to it")
    e = rep.engine()
    mk = e.lookup("backends:BackendMaker")
    rep.need(mk is not None and mk.k == "cls", "the maker of backends is gone")

    def builtins(e, st, f, args, kw, fr, node):
        return [(st, e.new(st, H("dict", None, {}, (("k", C("one"), EXT("Klass1")), ("k", C("two"), EXT("Klass2")))), node, fr))]

    opq = {"backends.BackendMaker._builtins": builtins}
    nm = {"BackendMaker": "backends:BackendMaker"}

    def klass(name):
        def make(e, st, recv, args, kw, fr, node):
            e.emit(st, "call", fr, node, name=name, f=NONE, recv=None, args=[e.snap(st, a) for a in args], kwargs={k: e.snap(st, v) for k, v in kw.items()}, result=NONE)
            return [(st, T("backend", C(name), C(sum(1 for ev in st.ev if ev.kind == "call" and "Klass" in str(ev.name)))))]

        return make

    made = {n: klass(n) for n in ("Klass1", "Klass2")}
    # different requests
    cases = [("m('one', inventory=i1)", "m('one', inventory=i2)", ("i1", "i2")), ("m('one')", "m('one', inventory=i1)", None), ("m('one')", "m('two')", None), ("m('one', inventory=i1)", "m('two', inventory=i1)", None), ("m('one', i1)", "m('one', i2)", ("i1", "i2"))]
    cases += [(b, a, differ) for a, b, differ in cases]
    for a, b, differ in cases:
        src = "def main():\n    m = BackendMaker()\n    a = %s\n    b = %s\n    return (a, b)\n" % (a, b)
        n = 0
        for o in go(rep, e, src, nm, {"i1": SYM("i1", "str"), "i2": SYM("i2", "str")}, opq, interest=interest, models=made):
            if o.kind != "return":
                rep.ob("own", "%s, %s" % (a, b), False, "raises %s" % exc_name(o.value), last_site(o))
                continue
            n += 1
            x, y = o.value.a
            same = differ and any(v is True and f.k == "t" and f.a[0] == "eq" and has_sym(f, "i1") and has_sym(f, "i2") for f, v in o.state.facts.items())
            calls = [ev for ev in o.events if ev.kind == "call" and "Klass" in str(ev.name)]
            if not same:
                rep.ob("own", "%s, %s" % (a, b), x != y and len(calls) == 2, "share a backend: %s, %s" % (show(x), show(y)), last_site(o))
            for ev, req in zip(calls, (a, b)):
                want = {s for s in ("i1", "i2") if s in req}
                got = {s.a[0] for v in list(ev.args) + list((ev.kwargs or {}).values()) for s in walk(v) if s.k == "sym"}
                if want and len(calls) == 2:
                    rep.ob("options", "inventory", got == want, "the backend is made for %s" % sorted(got), ev.site)
        rep.ob("own", "%s, %s reached" % (a, b), n > 0, "no path makes them")
    src = "def main():\n    m = BackendMaker()\n    return m(n)\n"
    for n, bad in ((SYM("n", "str"), None), (C("nosuch"), True), (C("one"), False)):
        for o in go(rep, e, src, nm, {"n": n}, opq, interest=interest, models=made):
            known = any(v is True and f.k == "t" and f.a[0] == "eq" and has_sym(f, "n") for f, v in o.state.facts.items()) or any(v is True and f.k == "t" and f.a[0] == "in" and has_sym(f, "n") for f, v in o.state.facts.items())
            if bad is False or (bad is None and known):
                rep.ob("registered", "known name", o.kind == "return", "a registered backend is refused", last_site(o))
            else:
                rep.ob("unknown", show(n), o.kind == "raise" and is_exc(o.value, "ValueError"), "gives %s" % (exc_name(o.value) if o.kind == "raise" else show(o.value)), last_site(o))
    # the package's own
    here = e.modules["backends"].path if "backends" in e.modules and hasattr(e.modules["backends"], "path") else None
    files = {"__init__.py": None, "__pycache__": None, "broken.py": None, "good.py": None, "last.py": None}

    def listdir(e, st, recv, args, kw, fr, node):
        return [(st, e.new(st, H("list", None, {}, tuple(C(x) for x in files)), node, fr))]

    def imp(e, st, recv, args, kw, fr, node):
        nmod = cval(args[0]) if args and args[0].k == "c" else "?"
        base = nmod.split(".")[-1]
        if base == "broken":
            e.raise_(st, EXC(EXT("builtins.ImportError"), C("!broken")), fr, node)
            return []
        ref = e.new(st, H("inst", e.lookup("backends:BackendLoader").a[0], {"backend": SYM("class:" + base, "fn")}), node, fr)
        return [(st, ref)]

    n = 0
    for o in go(rep, e, "def main():\n    return BackendMaker().BACKENDS\n", nm, {}, {}, models={"os.listdir": listdir, "importlib.import_module": imp, "os.path.isdir": lambda e, st, recv, args, kw, fr, node: [(st, FALSE)]}):
        n += 1
        h = o.state.obj(o.value) if o.kind == "return" else None
        got = {cval(it[1]): it[2] for it in h.items if it[0] == "k" and it[1].k == "c"} if h is not None else None
        rep.ob("registered", "others usable", got == {"good": SYM("class:good", "fn"), "last": SYM("class:last", "fn")}, "one broken backend leaves %s" % (sorted(got) if got is not None else exc_name(o.value)), last_site(o))
    rep.need(n, "the backends of the package are never listed")
    base = e.lookup("backends:Backend")
    for name in ("mir", "precomputed"):
        v = e.lookup("backends.%s:backend" % name)
        rep.ob("registered", name, v is not None and v.k == "cls" and any(c is v.a[0] for c in e.subclasses(base.a[0])) and not e.is_abstract(v.a[0]), "the package has no usable backend %s" % name)
    # inventories
    db = {"MatrixBackend": "backends.precomputed:MatrixBackend"}
    sysdb = e.lookup("backends.db:SYS_DB")
    for inv, kind in ((NONE, "system"), (C("ecmwf"), "system"), (C("https://h/x"), "url"), (C("http://h/x"), "url"), (C("/a/dir"), "path"), (C("httpdir"), "path"), (C("dir/https://x"), "path"), (C("ECMWF"), "path"), (C(""), "error")):
        for o in go(rep, e, "def main():\n    return MatrixBackend(inventory=i).db\n", db, {"i": inv}):
            sub = "inventory %s" % show(inv)
            if kind == "error":
                rep.ob("inventory", sub, o.kind == "raise" and is_exc(o.value, "ValueError"), "is accepted", last_site(o))
            elif o.kind != "return":
                rep.ob("inventory", sub, False, "raises %s" % exc_name(o.value), last_site(o))
            elif kind == "system":
                rep.ob("inventory", sub, o.value == sysdb, "is not the system inventory", last_site(o))
            else:
                acc = o.state.obj(o.state.obj(o.value).f.get("_accessor", NONE)) if o.state.obj(o.value) is not None else None
                cls = {"url": "UrlAccessor", "path": "LocalAccessor"}[kind]
                rep.ob("inventory", sub, acc is not None and acc.cls.name == cls and inv in acc.f.values() and o.value != sysdb, "is opened as %s" % (acc.cls.name if acc is not None else show(o.value)), last_site(o))
    h = e.state0.obj(sysdb)
    acc = e.state0.obj(h.f["_accessor"])
    rep.ob("inventory", "system", any(is_c(v, str) and cval(v).startswith("https://") for v in acc.f.values()), "the system inventory is not the remote one")
