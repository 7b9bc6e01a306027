"""The helpers that read, write and describe things: U01..U07."""

import re
import struct

from ..core import *  # noqa
from ..values import *  # noqa
from ..values import C, EXC, EXT, FALSE, H, NONE, REF, SYM, T, TRUE, TUP, V
from . import prop
from .handlers import WATCH, deep, plain, x_set
from .lookup import go, known, made, named
from .memcache import carries, lin

SIZES = {"b": 1, "B": 1, "c": 1, "?": 1, "h": 2, "H": 2, "i": 4, "I": 4, "l": 4, "L": 4, "q": 8, "Q": 8, "d": 8, "f": 4}
WATCH = WATCH | {"in"}


def watch(ev, st, fr):
    return ev.kind in WATCH


def quiet(ev, st, fr):
    return ev.kind in WATCH and ev.kind != "branch"


def no_raise(name, fr, node):
    return []


def fields(fmt):
    """(most significant first, [codes]) of a struct format with standard sizes."""
    if not fmt or (fmt[0] not in "!><=" and any(c not in "bBc?x" for c in fmt)):
        return None
    big = fmt[0] in "!>" or fmt[0] not in "<="
    out, n = [], ""
    for c in fmt.lstrip("!><="):
        if c.isdigit():
            n += c
        elif c in SIZES:
            out += [c] * int(n or 1)
            n = ""
        else:
            return None
    return big, out


def octets(v):
    """The bytes of a packed value, each as what it is a byte of; None if that cannot be told."""
    if v.k == "c" and isinstance(cval(v), bytes):
        return [("const", b) for b in cval(v)]
    if v.k == "t" and v.a[0] == "bin:Add":
        a, b = octets(v.a[1]), octets(v.a[2])
        return None if a is None or b is None else a + b
    if v.k == "t" and v.a[0] == "struct.pack" and is_c(v.a[1], str):
        f = fields(cval(v.a[1]))
        args = list(v.a[2:])
        if f is None or len(args) != len(f[1]):
            return None
        out = []
        for code, x in zip(f[1], args):
            out += word(x, code, f[0])
        return out
    if v.k == "t" and v.a[0] == ".to_bytes":
        args = [x for x in v.a[2:] if not (x.k == "c" and isinstance(cval(x), str) and ":" in cval(x))]
        if len(args) >= 2 and is_c(args[0], int) and is_c(args[1], str):
            return word(v.a[1], {4: "L", 8: "Q", 1: "B"}.get(cval(args[0]), "L"), cval(args[1]) == "big")
    return None


def word(x, code, big):
    n = SIZES[code]
    if is_c(x) and code not in "df":
        w = [("const", b) for b in struct.pack(">" + code, cval(x))]
    else:
        w = None
        if x.k == "t" and x.a[0] == "item" and x.a[1].k == "t" and x.a[1].a[0] == "struct.unpack" and is_c(x.a[2], int) and is_c(x.a[1].a[1], str):
            f = fields(cval(x.a[1].a[1]))
            src = octets(x.a[1].a[2])
            if f and src is not None:
                at = sum(SIZES[c] for c in f[1][: cval(x.a[2])])
                m = SIZES[f[1][cval(x.a[2])]]
                part = src[at: at + m]
                if m == n:
                    w = part if f[0] else part[::-1]
        if w is None:
            kind = "d" if code == "d" else "f" if code == "f" else "i"
            w = [(kind + str(n), x, k) for k in range(n)]
    return w if big else w[::-1]


def packed(a, st):
    """Lengths of packed values are known."""
    if a.k == "t" and a.a[0] == "eq":
        for x, y in ((a.a[1], a.a[2]), (a.a[2], a.a[1])):
            if y.k == "t" and y.a[0] == "builtins.len" and is_c(x, int):
                o = octets(y.a[1])
                if o is not None:
                    return len(o) == cval(x)
    return known(a, st)


TAGS = {"start_object": 1, "end_object": 2, "char": 3, "unsigned_char": 4, "int": 5, "unsigned_int": 6, "long": 9, "unsigned_long": 10, "long_long": 11, "unsigned_long_long": 12, "double": 14, "string": 15, "large_blob": 21}
LENGTH = {"int": 4, "unsigned_int": 4, "long": 4, "unsigned_long": 4, "long_long": 8, "unsigned_long_long": 8}
STREAM = {"S": "utils.stream:Stream"}


def written(o, f=SYM("f")):
    out = []
    for ev in o.events:
        if ev.kind == "call" and ev.name == ".write" and ev.recv is not None and f in list(walk(ev.recv)):
            b = octets(ev.args[0])
            out += b if b is not None else [("raw", ev.args[0])]
    return out


def merged_words(ws, x):
    """Two words, a zero one and the value: the same bytes as one long word of a value that fits."""
    if len(ws) == 8 and ws[:4] == [("const", 0)] * 4 and ws[4:] == [("i4", x, k) for k in range(4)]:
        return [("i8", x, k) for k in range(8)]
    return ws


@prop("U01")
def u01(rep):
    rep.rule("wire", "each kind of value is written as its tag and then its bytes, most significant first, as MIR reads it")
    rep.rule("read", "each kind of value is read back from the tag and the bytes it is written as")
    rep.rule("tag", "a value of another kind is refused with RuntimeError, without reading on")
    rep.rule("unsupported", "a kind that cannot be read is refused, never read as something else")
    e = rep.engine()
    x, f = SYM("x"), SYM("f")
    syms = {"x": x, "f": f, "r": SYM("r")}
    for name, tag in TAGS.items():
        m = "write_" + name if name not in ("start_object", "end_object", "large_blob") else name
        if name == "large_blob":
            continue
        arg = "" if name.endswith("object") else "x"
        outs = go(rep, e, "def main():\n    return S(f).%s(%s)\n" % (m, arg), STREAM, syms, {}, interest=watch, may_raise=no_raise, assume=packed)
        kept = [o for o in outs if o.kind == "return"]
        rep.need(kept, "%s never returns" % m)
        for o in outs:
            if o.kind == "raise":
                rep.ob("wire", name, is_exc(o.value, "AssertionError") or is_exc(o.value, "ValueError") or is_exc(o.value, "OverflowError"), "raises %s" % show(o.value, 3), last_site(o))
                continue
            w = written(o)
            rep.ob("wire", name + " tag", w[:1] == [("const", tag)], "the tag is %s" % (w[:1],), last_site(o))
            w = w[1:]
            if name.endswith("object"):
                want = []
            elif name in ("char", "unsigned_char"):
                want = [("raw", x)]
            elif name == "string":
                want = [("i4", T("builtins.len", x), k) for k in range(4)] + [("raw", x)]
            elif name == "double":
                d = [("d8", x, k) for k in range(8)]
                want = d[4:] + d[:4]
            else:
                n = LENGTH[name]
                want = [("i%d" % n, x, k) for k in range(n)]
            if name == "unsigned_long_long":
                w = merged_words(w, x)
            rep.ob("wire", name, w == want, "is written as %s" % [(t[0],) + tuple(plain(y) for y in t[1:]) for t in w][:10], last_site(o))
    for o in go(rep, e, "def main():\n    return S(f).write_object(x, r)\n", STREAM, syms, {}, interest=watch, may_raise=no_raise, assume=packed):
        if o.kind == "return":
            s = lambda v: [("const", 15)] + [("i4", T("builtins.len", v), k) for k in range(4)] + [("raw", v)]  # noqa: E731
            rep.ob("wire", "object", written(o) == [("const", 1)] + s(x) + s(SYM("r")) + [("const", 2)], "is written otherwise", last_site(o))
    for name, tag in TAGS.items():
        if name.endswith("object"):
            continue
        outs = go(rep, e, "def main():\n    return S(f).read_%s()\n" % name, STREAM, syms, {}, interest=watch, may_raise=no_raise, assume=packed)
        good = 0
        for o in outs:
            reads = [ev for ev in o.events if ev.kind == "call" and ev.name == ".read" and ev.recv == f]
            match = tag_fact(o)
            if o.kind == "raise":
                ok = is_exc(o.value, "RuntimeError") or is_exc(o.value, "EOFError") or is_exc(o.value, "ValueError")
                rep.ob("tag" if match != tag else "unsupported", name, ok, "raises %s" % show(o.value, 3), last_site(o))
                rep.ob("tag", name + " no further", all(ev.args[0] == C(1) for ev in reads) or match == tag, "reads on after a wrong tag", last_site(o))
                continue
            good += 1
            rep.ob("tag", name + " checked", match == tag, "is read after tag %s" % (match if match is not None else "of any kind"), last_site(o))
            skipped = any(a.k == "t" and a.a[0] == "eq" and C(2) in a.a[1:] and v is True for a, v in o.state.facts.items())
            body = reads[1:]
            if skipped:
                continue
            rep.ob("read", name + " tag size", bool(reads) and reads[0].args[0] == C(1), "the tag is not one byte", last_site(o))
            if name in ("char", "unsigned_char"):
                rep.ob("read", name, len(body) == 1 and body[0].args[0] == C(1) and o.value == body[0].result, "is read as %s" % show(o.value, 4), last_site(o))
            elif name in ("string", "large_blob"):
                n = 4 if name == "string" else 8
                ok = len(body) == 2 and body[0].args[0] == C(n) and number(body[1].args[0], body[0].result, n, False) and o.value == body[1].result
                rep.ob("read", name, ok, "is read as %s" % show(o.value, 6), last_site(o))
            elif name in LENGTH:
                n = LENGTH[name]
                ok = len(body) == 1 and body[0].args[0] == C(n) and number(o.value, body[0].result, n, None if "unsigned" not in name else False)
                rep.ob("read", name, ok, "is read as %s" % show(o.value, 6), last_site(o))
            else:
                rep.ob("unsupported", name, name != "double" or is_double(o.value, body), "is read as %s" % show(o.value, 6), last_site(o))
        if name not in ("double", "long_long"):
            rep.ob("read", name + " readable", good > 0, "cannot be read")


def is_double(v, body):
    return len(body) in (1, 2) and v.k == "t"


def tag_fact(o):
    """The tag a value was found to have."""
    for a, v in o.state.facts.items():
        if a.k == "t" and a.a[0] == "eq" and v is True:
            for x, y in ((a.a[1], a.a[2]), (a.a[2], a.a[1])):
                if is_c(x, int) and y.k == "t" and cval(x) != 2 and any(z.k == "t" and z.a[0] == ".read" for z in walk(y)):
                    return cval(x)
    return None


def number(v, raw, n, signed):
    """Whether a value is the number in these bytes, most significant first."""
    if v.k == "t" and v.a[0] == "item" and v.a[2] == C(0) and v.a[1].k == "t" and v.a[1].a[0] == "struct.unpack" and v.a[1].a[2] == raw and is_c(v.a[1].a[1], str):
        f = fields(cval(v.a[1].a[1]))
        return f is not None and f[0] and len(f[1]) == 1 and SIZES[f[1][0]] == n and f[1][0] not in "df" and (signed is None or f[1][0].islower() == signed)
    if v.k == "t" and v.a[0].endswith(".from_bytes"):
        return C("big") in v.a and raw in v.a and not (V("kw", "signed", TRUE) in v.a and signed is False)
    return False


def reader(e, st, f, args, kw, fr, node):
    """A value read from MIR's file, by its kind and its place in the file."""
    n = sum(1 for ev in st.ev if ev.kind == "in")
    name = str(f.a[0].qual).split(".")[-1] if hasattr(f.a[0], "qual") else str(f)
    e.emit(st, "in", fr, node, name=name[5:], args=[])
    return [(st, T("in", C(name[5:]), C(n)))]


READERS = {"utils.stream.Stream.read_" + m: reader for m in TAGS if not m.endswith("object")}
LAYOUT = ["unsigned_long"] * 3 + ["int"] + ["unsigned_long"] * 3 + ["large_blob"] * 3


def inp(n):
    return T("in", C(LAYOUT[n]), C(n))


def dtype_of(v):
    """(base type, byte order) of a type given to numpy."""
    order, base = None, v
    if v.k == "t" and v.a[0] == ".newbyteorder":
        order = cval(v.a[2]) if is_c(v.a[2], str) else None
        base = v.a[1]
    if base.k == "t" and base.a[0] == "numpy.dtype":
        base = base.a[1]
    if base.k == "ext":
        return base.a[0].split(".")[-1], order
    if is_c(base, str):
        s = cval(base)
        names = {"u4": "uint32", "i4": "int32", "f4": "float32", "f8": "float64", "u8": "uint64"}
        if s[:1] in "<>=":
            order = s[0] if order is None else order
            s = s[1:]
        return names.get(s, s), order
    return None, order


@prop("U02")
def u02(rep):
    rep.rule("layout", "a matrix file of MIR is read in the order it is written")
    rep.rule("roles", "its parts become the data, column indices and row pointers of a matrix with its number of rows and columns")
    rep.rule("types", "indices and weights are read with the size and byte order the file states, and other sizes are refused")
    rep.rule("file", "converting writes the matrix of this file to the target named, which has to be an .npz file")
    rep.rule("points", "a list of points is written whole and in order, each with its latitude first, and pairs that do not fit are refused before anything is written")
    rep.rule("named", "files of points are named after everything in them and appear only when complete")
    rep.rule("request", "a matrix is made from the grids or points given as input and output, each in its own place, with every option given")
    rep.rule("output", "the matrix goes where asked: to the file named, or is returned")
    rep.rule("refused", "requests without exactly one description of each side, or to a file of another kind, are refused before anything is computed, and failures are reported")
    e = rep.engine()
    p = SYM("p")
    for o in go(rep, e, "def main():\n    return m(p)\n", {"m": "utils.mir:mir_cached_matrix_to_array"}, {"p": p}, READERS, interest=watch, may_raise=no_raise):
        order = [ev.name for ev in o.events if ev.kind == "in"]
        same = {"long": "unsigned_long", "unsigned_int": "unsigned_long"}
        size4 = size8 = None
        ie, se, le = eqs(o, inp(4)), eqs(o, inp(5)), eqs(o, inp(3))
        if o.kind == "raise":
            ok = not (4 in ie[0] and (4 in se[0] or 8 in se[0]))
            rep.ob("types", "sizes", ok, "a known size is refused: %s" % show(o.value, 3), last_site(o))
            continue
        rep.ob("layout", "order", order == LAYOUT, "the file is read as %s" % order, last_site(o))
        opens = [ev for ev in o.events if ev.kind == "call" and ev.name == "builtins.open"]
        rep.ob("layout", "file", len(opens) == 1 and opens[0].args[0] == p and "b" in str(opens[0].args[1:]), "another file is read", last_site(o))
        v = o.value
        if v.k == "t" and v.a[0] == ".tocsr":
            v = v.a[1]
        ok = v.k == "t" and v.a[0] in ("scipy.sparse.csr_array", "scipy.sparse.csr_matrix") and v.a[1].k == "tup" and len(v.a[1].a) == 3
        rep.ob("roles", "matrix", ok, "the matrix is %s" % show(v, 3), last_site(o))
        if not ok:
            continue
        shape = [y.a[1] for y in v.a[2:] if isinstance(y, V) and y.k == "kw" and y.a[0] == "shape"] or [v.a[2]]
        rep.ob("roles", "shape", shape[0] == TUP((inp(0), inp(1))), "the shape is %s" % show(shape[0], 4), last_site(o))
        for k, (part, src, what) in enumerate(zip(v.a[1].a, (9, 8, 7), ("weights", "columns", "rows"))):
            buf = [y for y in walk(part) if y.k == "t" and y.a[0] == "numpy.frombuffer"]
            rep.ob("roles", what, len(buf) == 1 and buf[0].a[1] == inp(src), "the %s are %s" % (what, show(part, 4)), last_site(o))
            if len(buf) != 1:
                continue
            dt = [y.a[1] for y in buf[0].a[2:] if isinstance(y, V) and y.k == "kw" and y.a[0] == "dtype"] or list(buf[0].a[2:3])
            base, order = dtype_of(dt[0]) if dt else (None, None)
            if what == "weights":
                want = {"float32"} if 4 in se[0] else {"float64"} if 8 in se[0] else set()
            else:
                want = {"uint32", "int32"} if 4 in ie[0] else {"uint64", "int64"} if 8 in ie[0] else set()
            rep.ob("types", what, base in want, "the %s are read as %s" % (what, base), last_site(o))
            little = 0 in le[1] or 1 in le[0]
            rep.ob("types", what + " order", order == ("<" if little else ">") and (little or 0 in le[0]), "the %s are read in byte order %s when little endian is %s" % (what, order, little), last_site(o))
    # to a file
    arr = {"utils.mir.mir_cached_matrix_to_array": lambda e, st, f, args, kw, fr, node: [(st, T("arr", e.snap(st, list(args) [0] if args else kw["path"])))], **READERS}
    for o in go(rep, e, "def main():\n    return m(p, q)\n", {"m": "utils.mir:mir_cached_matrix_to_file"}, {"p": p, "q": SYM("q")}, arr, interest=watch, may_raise=no_raise):
        npz = suffix(o, SYM("q"))
        if o.kind == "raise":
            rep.ob("file", "other kinds", is_exc(o.value, "ValueError") and npz is not True, "raises %s" % show(o.value, 3), last_site(o))
            rep.ob("file", "other kinds untouched", not any(ev.kind == "call" and ev.name.endswith("save_npz") for ev in o.events), "is written all the same", last_site(o))
            continue
        s = [ev for ev in o.events if ev.kind == "call" and ev.name.endswith("save_npz")]
        rep.ob("file", "target", len(s) == 1 and as_path(s[0].args[0]) == SYM("q"), "is written to %s" % (show(s[0].args[0], 3) if s else "nothing"), last_site(o))
        rep.ob("file", "matrix", len(s) == 1 and s[0].args[1].k == "t" and (s[0].args[1].a[0] == "arr" and as_path(s[0].args[1].a[1]) == p or s[0].args[1].a[0] != "arr"), "another matrix is written", last_site(o))
        rep.ob("file", "npz only", npz is True, "any kind of file is written", last_site(o))
    points(rep, e)
    request(rep, e, arr)


def eqs(o, v):
    """Constants a value equals, and does not equal."""
    yes, no = set(), set()
    for a, t in o.state.facts.items():
        if a.k == "t" and a.a[0] == "eq" and v in a.a[1:]:
            c = [x for x in a.a[1:] if x.k == "c"]
            if c:
                (yes if t else no).add(cval(c[0]))
        if a == T("truthy", v):
            (no if t else yes).add(0)
    return yes, no


def as_path(v):
    while v.k == "t" and v.a[0] in ("pathlib.Path", "str", "os.fspath", "builtins.str") and len(v.a) == 2:
        v = v.a[1]
    if v.k == "t" and v.a[0] == "pathlib.Path" and len(v.a) == 3:
        return T("bin:Div", v.a[1], v.a[2])
    return v


def suffix(o, v):
    """Whether a path was found to end in .npz."""
    for a, t in o.state.facts.items():
        if any(as_path(x) == v for x in walk(a)) and C(".npz") in list(walk(a)) and a.a[0] in ("eq", "truthy"):
            return t
    return None


def points(rep, e):
    syms = {k: SYM(k) for k in ("x0", "x1", "x2", "y0", "y1", "y2", "p", "d", "L", "M")}
    for lats, lons, fine in (("(x0, x1, x2)", "(y0, y1, y2)", True), ("(x0,)", "(y0,)", True), ("()", "()", False), ("(x0, x1)", "(y0,)", False), ("(x0,)", "(y0, y1)", False)):
        outs = go(rep, e, "def main():\n    return m(p, %s, %s)\n" % (lats, lons), {"m": "utils.mir:mir_write_latlon_to_griddef"}, syms, {}, interest=watch, may_raise=no_raise, assume=packed)
        for o in outs:
            op = [ev for ev in o.events if ev.kind == "call" and ev.name in ("builtins.open", ".open")]
            if not fine:
                rep.ob("points", "%s and %s" % (lats, lons), o.kind == "raise" and is_exc(o.value, "ValueError") and not op, "gives %s" % show(o.value, 3), last_site(o))
                continue
            if o.kind == "raise":
                rep.ob("points", "written", False, "raises %s" % show(o.value, 3), last_site(o))
                continue
            n = lats.count("x")
            rep.ob("points", "file", len(op) == 1 and (op[0].args[:1] == [syms["p"]] or op[0].recv == syms["p"]) and C("wb") in list(op[0].args) + list(op[0].kwargs.values()), "another file is written", last_site(o))
            w = written(o, op[0].result) if op else []
            ul = lambda k: [("const", 10)] + [("const", b) for b in struct.pack(">L", k)]  # noqa: E731
            want = ul(1) + ul(n)
            for k in range(n):
                for c in "xy":
                    d = [("d8", syms[c + str(k)], j) for j in range(8)]
                    want += [("const", 14)] + d[4:] + d[:4]
            rep.ob("points", "%d points" % n, w == want, "are written as %s" % [(t[0],) + tuple(plain(y) for y in t[1:]) for t in w][:24], last_site(o))
    wg = lambda e, st, f, args, kw, fr, node: (e.emit(st, "in", fr, node, name="points", args=[e.snap(st, a) for a in args]), [(st, NONE)])[1]  # noqa: E731
    for d in ("d", "None"):
        for o in go(rep, e, "def main():\n    return m(L, M, %s)\n" % d, {"m": "utils.mir:_griddef_from_latlon"}, syms, {"utils.mir.mir_write_latlon_to_griddef": wg}, interest=watch, may_raise=no_raise):
            if o.kind == "raise":
                rep.ob("named", "points", False, "raises %s" % show(o.value, 3), last_site(o))
                continue
            path = as_path(o.value)
            dg = [x for x in walk(path) if x.k == "t" and x.a[0] == "digest"]
            rep.ob("named", "content", bool(dg) and {syms["L"], syms["M"]} <= whole(dg[0]), "the name does not depend on all the points", last_site(o))
            kind = [ev for ev in o.events if ev.kind == "in"]
            there = any(a.k == "t" and a.a[0] == "truthy" and a.a[1].k == "t" and a.a[1].a[0] in (".exists", "os.path.exists") and v is True for a, v in o.state.facts.items())
            rep.ob("named", "written", bool(kind) != there or (there and not kind), "points that are not there yet are not written", last_site(o))
            for ev in kind:
                rep.ob("named", "points", ev.args[1:] == [syms["L"], syms["M"]], "other points are written", ev.site)
                moved = [m for m in o.events if m.kind == "call" and m.name in ("os.replace", "os.rename", ".replace", ".rename")]
                src = [m for m in moved if (m.args and as_path(m.args[0]) == as_path(ev.args[0])) or m.recv == ev.args[0]]
                to = [as_path(m.args[-1]) for m in src]
                rep.ob("named", "complete", bool(src) and to[0] == path and as_path(ev.args[0]) != path and o.events.index(src[0]) > o.events.index(ev), "a file being written can be taken for a complete one", ev.site)


def whole(v, part=False):
    """Symbols all of which a value depends on, not only on their length or ends."""
    if v.k == "sym":
        return set() if part else {v}
    out = set()
    if v.k == "t" and v.a[0] in ("builtins.len", "item", "attr", "builtins.min", "builtins.max", "builtins.sum", "slice"):
        return out
    if v.k in ("t", "tup", "kw"):
        for x in v.a:
            if isinstance(x, V):
                out |= whole(x)
    return out


def request(rep, e, arr):
    S = SYM
    syms = {k: S(k) for k in ("gi", "go", "li", "mi", "lo", "mo", "p", "n")}
    gd = {"utils.mir._griddef_from_latlon": lambda e, st, f, args, kw, fr, node: [(st, T("griddef", *[e.snap(st, a) for a in list(args) + list(kw.values())][:2]))]}
    ins = {"in_grid=gi": ("grid", S("gi")), "in_lat=li, in_lon=mi": ("points", (S("li"), S("mi")))}
    outs_ = {"out_grid=go": ("grid", S("go")), "out_lat=lo, out_lon=mo": ("points", (S("lo"), S("mo")))}
    opq = {**arr, **gd}
    for i, (ik, iv) in ins.items():
        for o_, (ok_, ov) in outs_.items():
            for out in ("", ", output=p"):
                src = "def main():\n    return m(%s, %s%s, interpolation=n)\n" % (i, o_, out)
                got = go(rep, e, src, {"m": "utils.mir:mir_make_matrix"}, syms, opq, interest=watch, may_raise=no_raise, assume=given, models={".set": x_set})
                kept = 0
                for o in got:
                    ex = [ev for ev in o.events if ev.kind == "call" and ev.name == ".execute"]
                    mat = made_suffix(o, ".mat")
                    npz = made_suffix(o, ".npz")
                    if o.kind == "raise":
                        missing = any(a.k == "t" and a.a[0] == "truthy" and a.a[1].k == "t" and a.a[1].a[0] in (".exists", "os.path.exists") and v is False for a, v in o.state.facts.items())
                        bad = out and not mat and not npz
                        rep.ob("refused", "other kinds" if bad else "no matrix", (bad and is_exc(o.value, "ValueError") and not ex) or (missing and (is_exc(o.value, "FileNotFoundError") or is_exc(o.value, "AssertionError"))), "raises %s" % show(o.value, 3), last_site(o))
                        continue
                    kept += 1
                    rep.ob("request", "once", len(ex) == 1, "%d jobs are run" % len(ex), last_site(o))
                    if len(ex) != 1:
                        continue
                    x = ex[0]
                    d = {}
                    for ev in o.events[: o.events.index(x)]:
                        if ev.kind == "option" and ev.job == x.recv:
                            d.update(ev.opts)
                    a = x.args[0]
                    if ik == "grid":
                        rep.ob("request", "input grid", a.k == "t" and a.a[0] == "mir.GridSpecInput" and text_of(a.a[1]) == iv, "the input is %s" % show(a, 4), x.site)
                    else:
                        rep.ob("request", "input points", a.k == "t" and a.a[0] == "mir.GriddefInput" and a.a[1] == T("griddef", *iv), "the input is %s" % show(a, 4), x.site)
                    if ok_ == "grid":
                        rep.ob("request", "output grid", isinstance(d.get("grid"), V) and text_of(d["grid"]) == ov and "griddef" not in d, "the output is %s" % plain(d.get("grid")), x.site)
                    else:
                        rep.ob("request", "output points", d.get("griddef") == T("griddef", *ov) and "grid" not in d, "the output is %s" % plain(d.get("griddef")), x.site)
                    rep.ob("request", "options", d.get("interpolation") == S("n") and set(d) <= {"grid", "griddef", "interpolation", "interpolation-matrix"}, "the options are %s" % sorted(map(str, d)), x.site)
                    file = d.get("interpolation-matrix", NONE)
                    saved = [ev for ev in o.events if ev.kind == "call" and ev.name.endswith("save_npz")]
                    chk = [ev for ev in o.events if ev.kind == "call" and ev.name in (".exists", "os.path.exists")]
                    if not out:
                        rep.ob("output", "returned", o.value.k == "t" and o.value.a[0] == "arr" and as_path(o.value.a[1]) == as_path(file) and S("p") not in list(walk(file)), "returns %s" % show(o.value, 4), last_site(o))
                    elif npz:
                        ok = len(saved) == 1 and as_path(saved[0].args[0]) == S("p") and as_path(saved[0].args[1].a[1]) == as_path(file) and as_path(file) != S("p")
                        rep.ob("output", "npz", ok, "the matrix is not converted to the file named", last_site(o))
                        un = [ev for ev in o.events if ev.kind == "call" and ev.name in (".unlink", "os.unlink", "os.remove")]
                        ok = all(as_path(ev.recv if ev.recv is not None else ev.args[0]) == as_path(file) and saved and o.events.index(ev) > o.events.index(saved[0]) for ev in un)
                        rep.ob("output", "left over", ok and bool(un), "the intermediate file is not removed, or another one is", last_site(o))
                    elif mat:
                        rep.ob("output", "mat", as_path(file) == S("p") and not saved, "the matrix goes to %s" % show(file, 4), last_site(o))
                    else:
                        rep.ob("refused", "other kinds", False, "any kind of file is accepted", last_site(o))
                    rep.ob("refused", "no matrix", bool(chk) or not out, "a matrix that was not made is not noticed", last_site(o))
                rep.need(kept, "no matrix is ever made")
                # a failing job
                fail = lambda name, fr, node: [EXC(EXT("builtins.KeyboardInterrupt")), EXC(EXT("builtins.OSError"))] if name == ".execute" else []  # noqa: E731
                for o in go(rep, e, src, {"m": "utils.mir:mir_make_matrix"}, syms, opq, interest=watch, may_raise=fail, assume=given, models={".set": x_set}):
                    if o.kind == "return":
                        rep.ob("refused", "failure", any(ev.kind == "call" and ev.name == ".execute" for ev in o.events), "a failure is not reported", last_site(o))
    bad = ["", "in_grid=gi", "out_grid=go", "in_grid=gi, in_lat=li, in_lon=mi, out_grid=go", "in_lat=li, out_grid=go", "in_lon=mi, out_grid=go", "in_grid=gi, in_lat=li, out_grid=go", "in_grid=gi, out_lat=lo", "in_grid=gi, out_grid=go, out_lat=lo, out_lon=mo", "in_grid=gi, out_grid=go, out_lon=mo"]
    for b in bad:
        for o in go(rep, e, "def main():\n    return m(%s)\n" % b, {"m": "utils.mir:mir_make_matrix"}, syms, opq, interest=watch, may_raise=no_raise, assume=given, models={".set": x_set}):
            ex = [ev for ev in o.events if ev.kind == "call" and ev.name == ".execute"]
            rep.ob("refused", "(%s)" % b, o.kind == "raise" and is_exc(o.value, "ValueError") and not ex, "gives %s" % show(o.value, 3), last_site(o))


def given(a, st):
    if a.k == "t" and a.a[0] == "is" and a.a[2] == NONE and a.a[1].k == "sym":
        return False
    return known(a, st)


def made_suffix(o, s):
    for a, t in o.state.facts.items():
        if a.k == "t" and a.a[0] == "eq" and C(s) in a.a[1:] and t is True:
            return True
        if a.k == "t" and a.a[0] == "truthy" and a.a[1].k == "t" and a.a[1].a[0] == ".endswith" and C(s) in a.a[1].a and t is True:
            return True
    return False


def text_of(v):
    """The grid a text describes."""
    while v.k == "t" and v.a[0] in (".strip", "yaml.dump", "str", "json.dumps", "yaml.safe_dump"):
        v = v.a[1]
    return v


GSPEC = {"GridSpec": "gridspec:GridSpec"}


def close_to(v, names):
    """(linear form, tolerance) of |x| < eps, if the symbols in x are these."""
    if v.k != "t" or v.a[0] != "lt":
        return None
    ab = [x for x in walk(v.a[1]) if x.k == "t" and x.a[0] in ("builtins.abs", "math.fabs", "numpy.abs")]
    if v.a[1] not in ab or not is_c(v.a[2]):
        return None
    if {x.a[0] for x in walk(v.a[1]) if x.k == "sym"} != set(names):
        return None
    return lin(v.a[1].a[1]), cval(v.a[2])


def unwrap(f):
    return {k: c for k, c in f.items() if k is not None}, f.get(None, 0)


class Alike:
    """What a path found out about two grids."""

    def __init__(self, o, steps=None):
        self.o, self.steps = o, steps or {}

    def near(self, a, b, want, eps, turns=False):
        for f, v in self.o.state.facts.items():
            c = close_to(f, (a, b)) if v is want else None
            if c:
                form, k = unwrap(c[0])
                whole_ = k == 0 or (turns and k % 360 == 0)
                if whole_ and sorted(form.values()) == [-1, 1] and (c[1] <= eps or not want):
                    return True
        return False

    def round_(self, i, want):
        """Facts about grid i going all round: {"span", "step"}."""
        out = set()
        for f, v in self.o.state.facts.items():
            if v is not want or f.k != "t" or f.a[0] != "lt":
                continue
            syms = {x.a[0] for x in walk(f) if x.k == "sym"}
            if not {"w%d" % i, "e%d" % i} <= syms or syms - {"w%d" % i, "e%d" % i, "dx%d" % i}:
                continue
            c = close_to(f, tuple(syms))
            if not c or (want and c[1] > 1e-3):
                continue
            form, k = unwrap(c[0])
            w, e_ = form.pop(SYM("w%d" % i), 0), form.pop(SYM("e%d" % i), 0)
            if (w, e_) not in ((1, -1), (-1, 1)):
                continue
            step = 0
            if form:
                (x, m), = form.items() if len(form) == 1 else [(None, 0)]
                if x is None or not (x.k == "t" and x.a[0] == "builtins.abs") or m * e_ != 1:
                    continue
                step = None
            k = k * e_  # e - w + k (+ |dx|)
            if step is None:
                out |= {"step"} if k % 360 == 0 else set()
            elif k % 360 == 0:
                out |= {"span"}
            elif i in self.steps and abs((k - self.steps[i]) % 360) < 1e-9:
                out |= {"step"}
        return out

    def unread(self):
        """Is a longitude compared in a way that cannot be read?"""
        for f, v in self.o.state.facts.items():
            if any(x.k == "sym" and x.a[0][0] in "we" for x in walk(f)):
                if f.k == "t" and f.a[0] == "and":
                    continue
                if f.k != "t" or f.a[0] != "lt":
                    return True
                sides = []
                if not close_to(f, tuple({x.a[0] for x in walk(f) if x.k == "sym"})) and len({x for x in walk(f) if x.k == "sym"}) > 1 and any(x.k == "c" for x in walk(f)):
                    return True
                for x in f.a[1:]:
                    if x.k == "t" and x.a[0] in ("builtins.abs", "math.fabs", "numpy.abs"):
                        x = x.a[1]
                    sides.append(lin(x))
                if any(k is not None and k.k != "sym" and not (k.k == "t" and k.a[0] == "builtins.abs") for d in sides for k in d):
                    return True
        return False

    def poles(self, i, want):
        """Whether grid i was found (not) to reach both poles."""
        ok = {"n": False, "s": False}
        for f, v in self.o.state.facts.items():
            if v is want and f.k == "t" and f.a[0] == "lt":
                syms = {x.a[0] for x in walk(f) if x.k == "sym"}
                for q in ok:
                    if syms == {q + str(i)}:
                        ok[q] = True
        return all(ok.values()) if want else any(ok.values())


def plainly(a, st):
    """Longitudes within one turn, areas that are not spelled like the default one."""
    if a.k == "t" and a.a[0] == "lt":
        syms = {x for x in walk(a) if x.k == "sym"}
        cs = [x for x in a.a[1:] if x.k == "c"]
        if len(syms) == 1 and len(cs) == 1:
            if a.a[1] in syms and a.a[1].a[0][0] in "we":
                return {0: False, 360: True}.get(cval(a.a[2]))
            if a.a[2] in syms and a.a[2].a[0][0] in "we" and cval(a.a[1]) == 360:
                return False
            if a.a[1].k == "t" and a.a[1].a[0] == "builtins.abs" and cval(a.a[2]) < 1e-3:
                return False
    if a.k == "t" and a.a[0] == "isinstance" and a.a[1].k == "sym" and a.a[1].a[0][0] in "fp":
        return a.a[2] == EXT("builtins.int")
    return known(a, st)


def unordered(v):
    """A comparison, whichever of the two is named first."""
    if v.k != "t":
        return v
    xs = [unordered(x) if isinstance(x, V) else x for x in v.a[1:]]
    n = str(v.a[0])
    if n.startswith("builtins.abs") and xs and xs[0].k == "t" and xs[0].a[0] == "bin:Sub":
        xs[0] = T("between", *sorted(xs[0].a[1:], key=repr))
    elif n in ("numpy.allclose", "numpy.isclose", "math.isclose", "eq", "is") and len(xs) > 1:
        xs[:2] = sorted(xs[:2], key=repr)
    return T(n, *xs)


def either_way(a, st):
    """Two values are close, or not, whichever of them is named first."""
    r = plainly(a, st)
    if r is None:
        u = unordered(a)
        for b, v in st.facts.items():
            if b.k == "t" and b != a and unordered(b) == u:
                return v
    return r


def truths(o):
    return {a: v for a, v in o.state.facts.items()}


def same_grid(o, want, names=("dx1", "dy1", "dx2", "dy2")):
    """Whether the increments were found (not) to be the same."""
    for a, v in o.state.facts.items():
        c = a.a[1] if a.k == "t" and a.a[0] == "truthy" else NONE
        while c.k == "t" and c.a[0] in ("bool", "builtins.bool"):
            c = c.a[1]
        if v is want and c.k == "t" and c.a[0] in ("numpy.allclose", "numpy.array_equal"):
            syms = [{x.a[0] for x in walk(y) if x.k == "sym"} for y in c.a[1:3]]
            tol = [cval(x.a[1]) for x in c.a[3:] if isinstance(x, V) and x.k == "kw" and x.a[0] in ("atol", "rtol") and is_c(x.a[1])]
            if set(names[:2]) in syms and set(names[2:]) in syms and all(t <= 1e-4 for t in tol):
                return True
        if v is want and a.k == "t" and a.a[0] == "eq" and {x.a[0] for x in walk(a) if x.k == "sym"} == set(names):
            return True
    return False


@prop("U06")
def u06(rep):
    rep.rule("same", "two grids are equal only if kind, increments or number, scanning, shape and area are the same")
    rep.rule("different", "two grids are different only if one of these was found to differ")
    rep.rule("round", "grids that go all round are the same only from the same meridian, and only if both go all round")
    rep.rule("opposite", "two grids are either equal or unequal, whichever way they are compared")
    rep.rule("healpix", "healpix grids are told apart by number and order, ring being the default")
    rep.rule("spelling", "names of grids are compared whatever their case")
    e = rep.engine()
    names = "n1 w1 s1 e1 n2 w2 s2 e2 dx1 dy1 dx2 dy2 f1 f2 p1 p2 q1 q2 g1 g2 o1 o2".split()
    syms = {k: SYM(k) for k in names if k[0] not in "go"} | {k: SYM(k, "str") for k in names if k[0] in "go"}

    def run(a, b, ass=plainly, op="=="):
        src = "def main():\n    return True if GridSpec.from_dict(%s) %s GridSpec.from_dict(%s) else False\n" % (a, op, b)
        outs = go(rep, e, src, GSPEC, syms, {}, interest=watch, may_raise=no_raise, assume=ass)
        res = []
        for o in outs:
            if o.kind == "raise" and "o1" in a and is_exc(o.value, "ValueError"):
                continue  # an order that does not exist
            ok = o.kind == "return" and boolean(o) is not None
            rep.ob("opposite", "%s %s %s gives an answer" % (a, op, b), ok, "gives %s" % show(o.value, 4), last_site(o))
            if ok:
                res.append((o, boolean(o) is (op == "==")))
        return res

    def ll(i, extra=""):
        return "{'grid': [dx%d, dy%d], 'area': [n%d, w%d, s%d, e%d]%s}" % ((i,) * 6 + (extra,))

    eps = 1e-4
    for g1, g2 in (("", ""), (", 'global': 1", ", 'global': 1"), (", 'global': 1", ""), ("", ", 'global': 1"), (", 'global': 0", "")):
        for swap in (False, True):
            if swap and g1 != g2:
                continue
            a, b = ll(2 if swap else 1, g1), ll(1 if swap else 2, g2)
            glob = {1: "1" in g1, 2: "1" in g2}
            seen = set()
            for o, eq in run(a, b):
                seen.add(eq)
                al = Alike(o)
                lat = al.near("n1", "n2", True, eps) and al.near("s1", "s2", True, eps)
                west = al.near("w1", "w2", True, eps, True)
                east = al.near("e1", "e2", True, eps)
                rnd = {i: glob[i] or bool(al.round_(i, True)) for i in (1, 2)}
                if eq:
                    rep.ob("same", "increments", same_grid(o, True), "grids with other increments are equal", last_site(o))
                    rep.ob("same", "latitudes", lat, "areas with other latitudes are equal", last_site(o))
                    rep.ob("round", "longitudes", al.unread() or west and (east or (rnd[1] and rnd[2])), "areas with other longitudes are equal", last_site(o))
                else:
                    no_lat = any(al.near(q + "1", q + "2", False, eps) for q in "ns")
                    no_east = al.near("e1", "e2", False, eps)
                    no_west = al.near("w1", "w2", False, eps, True)
                    not_all = any(not glob[i] and {"span", "step"} <= al.round_(i, False) for i in (1, 2))
                    rep.ob("different", "areas", same_grid(o, False) or al.unread() or no_lat or no_west or (no_east and not_all) or (unnamed(o, "we", eps) and not_all), "the same grid is different from itself", last_site(o))
            rep.ob("same", "%s, %s reached" % (g1, g2), seen == {True, False}, "the grids are always %s" % seen)
    gaussian(rep, run)
    # areas of given numbers
    for grid_, areas in AREAS:
        for a in areas:
            for b in areas:
                want = same_points(grid_, a, b)
                if want is None:
                    continue
                src = ["{'grid': %s, 'area': %s%s}" % (grid_, list(x[:4]), ", 'global': 1" if len(x) > 4 else "") for x in (a, b)]
                got = {eq for o, eq in run(src[0], src[1], numbers)}
                rep.ob("round" if want is False else "different", "%s and %s of %s" % (list(a), list(b), grid_), got == {want}, "are %s" % " and ".join(sorted("equal" if x else "different" for x in got)))
    for a, b, want in (("[1, 1]", "[1, 1]", True), ("[1, 1]", "[1.0, 1.0]", True), ("[0.1, 0.1]", "(0.1, 0.1)", True), ("[1, 1]", "[1, 2]", False), ("[1, 1]", "[2, 1]", False), ("[1, 2]", "[2, 1]", False), ("[0.1, 0.1]", "[0.125, 0.125]", False), ("[0.1, 0.1]", "[0.11, 0.11]", False), ("[0.25, 0.25]", "[0.25, 0.3]", False)):
        for x, y in ((a, b), (b, a)):
            got = {eq for o, eq in run(*("{'grid': %s, 'area': [90, 0, -90, 359]}" % z for z in (x, y)), numbers)}
            rep.ob("same" if not want else "different", "increments %s and %s" % (x, y), got == {want}, "are %s" % " and ".join(sorted("equal" if z else "different" for z in got)))
    # scanning, shape
    box = ", 'area': [90, 0, -90, 360]"
    grid = lambda i, x: "{'grid': [dx%d, dy%d]%s%s}" % (i, i, box, x)  # noqa: E731
    for k in ("i_scans_negatively", "j_points_consecutive", "j_scans_positively"):
        for x, y in (("f1", "f2"), ("f1", None), (None, "f2")):
            for o, eq in run(grid(1, ", '%s': %s" % (k, x) if x else ""), grid(2, ", '%s': %s" % (k, y) if y else "")):
                pair = {s for s in (x, y) if s}
                found = [v for a, v in o.state.facts.items() if a.k == "t" and a.a[0] in ("eq", "truthy") and {s.a[0] for s in walk(a) if s.k == "sym"} == pair]
                # numbers: compared with each other, or with the default
                ok = (found and found[-1] is True) if len(pair) == 2 else any(a.k == "t" and ((a.a[0] == "eq" and C(0) in a.a[1:] and v) or (a.a[0] == "truthy" and not v)) and {s.a[0] for s in walk(a) if s.k == "sym"} == pair for a, v in o.state.facts.items())
                rep.ob("same" if eq else "different", k, ok if eq else (not ok or same_grid(o, False)), "grids that scan %s are %s" % ("differently" if eq else "alike", "equal" if eq else "different"), last_site(o))
    for x, y, both in (("p1, q1", "p2, q2", True), ("p1", "p2", True), ("p1, q1", None, False), (None, "p2, q2", False)):
        for o, eq in run(grid(1, ", 'shape': [%s]" % x if x else ""), grid(2, ", 'shape': [%s]" % y if y else "")):
            hit = [v for a, v in o.state.facts.items() if any(s.k == "sym" and s.a[0][0] in "pq" for s in walk(a)) and a.a[0] in ("eq", "and")]
            if eq:
                rep.ob("same", "shape (%s), (%s)" % (x, y), not both or (bool(hit) and all(hit)), "grids of other shapes are equal", last_site(o))
            else:
                rep.ob("different", "shape (%s), (%s)" % (x, y), same_grid(o, False) or (both and not all(hit)), "grids whose shape is not known are different", last_site(o))
    # kinds
    kinds = {"ll": "{'grid': [dx1, dy1]}", "O": "{'grid': 'O32'}", "N": "{'grid': 'N32'}", "O64": "{'grid': 'O64'}", "H": "{'grid': 'H32'}", "Hn": "{'grid': 'H32', 'order': 'nested'}", "H64": "{'grid': 'H64'}", "orca": "{'grid': 'ORCA1_T'}", "orca2": "{'grid': 'ORCA1_F'}", "eorca": "{'grid': 'eORCA1_T'}"}
    for a in kinds:
        for b in kinds:
            if a == "ll" and b == "ll":
                continue
            got = {eq for o, eq in run(kinds[a], kinds[b], folded)}
            rep.ob("same" if a != b else "different", "%s and %s" % (a, b), got == {a == b}, "are %s" % got)
            got = {eq for o, eq in run(kinds[a], kinds[b], folded, "!=")}
            rep.ob("opposite", "%s and %s" % (a, b), got == {a == b}, "are %s when asked for being unequal" % {not x for x in got})
    for a, b, want in (("'grid': 'H32', 'order': 'ring'", "'grid': 'H32'", True), ("'grid': 'h32'", "'grid': 'H32'", True), ("'grid': 'H32', 'ordering': 'nested'", "'grid': 'H32', 'order': 'nested'", True), ("'grid': 'H32', 'ordering': 'nested'", "'grid': 'H32'", False), ("'grid': 'H32', 'order': 'ring'", "'grid': 'H32', 'order': 'nested'", False)):
        for x, y in ((a, b), (b, a)):
            got = {eq for o, eq in run("{%s}" % x, "{%s}" % y, folded)}
            rep.ob("healpix", "%s and %s" % (x, y), got == {want}, "are %s" % got)
    for o, eq in run("{'grid': 'H32', 'order': o1}", "{'grid': 'H32', 'order': o2}", folded_ring):
        ok = [v for a, v in o.state.facts.items() if a.k == "t" and a.a[0] == "eq" and {s.a[0] for s in walk(a) if s.k == "sym"} == {"o1", "o2"}]
        names_ = [{cval(x) for a, v in o.state.facts.items() if v is True and a.k == "t" and a.a[0] == "eq" and syms[q] in a.a[1:] for x in a.a[1:] if is_c(x, str)} for q in ("o1", "o2")]
        same = ok[-1] if ok else names_[0] == names_[1] and bool(names_[0])
        rep.ob("healpix", "any order", same == eq, "grids of %s order are %s" % ("the same" if same else "another", "equal" if eq else "different"), last_site(o))
    for t in ("orca", "reduced_gg"):
        for o, eq in run("{'grid': g1, 'type': '%s'%s}" % (t, box), "{'grid': g2, 'type': '%s'%s}" % (t, box), folded):
            ok = [v for a, v in o.state.facts.items() if a.k == "t" and a.a[0] == "eq" and {s.a[0] for s in walk(a) if s.k == "sym"} == {"g1", "g2"} and all(x.k == "t" and x.a[0] in (".lower", ".upper", ".casefold") for x in a.a[1:])]
            rep.ob("spelling", t, bool(ok) and ok[-1] == eq, "grids called %s are %s" % ("the same" if ok and ok[-1] else "otherwise", "equal" if eq else "different"), last_site(o))
    # unequal is the opposite of equal, on every path
    for a, b in ((ll(1), ll(2)), ("{'grid': 'O32', 'area': [n1, w1, s1, e1]}", "{'grid': 'O32', 'area': [n2, w2, s2, e2]}"), ("{'grid': g1, 'type': 'orca'}", "{'grid': g2, 'type': 'orca'}")):
        src = "def main():\n    a = GridSpec.from_dict(%s)\n    b = GridSpec.from_dict(%s)\n    return (True if a == b else False, True if a != b else False)\n" % (a, b)
        n = 0
        for o in go(rep, e, src, GSPEC, syms, {}, interest=watch, may_raise=no_raise, assume=either_way):
            if o.kind == "return" and o.value.k == "tup" and all(is_c(x, bool) for x in o.value.a):
                n += 1
                rep.ob("opposite", "both", o.value.a[0] != o.value.a[1], "grids are %s" % ("both equal and unequal" if o.value.a[0] == TRUE else "neither equal nor unequal"), last_site(o))
        rep.need(n, "equality is never decided")


AREAS = (
    ("[1, 1]", ((90, 0, -90, 359), (90, 0, -90, 360), (90, -180, -90, 179), (90, -180, -90, 180), (90, 360, -90, 719), (90, 180, -90, 539), (90, 0, -90, 358), (90, 0, -90, 180), (60, 0, -60, 359), (60, -180, -60, 179), (60, 0, -90, 359), (90, 0, -60, 359), (70, -20, 30, 40), (70, -20, 30, 41), (70, -21, 30, 40), (71, -20, 30, 40), (70, -20, 31, 40), (90, 0, -90, 100, 1), (90, 1, -90, 360))),
    ("[2.5, 2.5]", ((90, 0, -90, 357.5), (90, -180, -90, 177.5), (90, 0, -90, 359), (90, 0, -90, 355), (60, 0, -60, 357.5))),
    ("[0.1, 0.1]", ((90, 0, -90, 359.9), (90, -180, -90, 179.9), (90, 0, -90, 359.8), (90, 0.1, -90, 360), (60, 0.3, -60, 360.2), (60, -0.1, -60, 359.8))),
    ("'O32'", ((90, 0, -90, 360), (87.8638, 0, -87.8638, 357.5), (87.8638, -180, -87.8638, 177.5), (90, 0, -90, 357.1875), (85, 0, -85, 357.5), (60, 0, -60, 357.5), (87.8638, 0, 0, 357.5), (0, 0, -87.8638, 357.5), (70, -20, 30, 40), (70, -20, 30, 42.5), (60, 0, -60, 100, 1))),
    ("'N32'", ((90, 0, -90, 360), (87.8638, 0, -87.8638, 357.1875), (87.8638, -180, -87.8638, 177.1875), (90, 0, -90, 357.5), (85, 0, -85, 357.1875), (60, 0, -60, 357.1875), (70, -20, 30, 40))),
)


def same_points(grid, a, b):
    """Whether the same grid has the same points in two areas, None if that is not for the library to tell."""
    gg = grid[0] == "'"
    eps = 0.12 if gg else 1e-6
    if a[:4] == b[:4]:
        return True
    if all(abs(x - y) < eps for x, y in zip(a[:4], b[:4])):
        return True if all(abs(x - y) < 1e-9 for x, y in zip(a[:4], b[:4])) else None
    step = {"'O32'": 2.5, "'N32'": 2.8125}.get(grid) or float(grid[1:].split(",")[0])

    def all_round(x):
        span = (x[3] - x[1]) % 360
        return len(x) > 4 or span < 1e-6 or abs(360 - span) < 1e-6 or abs(360 - span - step) < 1e-6

    def all_high(x):
        return len(x) > 4 or (90 - x[0] < 2.5 and x[2] + 90 < 2.5)

    west = abs((a[1] - b[1] + 180) % 360 - 180) < eps
    if gg:
        return all_round(a) and all_round(b) and all_high(a) and all_high(b) and west
    return all_round(a) and all_round(b) and west and abs(a[0] - b[0]) < eps and abs(a[2] - b[2]) < eps


def numbers(a, st):
    """Increments of given numbers are compared as numpy does."""
    if a.k == "t" and a.a[0] == "truthy" and a.a[1].k == "t" and a.a[1].a[0] in ("numpy.allclose", "numpy.isclose", "numpy.array_equal"):
        f = a.a[1]
        v = [vector(x) for x in f.a[1:3]]
        kw = {x.a[0]: cval(x.a[1]) for x in f.a[3:] if x.k == "kw" and is_c(x.a[1])}
        if None not in v and len(v[0]) == len(v[1]):
            if f.a[0] == "numpy.array_equal":
                return v[0] == v[1]
            return all(abs(x - y) <= kw.get("atol", 1e-8) + kw.get("rtol", 1e-5) * abs(y) for x, y in zip(*v))
    return folded(a, st)


def vector(v):
    while v.k == "t" and v.a[0] in ("numpy.array", "numpy.asarray") and len(v.a) >= 2:
        v = v.a[1]
    if v.k == "t" and v.a[0] == "list":
        v = TUP(tuple(v.a[1:]))
    if v.k == "tup" and all(is_c(x) for x in v.a):
        return [cval(x) for x in v.a]
    return [cval(v)] if is_c(v) and not isinstance(cval(v), str) else None


def unnamed(o, first, eps):
    """Coordinates refuted together, without saying which."""
    for f, v in o.state.facts.items():
        if v is False and f.k == "t" and f.a[0] == "and":
            return True
    return False


def boolean(o):
    v = o.value
    if is_c(v, bool):
        return cval(v)
    if v.k == "t":
        f = o.state.facts.get(v if v.a[0] in ("eq", "lt", "truthy", "and", "or") else T("truthy", v))
        return f if isinstance(f, bool) else None
    return None


def folded(a, st):
    """Patterns of constant text, and plain numbers."""
    if a.k == "t" and a.a[0] == "truthy" and a.a[1].k == "t" and a.a[1].a[0] in (".match", ".fullmatch", ".search") and len(a.a[1].a) >= 3:
        m = a.a[1]
        pat, txt = m.a[1], m.a[2]
        if pat.k == "t" and pat.a[0] == "re.compile" and is_c(pat.a[1], str) and is_c(txt, str):
            return re_holds(cval(pat.a[1]), cval(txt), m.a[0][1:])
        if is_c(m.a[2], str) and txt.k == "sym":
            return None
        if txt.k == "sym" and pat.k == "t" and pat.a[0] == "re.compile":
            return "[OoNn]" in cval(pat.a[1])
    if a.k == "t" and a.a[0] == "isinstance" and a.a[1].k == "sym" and a.a[1].a[0] in ("x", "y", "t"):
        return a.a[2] == EXT("builtins.int")
    if a.k == "t" and a.a[0] == "isinstance" and a.a[1].k == "sym" and a.a[1].a[0][0] == "d":
        return a.a[2] in (EXT("builtins.int"), EXT("builtins.float"))
    return plainly(a, st)


def folded_ring(a, st):
    return folded(a, st)


def re_holds(pat, txt, how):
    return bool(getattr(re, how)(pat, txt))


def gaussian(rep, run):
    eps = 0.2
    for a in ("O32", "N32"):
        step = {"O32": 2.5, "N32": 2.8125}[a]
        for g1, g2 in (("", ""), (", 'global': 1", ""), (", 'global': 1", ", 'global': 1")):
            glob = {1: "1" in g1, 2: "1" in g2}
            for o, eq in run("{'grid': '%s', 'area': [n1, w1, s1, e1]%s}" % (a, g1), "{'grid': '%s', 'area': [n2, w2, s2, e2]%s}" % (a, g2), folded):
                al = Alike(o, {1: step, 2: step})
                four = all(al.near(q + "1", q + "2", True, eps) for q in "nwse")
                rnd = {i: glob[i] or bool(al.round_(i, True)) for i in (1, 2)}
                pol = {i: glob[i] or al.poles(i, True) for i in (1, 2)}
                if eq:
                    west = al.near("w1", "w2", True, eps, True)
                    rep.ob("round", a + " longitudes", four or al.unread() or (west and rnd[1] and rnd[2]), "areas with other longitudes are equal", last_site(o))
                    rep.ob("same", a + " latitudes", four or (pol[1] and pol[2]), "areas with other latitudes are equal", last_site(o))
                else:
                    miss = any(al.near(q + "1", q + "2", False, eps) for q in "nwse") or unnamed(o, "we", eps)
                    no = any(not glob[i] and ({"span", "step"} <= al.round_(i, False) or al.poles(i, False)) for i in (1, 2)) or al.near("w1", "w2", False, eps, True)
                    rep.ob("different", a, al.unread() or miss and no, "the same grid is different from itself", last_site(o))


def as_dict(d):
    """{key: value} of a plain structure."""
    if not (isinstance(d, tuple) and d[0] == "dict"):
        return None
    return {cval(k) if is_c(k) else k: v for k, v in d[1]}


def listed(x):
    return ("list", tuple(C(y) if not isinstance(y, V) else y for y in x))


@prop("U07")
def u07(rep):
    rep.rule("kind", "a grid is read as the kind its increments or its name stand for")
    rep.rule("unknown", "grids of no known kind are refused with ValueError")
    rep.rule("kept", "everything said about the grid is kept as it was said, and only what was not said is filled in")
    rep.rule("untouched", "what the caller described the grid with stays as it is")
    rep.rule("area", "a grid of increments without area is the whole globe, its own area is kept otherwise")
    rep.rule("table", "the areas listed for whole globes are those of grids that start at the poles, or next to them, and at the meridian")
    rep.rule("globe", "grids of the whole globe go all round")
    rep.rule("number", "the number in a grid's name is the number of the grid, and impossible ones are refused")
    e = rep.engine()
    syms = {k: SYM(k) for k in ("n", "w", "s", "e_", "x", "y", "dx1", "dy1", "t")}
    nm = {"GridSpec": "gridspec:GridSpec"}
    types = {"ll": "regular_ll", "gg": "reduced_gg", "hp": "healpix", "orca": "orca"}
    flags = {"i_scans_negatively": C(0), "j_points_consecutive": C(0), "j_scans_positively": C(0)}

    def read(d, more="", ass=folded):
        src = "def main():\n    d = %s\n    r = GridSpec.from_dict(d)\n    return (r, dict(r), d%s)\n" % (d, more)
        return go(rep, e, src, nm, syms, {}, interest=watch, may_raise=no_raise, assume=ass)

    def given_dict(d):
        src = "def main():\n    return %s\n" % d
        o = go(rep, e, src, nm, syms, {}, interest=watch)[0]
        return deep(e, o.state, o.value)

    classes = {}
    cases = [("'grid': [1, 1]", "ll"), ("'grid': (0.5, 0.25)", "ll"), ("'grid': [dx1, dy1], 'area': [n, w, s, e_]", "ll"), ("'grid': [5, 5], 'area': (n, w, s, e_)", "ll"), ("'grid': [5, 5], 'global': x", "ll"),
             ("'grid': [5, 5], 'shape': [x, y], 'j_scans_positively': t", "ll"), ("'grid': [5, 5], 'more': x", "ll"), ("'grid': 'O32'", "gg"), ("'grid': 'n32', 'area': [n, w, s, e_]", "gg"), ("'grid': 'o1280', 'shape': (x,)", "gg"),
             ("'grid': 'H32'", "hp"), ("'grid': 'h4', 'order': 'nested'", "hp"), ("'grid': 'H4', 'ordering': 'nested'", "hp"), ("'grid': 'ORCA025_T'", "orca"), ("'grid': 'eORCA12_U', 'more': x", "orca"), ("'grid': 'ORCA1_F'", "orca"), ("'grid': 'eORCA025_W', 'type': 'orca'", "orca"),
             ("'type': 'regular_ll', 'grid': [1, 1]", "ll"), ("'type': 'reduced_gg', 'grid': 'O32'", "gg"), ("'type': 'healpix', 'grid': 'H2'", "hp")]
    for d, k in cases:
        d = "{%s}" % d
        before = given_dict(d)
        want = as_dict(before)
        n = 0
        for o in read(d):
            if o.kind != "return":
                rep.ob("kind", d, False, "is refused: %s" % show(o.value, 4), last_site(o))
                continue
            n += 1
            inst, got, after = o.value.a[0], as_dict(deep(e, o.state, o.value.a[1])), deep(e, o.state, o.value.a[2])
            h = o.state.obj(inst)
            ok = h is not None and h.kind == "inst" and h.cls is not None
            rep.ob("kind", d, ok and got.get("type") == C(types[k]) and classes.setdefault(k, h.cls.qual) == h.cls.qual, "is read as %s" % plain(got.get("type", NONE)), last_site(o))
            rep.ob("untouched", d, after == before, "the description becomes %s" % plain(after)[:200], last_site(o))
            for key, val in want.items():
                if key == "ordering":
                    rep.ob("kept", d + " order", got.get("order") == val or got.get("ordering") == val, "the order becomes %s" % plain(got.get("order")), last_site(o))
                else:
                    rep.ob("kept", "%s: %s" % (d, key), got.get(key) == val, "%s becomes %s" % (key, plain(got.get(key))), last_site(o))
            for key, val in flags.items():
                if key not in want:
                    rep.ob("kept", "%s: default %s" % (d, key), got.get(key) == val, "%s is %s" % (key, plain(got.get(key))), last_site(o))
            allowed = set(want) | set(flags) | {"type", "area", "global", "order"}
            rep.ob("kept", d + " nothing else", set(got) <= allowed, "%s is added" % sorted(map(str, set(got) - allowed)), last_site(o))
            if "area" not in want and k != "orca":
                a = got.get("area")
                whole_ = isinstance(a, tuple) and a[0] == "list" and len(a[1]) == 4 and all(is_c(x) for x in a[1]) and cval(a[1][1]) == 0 and cval(a[1][0]) > 80 and cval(a[1][2]) == -cval(a[1][0]) and cval(a[1][3]) > 350
                rep.ob("area", d, whole_, "the area is %s" % plain(a), last_site(o))
        rep.need(n, "%s is never read" % d)
    rep.ob("kind", "told apart", len(set(classes.values())) == len(classes) == 4, "kinds share a class: %s" % classes)
    for g in ("''", "'O'", "'X32'", "'32'", "'1x1'", "'ORCA'", "'ORCA1'", "'orca1_X'", "'unstructured'", "'ORCA1_TX'", "'xORCA1_T'", "'O32x'", "'n32.5'", "'H8x'", "'O32/N32'", "[1]", "[1, 1, 1]", "[]", "5", "None", "{}"):
        for o in read("{'grid': %s}" % g):
            rep.ob("unknown", g, o.kind == "raise" and is_exc(o.value, "ValueError"), "gives %s" % show(o.value, 3), last_site(o))
    for t in ("'sh'", "'regular_gg'", "'lambert'", "''", "'REGULAR_LL'"):
        for o in read("{'grid': [1, 1], 'type': %s}" % t):
            rep.ob("unknown", "type " + t, o.kind == "raise" and is_exc(o.value, "ValueError"), "gives %s" % show(o.value, 3), last_site(o))
    # whole globes
    seen = 0
    for o in read("{'grid': [dx1, dy1]}", ", r.is_global_ew()"):
        if o.kind != "return":
            rep.ob("area", "any increments", False, "raises %s" % show(o.value, 3), last_site(o))
            continue
        seen += 1
        a = as_dict(deep(e, o.state, o.value.a[1])).get("area")
        hit = [x for f, v in o.state.facts.items() if v is True and f.k == "t" and f.a[0] == "eq" for x in f.a[1:] if x.k == "tup" and all(is_c(y) for y in x.a)]
        if hit:
            key = tuple(cval(y) for y in hit[0].a)
            globe(rep, "%s x %s" % key, key, a, last_site(o))
        else:
            rep.ob("area", "other increments", a == listed([90, 0, -90, 360]), "the area is %s" % plain(a), last_site(o))
        rep.ob("globe", "increments", o.value.a[3] == TRUE, "a grid without area does not go all round", last_site(o))
    rep.need(seen > 1, "the areas of whole globes are gone")
    for d, want in (("'grid': [5, 5], 'area': [90, 0, -90, 360]", True), ("'grid': [dx1, dy1], 'area': [n, w, s, e_], 'global': 1", True), ("'grid': 'O32', 'global': 1, 'area': [n, w, s, e_]", True), ("'grid': 'O32'", True), ("'grid': 'H8'", True)):
        for o in read("{%s}" % d, ", True if r.is_global_ew() else False"):
            rep.ob("globe", d, o.kind == "return" and o.value.a[3] == C(want), "goes all round: %s" % show(o.value, 2), last_site(o))
    for g in ("[1, 1.4]", "[0.8, 1]", "[0.5, 0.7]", "[1.6, 0.5]", "[1, 2]"):
        for o in read("{'grid': %s}" % g):
            a = as_dict(deep(e, o.state, o.value.a[1])).get("area") if o.kind == "return" else None
            if a != listed([90, 0, -90, 360]):
                globe(rep, g, tuple(float(x) for x in g[1:-1].split(",")), a, last_site(o))
    # reading one grid leaves nothing behind for the next
    pairs = [("{'grid': [1, 1], 'i_scans_negatively': 1, 'more': x}", "{'grid': [2, 2]}"), ("{'grid': [1, 1], 'area': [n, w, s, e_], 'shape': [x, y]}", "{'grid': [1, 1]}"), ("{'grid': 'H4', 'ordering': 'nested'}", "{'grid': 'H4'}"), ("{'grid': 'O32', 'global': 1, 'area': [n, w, s, e_]}", "{'grid': 'O64'}"), ("{'grid': 'ORCA1_F', 'more': x}", "{'grid': 'eORCA12_U'}"), ("{'grid': [5, 5]}", "{'grid': [5, 5], 'j_scans_positively': 1}")]
    for a, b in pairs:
        for first, then in ((a, b), (b, a)):
            alone = {deep(e, o.state, o.value.a[1]) for o in read(then) if o.kind == "return"}
            src = "def main():\n    GridSpec.from_dict(%s)\n    r = GridSpec.from_dict(%s)\n    return (r, dict(r))\n" % (first, then)
            for o in go(rep, e, src, nm, syms, {}, interest=watch, may_raise=no_raise, assume=folded):
                rep.ob("kept", "%s after %s" % (then, first), o.kind == "return" and deep(e, o.state, o.value.a[1]) in alone, "is read otherwise after another grid", last_site(o))
    # all round or not, by its own area
    for d, step in (("'grid': [dx1, dy1]", None), ("'grid': 'O32'", 2.5), ("'grid': 'N32'", 2.8125), ("'grid': 'n80'", 1.125)):
        s2 = dict(syms, n1=SYM("n1"), w1=SYM("w1"), s1=SYM("s1"), e1=SYM("e1"))
        src = "def main():\n    r = GridSpec.from_dict({%s, 'area': [n1, w1, s1, e1]})\n    return True if r.is_global_ew() else False\n" % d
        got = set()
        for o in go(rep, e, src, nm, s2, {}, interest=watch, may_raise=no_raise, assume=folded):
            al = Alike(o, {1: step} if step else {})
            ok = o.kind == "return" and is_c(o.value, bool)
            rep.ob("globe", d + " decided", ok, "gives %s" % show(o.value, 3), last_site(o))
            if not ok:
                continue
            got.add(cval(o.value))
            rnd = al.unread() or (bool(al.round_(1, True)) if cval(o.value) else {"span", "step"} <= al.round_(1, False))
            rep.ob("globe", d + " by its area", rnd, "an area is taken %s without looking at its width" % ("for the whole globe" if cval(o.value) else "not to go all round"), last_site(o))
        rep.ob("globe", d + " both", got == {True, False}, "is always %s" % got)
    for g, n, o_ in (("O32", 32, 1), ("n320", 320, 0), ("N1", 1, 0), ("o1280", 1280, 1), ("O1000000", 1000000, 1)):
        for o in read("{'grid': '%s'}" % g, ", r.N, r.octahedral"):
            rep.ob("number", g, o.kind == "return" and o.value.a[3] == C(n) and o.value.a[4] in (C(o_), C(bool(o_))), "is read as %s" % (show(o.value.a[3], 3) if o.kind == "return" else show(o.value, 3)), last_site(o))
    for g in ("H1", "h4", "H1024"):
        for o in read("{'grid': '%s'}" % g, ", r.N, r.order"):
            rep.ob("number", g, o.kind == "return" and o.value.a[3:] == (C(int(g[1:])), C("ring")), "is read as %s" % show(o.value, 3), last_site(o))
    for g, more in (("O0", "r.N"), ("N1000001", "r.N"), ("H0", "r.N"), ("H0", "r.order"), ("H1000001", "r.N")):
        for o in read("{'grid': '%s'}" % g, ", " + more):
            rep.ob("number", "%s %s" % (g, more), o.kind == "raise" and is_exc(o.value, "ValueError"), "is read as %s" % show(o.value, 3), last_site(o))
    for o in read("{'grid': 'H8', 'order': 'spiral'}", ", r.order"):
        rep.ob("number", "unknown order", o.kind == "raise" and is_exc(o.value, "ValueError"), "is accepted", last_site(o))


def globe(rep, what, key, a, site):
    ok = isinstance(a, tuple) and a[0] == "list" and len(a[1]) == 4 and all(is_c(x) for x in a[1])
    if ok:
        n, w, s, e_ = (cval(x) for x in a[1])
        dx, dy = key
        near = lambda p, q: abs(p - q) < 1e-6  # noqa: E731
        rows, cols = n / dy, e_ / dx
        ok = w == 0 and near(n, -s) and near(rows, round(rows)) and 90 - dy < n <= 90 and near(cols, round(cols)) and 360 - dx - 1e-6 < e_ < 360 - 1e-6
    rep.ob("table", what, ok, "the whole globe is %s" % plain(a), site)


ENTRY_GRIDS = {
    "regular_ll": ({"type": "regular_ll", "bbox": {k: k for k in ("north", "south", "east", "west")}, "increments": {"south_north": "sn", "west_east": "we"}, "ni": "ni", "nj": "nj"}, {"grid": ["we", "sn"], "shape": ["nj", "ni"], "area": ["north", "west", "south", "east"]}),
    "octahedral": ({"type": "reduced_gg", "bbox": {k: k for k in ("west", "south", "east", "north")}, "N": 32, "pl": [20, 24, 28]}, {"grid": "=O32", "shape": ["=72"], "area": ["north", "west", "south", "east"]}),
    "classic": ({"type": "reduced_gg", "bbox": {k: k for k in ("west", "south", "east", "north")}, "N": 80, "pl": [20, 25, 36, 40]}, {"grid": "=N80", "shape": ["=121"], "area": ["north", "west", "south", "east"]}),
    "healpix": ({"type": "healpix", "grid": "hp", "order": "od"}, {"grid": "hp", "order": "od"}),
    "orca": ({"type": "orca", "unstructuredGridType": "=ORCA025", "unstructuredGridSubtype": "=T"}, {"grid": "=ORCA025_T"}),
}


def tagged(x, tag, tree=False):
    """A description whose words are symbols of their own."""
    if isinstance(x, dict):
        return {k: tagged(v, tag) if k != "type" else v for k, v in x.items()}
    if isinstance(x, list):
        return [tagged(v, tag) for v in x]
    if isinstance(x, str):
        return x[1:] if x[0] == "=" else SYM(tag + x)
    return x


def shape_of(x):
    """As `deep` gives it, without the order of the keys."""
    if isinstance(x, tuple) and x and x[0] == "dict":
        return ("dict", frozenset((shape_of(k), shape_of(v)) for k, v in x[1]))
    if isinstance(x, tuple) and x and x[0] == "list":
        return ("list", tuple(shape_of(v) for v in x[1]))
    return x


def wanted(x, tag):
    if isinstance(x, dict):
        return ("dict", frozenset((C(k), wanted(v, tag)) for k, v in x.items()))
    if isinstance(x, list):
        return ("list", tuple(wanted(v, tag) for v in x))
    if isinstance(x, V):
        return x
    if isinstance(x, str) and x[:1] == "=":
        return C(int(x[1:])) if x[1:].isdigit() else C(x[1:])
    return SYM(tag + x) if isinstance(x, str) else C(x)


@prop("U03")
def u03(rep):
    rep.rule("found", "the weights lie where the readers of an inventory look for those of the entry added")
    rep.rule("name", "the name of the weights is derived from both grids and the interpolation, whole")
    rep.rule("source", "the weights are converted from the file the description names, and a failure adds nothing to the list")
    rep.rule("grids", "the entry describes the two grids, each in its own place, with all their numbers")
    rep.rule("entry", "the entry keeps the interpolation, the number of weights and their size in memory")
    rep.rule("list", "the entries that were there stay as they were, a new list has the known version, another version is refused with ValueError")
    rep.rule("flags", "the global flags are those given, unless the description has its own")
    e = rep.engine()
    cur = e.lookup("backends.db:VERSION")
    rep.need(cur is not None and cur.k == "c", "the known version is gone")
    src_, out_, idx_ = SYM("described", "str"), SYM("into", "str"), SYM("listed", "str")

    def models(entry, index, log):
        def load(e, st, recv, args, kw, fr, node):
            x = entry if contains(e.snap(st, args[0]), src_) else index
            return [(st, made(e, st, x, node, fr))]

        def dump(e, st, recv, args, kw, fr, node):
            e.emit(st, "dump", fr, node, doc=deep(e, st, args[0]), file=e.snap(st, args[1]) if len(args) > 1 else NONE)
            return [(st, NONE)]

        def dumps(e, st, recv, args, kw, fr, node):
            d = as_dict(deep(e, st, args[0]))
            if d is None or "matrix" not in d or "input" in d:
                return None
            e.emit(st, "dump", fr, node, doc=deep(e, st, args[0]), file=T("dumped"))
            return [(st, T("dumped"))]

        return {"json.load": load, "json.dump": dump, "json.dumps": dumps}

    def run(entry, index, call="", may=None, **syms):
        def convert(e, st, f, args, kw, fr, node):
            e.emit(st, "convert", fr, node, args=[e.snap(st, x) for x in list(args) + list(kw.values())])

        def conv(e, st, f, args, kw, fr, node):
            convert(e, st, f, args, kw, fr, node)
            if may:
                e.raise_(st, EXC(EXT("builtins.OSError"), C("!injected")), fr, node)
                return []
            return [(st, NONE)]

        s = "def main():\n    make_matrix(described, into%s)\n" % call
        return go(rep, e, s, {"make_matrix": "utils.builder:make_matrix"}, {"described": src_, "into": out_, "listed": idx_, **{k: SYM(k) for k in ("gi", "go_")}}, {"utils.mir.mir_cached_matrix_to_file": conv}, models=models(entry, index, None), interest=lambda ev, st, fr: ev.kind in ("dump", "convert") or watch(ev, st, fr), may_raise=no_raise, assume=hashed)

    inter = {"engine": SYM("engine"), "version": SYM("version"), "method": "linear"}
    inters = {"plain": inter, "options": {**inter, "lonweight": SYM("lw")}, "typed": {**inter, "method": {"type": "k-nearest", "nclosest": SYM("nc")}}, "box": {**inter, "method": "grid-box-average"}}
    old = {"version": cur, "matrix": {"before": {"input": SYM("old.in"), "output": SYM("old.out")}, "also": SYM("old.2")}}

    def entry(i="regular_ll", o="octahedral", inter=inter, **fl):
        d = {"input": tagged(ENTRY_GRIDS[i][0], "i."), "output": tagged(ENTRY_GRIDS[o][0], "o."), "interpolation": inter, "matrix": {"cache_file": SYM("cached"), "nnz": SYM("nnz"), "rows": SYM("rows")}}
        for k, v in fl.items():
            d[k]["global"] = v
        return d

    def added(o):
        """The list written: (file, version, {name: entry}), and the name added."""
        d = [ev for ev in o.events if ev.kind == "dump"]
        if len(d) != 1:
            return None
        top = as_dict(d[0].doc)
        mats = as_dict(top.get("matrix")) if top else None
        if mats is None:
            return None
        return d[0], top, mats, landed(o, d[0])

    for i in ENTRY_GRIDS:
        for o_ in ENTRY_GRIDS:
            if i != "regular_ll" and o_ not in ("regular_ll", "octahedral"):
                continue
            for nm, it in inters.items() if (i, o_) == ("regular_ll", "octahedral") else [("plain", inter)]:
                ent = entry(i, o_, it)
                sub = "%s to %s, %s" % (i, o_, nm)
                outs = run(ent, old, ", listed")
                rep.need(outs, "adding weights has no outcome")
                for o in outs:
                    if o.kind != "return":
                        rep.ob("entry", sub, False, "fails: %s" % show(o.value, 3), last_site(o))
                        continue
                    r = added(o)
                    rep.ob("list", sub + " written", r is not None, "the list is not written once", last_site(o))
                    if r is None:
                        continue
                    ev, top, mats, file = r
                    rep.ob("list", sub + " version", top.get("version") == cur, "the list has version %s" % plain(top.get("version")), ev.site)
                    rep.ob("list", sub + " file", contains(file, idx_), "the list is written to %s" % show(file, 3), ev.site)
                    there = any(a.k == "t" and a.a[0] in ("truthy",) and contains(a, idx_) and v is True for a, v in o.state.facts.items())
                    rest = {k: v for k, v in mats.items() if isinstance(k, V)}
                    rep.ob("list", sub + " new entry", len(rest) == 1, "%d entries are added" % len(rest), ev.site)
                    if there:
                        rep.ob("list", sub + " kept", {k: shape_of(v) for k, v in mats.items() if not isinstance(k, V)} == {k: wanted(v, "") for k, v in old["matrix"].items()}, "entries are lost or changed", ev.site)
                    else:
                        rep.ob("list", sub + " only", len(mats) == 1, "a new list has other entries", ev.site)
                    if len(rest) != 1:
                        continue
                    (key, x), = rest.items()
                    x = as_dict(x)
                    for side, kind, tag in (("input", i, "i."), ("output", o_, "o.")):
                        rep.ob("grids", "%s %s" % (side, kind), shape_of(x.get(side)) == wanted(ENTRY_GRIDS[kind][1], tag), "the %s grid is %s" % (side, plain(x.get(side))[:200]), ev.site)
                        leaf = {y for y in syms_of(ent[side])}
                        miss = [y for y in leaf if not carries(key, y)]
                        rep.ob("name", side, not miss, "the name does not depend on %s" % sorted(str(y.a[0]) for y in miss), ev.site)
                    got_i = as_dict(x.get("interpolation")) or {}
                    for k, v in it.items():
                        rep.ob("entry", "interpolation " + nm, shape_of(got_i.get(k)) == wanted(keep(v), ""), "%s becomes %s" % (k, plain(got_i.get(k))[:100]), ev.site)
                    miss = [y for y in syms_of(it) if not carries(key, y)]
                    rep.ob("name", "interpolation", not miss, "the name does not depend on %s" % sorted(str(y.a[0]) for y in miss), ev.site)
                    rep.ob("name", "whole", whole_digest_(key), "the name is %s" % show(key, 3), ev.site)
                    rep.ob("entry", "weights", x.get("nnz") == SYM("nnz"), "the number of weights is %s" % plain(x.get("nnz")), ev.site)
                    cv = [y for y in o.events if y.kind == "convert"]
                    rep.ob("source", "once", len(cv) == 1 and cv[0].args[0] == SYM("cached"), "converts %s" % [show(y.args[0], 3) for y in cv], last_site(o))
                    if len(cv) == 1:
                        place = cv[0].args[1]
                        rep.ob("found", sub, place_ok(rep, e, place, out_, it, key), "the weights go to %s" % show(place, 5), cv[0].site)
                        mem = x.get("memory")
                        ok = isinstance(mem, V) and {"data", "indices", "indptr"} <= {cval(y.a[2]) for y in walk(mem) if y.k == "t" and y.a[0] == "attr" and is_c(y.a[2], str)} and contains(mem, place)
                        rep.ob("entry", "memory", ok, "the size in memory is %s" % (show(mem, 4) if isinstance(mem, V) else mem), ev.site)
    u03_rest(rep, e, run, entry, old, cur, added, out_)


def hashed(a, st):
    """A digest is no name of a method."""
    if a.k == "t" and a.a[0] == "eq" and any(x.k == "t" and x.a[0] == "digest" for x in a.a[1:]) and any(x.k == "c" for x in a.a[1:]):
        return False
    return known(a, st)


def keep(x):
    return {k: keep(v) for k, v in x.items()} if isinstance(x, dict) else C(x) if isinstance(x, str) else x


def syms_of(x):
    if isinstance(x, dict):
        return [z for y in x.values() for z in syms_of(y)]
    if isinstance(x, list):
        return [z for y in x for z in syms_of(y)]
    return [x] if isinstance(x, V) and x.k == "sym" else []


def whole_digest_(k):
    return k.k == "t" and k.a[0] == "digest"


def place_ok(rep, e, place, out_, inter, key):
    """Is this path out_/<directory of the entry>/<name>.npz, as the readers' MatrixIndex has it?"""
    it = "{%s}" % ", ".join("%r: %s" % (k, "eng" if k == "engine" else "ver" if k == "version" else repr(v) if isinstance(v, str) else "{'type': %r}" % v["type"]) for k, v in inter.items() if k in ("engine", "version", "method"))
    src = "import os\ndef main():\n    return os.path.join(into, MatrixIndex.matrix_path({'interpolation': %s, '_name': key}))\n" % it
    o = go(rep, e, src, {"MatrixIndex": "backends.db:MatrixIndex"}, {"into": out_, "key": key, "eng": SYM("engine"), "ver": SYM("version")}, {}, may_raise=no_raise)
    return len(o) == 1 and o[0].kind == "return" and segments(as_path(place)) == segments(as_path(o[0].value))


def segments(v):
    """A path as a flat tuple of its texts."""
    if v.k == "t" and v.a[0] in ("os.path.join", "fstr", "bin:Add", "str", "builtins.str"):
        out = []
        for i, x in enumerate(v.a[1:]):
            if v.a[0] == "os.path.join" and i:
                out.append("/")
            out += segments(x)
        return glue(out)
    if is_c(v, str):
        return [y for y in re.split("(/)", cval(v)) if y]
    return [v]


def glue(x):
    out = []
    for y in x:
        if isinstance(y, str) and out and isinstance(out[-1], str) and "/" not in (y, out[-1]):
            out[-1] += y
        else:
            out.append(y)
    return out


def u03_rest(rep, e, run, entry, old, cur, added, out_):
    # lists of other versions
    for nm, ver in (("another", C(cval(cur) + 1)), ("none", None), ("text", C(str(cval(cur))))):
        d = {**old, "version": ver}
        if ver is None:
            d.pop("version")
        for o in run(entry(), d, ", listed"):
            there = any(a.k == "t" and contains(a, SYM("listed", "str")) and v is True for a, v in o.state.facts.items())
            if there:
                rep.ob("list", "version " + nm, o.kind == "raise" and is_exc(o.value, "ValueError") and not [1 for ev in o.events if ev.kind == "dump"], "a list of another version is changed", last_site(o))
    # without a list
    for o in run(entry(), old):
        r = added(o) if o.kind == "return" else None
        rep.ob("list", "default", r is not None and segments(r[3]) == [out_, "/", "index.json"], "the list goes elsewhere", last_site(o))
    # failures
    for o in run(entry(), old, ", listed", may=True):
        rep.ob("source", "failure", o.kind == "raise" and not [1 for ev in o.events if ev.kind == "dump"], "weights that were not made are added to the list", last_site(o))
    # global flags
    for a, side, tag in (("global_input", "input", "i."), ("global_output", "output", "o.")):
        for val, want in (("True", C(1)), ("False", C(0)), ("None", None), (None, None)):
            for own in (None, C(0), C(1), SYM("own")):
                ent = entry("regular_ll", "octahedral", **({side: own} if own is not None else {}))
                w = own if own is not None else want
                for o in run(ent, old, ", listed" + (", %s=%s" % (a, val) if val else "")):
                    r = added(o) if o.kind == "return" else None
                    if r is None:
                        rep.ob("flags", side, False, "fails", last_site(o))
                        continue
                    x = next((as_dict(v) for k, v in r[2].items() if isinstance(k, V)), {})
                    for s2 in ("input", "output"):
                        g = (as_dict(x.get(s2)) or {}).get("global")
                        exp = w if s2 == side else None
                        rep.ob("flags", "%s %s=%s, own %s" % (s2, a, val, own is not None), g == exp or (exp is not None and exp.k == "c" and g == C(bool(cval(exp)))), "the flag is %s" % plain(g), r[0].site)


def landed(o, ev):
    """The file a document was written to in the end."""
    f = ev.file
    if f == T("dumped"):
        f = next((x.recv for x in o.events if x.kind == "call" and x.name in (".write", ".write_text") and T("dumped") in x.args), f)
    f = as_path(unopen(f))
    for x in o.events[o.events.index(ev) :]:
        if x.kind == "call" and x.name in ("os.replace", "os.rename", "shutil.move") and as_path(x.args[0]) == f:
            f = as_path(x.args[1])
        elif x.kind == "call" and x.name in (".replace", ".rename") and x.recv is not None and as_path(x.recv) == f:
            f = as_path(x.args[0])
    return f


def unopen(v):
    for x in walk(v):
        if x.k == "t" and x.a[0] in ("builtins.open", "open", ".open"):
            return x.a[1]
    return v


KI = {u: 1024 ** (i + 1) for i, u in enumerate("KMGTP")}
UNITS = {
    "as_bytes": {**KI, **{u.lower(): n for u, n in KI.items()}},
    "as_seconds": {"s": 1, "m": 60, "h": 3600, "d": 86400, "w": 7 * 86400},
    "as_percent": {"%": 1},
}


@prop("U04")
def u04(rep):
    rep.rule("plain", "a number without unit is that number, given as a number or as text")
    rep.rule("unit", "a number with a unit is that number of that unit, however it is spaced")
    rep.rule("wrong", "a unit that does not belong to the quantity, or what is no number, raises ValueError")
    rep.rule("none", "nothing is nothing where that is allowed, and ValueError otherwise")
    rep.rule("shown", "a size is shown with its sign and the unit it is counted in")
    e = rep.engine()

    def run(f, arg, kw="", **syms):
        outs = go(rep, e, "def main():\n    return f(%s%s)\n" % (arg, kw), {"f": "utils.humanize:" + f}, syms, {"utils.humanize.bytes": lambda *a: None}, interest=watch, may_raise=no_raise)
        rep.need(outs, "%s has no outcome" % f)
        return outs

    def value(rule, sub, outs, want):
        for o in outs:
            ok = o.kind == "return" and o.value.k == "c" and cval(o.value) == want and (want is None) == (o.value == NONE) and not (isinstance(want, int) and isinstance(cval(o.value), bool))
            rep.ob(rule, sub, ok, "gives %s instead of %r" % (show(o.value, 3), want), last_site(o))

    def refused(rule, sub, outs):
        for o in outs:
            rep.ob(rule, sub, o.kind == "raise" and is_exc(o.value, "ValueError"), "gives %s" % show(o.value, 3), last_site(o))

    every = sorted({u for t in UNITS.values() for u in t})
    for f, table in UNITS.items():
        rep.need(e.lookup("utils.humanize:" + f) is not None, "%s is gone" % f)
        for n in (0, 1, 7, 10, 1024, 10**15):
            for t in (n, str(n), " %d " % n, "%d\n" % n):
                value("plain", "%s(%r)" % (f, t), run(f, repr(t)), n)
            for u in every:
                for t in ("%d%s" % (n, u), " %d %s " % (n, u), "%d\t%s" % (n, u)):
                    if u in table:
                        value("unit", "%s of %s" % (f, u), run(f, repr(t)), n * table[u])
                    else:
                        refused("wrong", "%s of %s" % (f, u), run(f, repr(t)))
        for t in ("", " ", "x", "-1", "-5K", "1.5", "1e3", "ten", "K", "%", "5 5 K", "K5", "1,000", "+", "0x10", -1, -1024):
            refused("wrong", "%s(%r)" % (f, t), run(f, repr(t)))
        for nm, kw in (("allowed", ", none_ok=True"), ("not allowed", ", none_ok=False"), ("not said", "")):
            (value("none", "%s %s" % (f, nm), run(f, "None", kw), None) if "True" in kw else refused("none", "%s %s" % (f, nm), run(f, "None", kw)))
        for kw in (", none_ok=True", ", name='an option', none_ok=True"):
            value("plain", "%s allowed nothing" % f, run(f, "'12'", kw), 12)
        # whatever the text, what is not understood is refused
        for o in run(f, "v", v=SYM("v", "str")):
            if o.kind == "raise":
                rep.ob("wrong", f + " of any text", is_exc(o.value, "ValueError"), "raises %s" % exc_name(o.value), last_site(o))
            else:
                rep.ob("plain", f + " of any text", contains(o.value, SYM("v", "str")) and not (o.value.k == "sym"), "gives %s whatever the text" % show(o.value, 3), last_site(o))
    # sizes for people
    for i, u in enumerate(("", " KiB", " MiB", " GiB", " TiB", " PiB", " EiB", " ZiB", " YiB")):
        for n, t in ((1, "1"), (2, "2"), (1.5, "1.5"), (1000, "1000"), (3.25, "3.3"), (999, "999")):
            if i == 0 and isinstance(n, float):
                continue
            for sign in (1, -1):
                x = int(n * 1024**i) * sign
                value("shown", "%s%s" % ("-" if sign < 0 else "", u or " B"), run("bytes", str(x)), ("-" if sign < 0 else "") + t + u)
    for n, t in ((0, "0"), (1023, "1023"), (1024, "1 KiB"), (1025, "1 KiB"), (4000, "3.9 KiB"), (1048575, "1024 KiB")):
        value("shown", "%d" % n, run("bytes", str(n)), t)



@prop("U05")
def u05(rep):
    rep.rule("stale", "a cached copy is fetched again only if the server says it changed and the settings or the caller ask for it, and always then")
    rep.rule("asked", "the caller's own decision to fetch again, or not, is followed")
    rep.rule("target", "what is fetched is written where the cache asks, once, and what the server said about it is kept with it")
    rep.rule("local", "a file that is already on this machine is used in place")
    rep.rule("options", "the caller's options and the timeout of the configuration reach the download, each in its own place")
    rep.rule("path", "the path returned is that of the cached file")
    e = rep.engine()
    rep.need(e.lookup("utils.download:download_and_cache") is not None, "download_and_cache is gone")
    DL = SYM("downloader", "obj")
    OPT = ("verify", "chunk_size", "range_method", "http_headers", "fake_headers", "maximum_retries", "retry_after", "progress_bar")

    def run(call, cfg=None, ood=None, here=NONE, own=None, **syms):
        """cache_file decides with what it is given, then creates; the outcome is (decision, what create gave)."""

        def cf(e, st, f, args, kw, fr, node):
            d = named(f, args, kw)
            snap = {k: e.snap(st, v) for k, v in d.items()}
            e.emit(st, "mark", fr, node, name="cache_file", args=[], opts=snap)
            force, create, ar = d.get("force", NONE), d.get("create", NONE), d.get("args", NONE)
            out = []
            res = [(st, force)]
            if force.k in ("fn", "ext", "bm") or e.resolve(force, st).k == "fn":
                keep = NONE if own is None else e.new(st, H("dict", None, {}, (("k", C("etag"), SYM("etag")),)), node, fr)
                res = e.call(force, [ar, T("path"), keep], {}, st, fr, node)
            for s, r in res:
                e.emit(s, "mark", fr, node, name="decided", args=[e.snap(s, r)], opts={"own": own})
                for s2, r2 in e.call(create, [T("target"), ar], {}, s, fr, node):
                    e.emit(s2, "mark", fr, node, name="made", args=[e.snap(s2, r2)], opts={})
                    out.append((s2, T("cached")))
            return out

        def conf(e, st, f, args, kw, fr, node):
            k = e.resolve(args[1], st) if len(args) > 1 else kw.get("name")
            v = (cfg or {}).get(cval(k)) if k is not None and k.k == "c" else None
            return [(st, T("cfg", k) if v is None else C(v))]

        def made_(e, st, recv, args, kw, fr, node):
            e.emit(st, "mark", fr, node, name="downloader", args=[e.snap(st, a) for a in args], opts={k: e.snap(st, v) for k, v in kw.items()})
            return [(st, DL)]

        def says(name, value):
            def m(e, st, recv, args, kw, fr, node):
                if recv != DL:
                    return None
                e.emit(st, "mark", fr, node, name=name, args=[e.snap(st, a) for a in args], opts={})
                return [(st, value)]

            return m

        models = {"multiurl.Downloader": made_, ".local_path": says("local_path", here), ".extension": says("extension", SYM("ext", "str")), ".download": says("download", SYM("size")), ".cache_data": says("cache_data", SYM("server")),
                  ".out_of_date": says("out_of_date", SYM("changed") if ood is None else C(ood))}
        src = "def main():\n    return f(%s)\n" % call
        outs = go(rep, e, src, {"f": "utils.download:download_and_cache"}, {"url": SYM("url", "str"), "parts": SYM("parts"), **syms}, {"utils.caching.cache_file": cf, "utils.config.Config.get": conf}, interest=watch_all, may_raise=no_raise, models=models, assume=given)
        rep.need(outs, "a download has no outcome")
        return outs

    def marks(o, name):
        return [ev for ev in o.events if ev.kind == "mark" and ev.name == name]

    # stale copies
    for check in (True, False):
        for auto in (True, False):
            for upd in (True, False, None):
                for ood in (True, False):
                    for own in (None, 1):
                        kw = "" if upd is None else ", update_if_out_of_date=%r" % upd
                        want = check and ood and (auto or bool(upd))
                        sub = "check %s, download %s, caller %s, changed %s" % (check, auto, upd, ood)
                        for o in run("url" + kw, {"check-out-of-date-urls": check, "download-out-of-date-urls": auto}, ood, own=own):
                            d = marks(o, "decided")
                            ok = o.kind == "return" and len(d) == 1
                            rep.ob("stale", sub, ok, "the cache is not asked (%s)" % show(o.value, 2), last_site(o))
                            if not ok:
                                continue
                            v = truth(d[0].args[0])
                            rep.ob("stale", sub, v == want, "a cached copy is %s" % ("fetched again" if v else "kept" if v is False else "used if %s" % show(d[0].args[0], 2)), last_site(o))
                            q = marks(o, "out_of_date")
                            rep.ob("stale", sub + ": asked", all(x.args[:1] == [T("path")] and len(x.args) == 2 and (NONE == x.args[1]) == (own is None) for x in q), "the server is asked about something else than the cached copy", last_site(o))
                            rep.ob("stale", sub + ": quiet", check or not q, "the server is asked although that is switched off", last_site(o))
    # the caller decides
    for text, syms in (("True", {}), ("False", {}), ("mine", {"mine": SYM("mine", "callable")})):
        for o in run("url, force=%s" % text, {"check-out-of-date-urls": True, "download-out-of-date-urls": True}, True, **syms):
            m = marks(o, "cache_file")
            want = syms.get("mine", C(text == "True"))
            rep.ob("asked", text, len(m) == 1 and m[0].opts.get("force") == want, "the cache is told %s" % (show(m[0].opts.get("force", NONE), 2) if m else "nothing"), last_site(o))
    # what is written, and where
    for call, n in (("url", "plain"), ("url, parts=parts", "parts"), ("url, owner=owner_, parts=parts, http_headers=hd", "more")):
        for o in run(call, owner_=SYM("owner", "str"), hd=SYM("hd")):
            sub = "download with " + n
            dl, cd, mk, md = marks(o, "download"), marks(o, "cache_data"), marks(o, "made"), marks(o, "cache_file")
            rep.ob("target", sub, len(dl) == 1 and dl[0].args[:1] == [T("target")], "%d downloads are made%s" % (len(dl), ", not to the file asked for" if dl else ""), last_site(o))
            rep.ob("target", sub + ": kept", len(mk) == 1 and mk[0].args[0] == SYM("server"), "what is kept with the file is %s" % (show(mk[0].args[0], 2) if mk else "nothing"), last_site(o))
            rep.ob("target", sub + ": after", bool(dl and cd) and all(o.events.index(x) > o.events.index(dl[-1]) for x in cd), "the server's answer is read before the download", last_site(o))
            rep.ob("path", sub, o.kind == "return" and o.value == T("cached"), "returns %s" % show(o.value, 2), last_site(o))
            rep.ob("path", sub + ": extension", len(md) == 1 and md[0].opts.get("extension") == SYM("ext", "str"), "the extension is not that of the address", last_site(o))
            ow = md[0].opts.get("owner") if md else None
            rep.ob("path", sub + ": owner", ow == (SYM("owner", "str") if "owner" in call else C("url")), "the owner is %s" % show(ow or NONE, 2), last_site(o))
    # files of this machine
    for o in run("url", here=SYM("here", "str")):
        rep.ob("local", "path", o.kind == "return" and o.value == SYM("here", "str"), "gives %s" % show(o.value, 2), last_site(o))
        rep.ob("local", "in place", not marks(o, "cache_file") and not marks(o, "download"), "the file is copied into the cache", last_site(o))
    for o in run("url"):
        rep.ob("local", "remote", len(marks(o, "cache_file")) == 1, "the file is not cached", last_site(o))
    # options
    for sel in (OPT,) + tuple((x,) for x in OPT) + ((),):
        syms = {"o_" + x: SYM("o_" + x) for x in OPT}
        for o in run("url, parts=parts" + "".join(", %s=o_%s" % (x, x) for x in sel), **syms):
            m = marks(o, "downloader")
            rep.ob("options", "one", len(m) == 1, "%d downloads are set up" % len(m), last_site(o))
            for x in m:
                got = dict(x.opts)
                if x.args:
                    got["url"] = x.args[0]
                rep.ob("options", "address", got.get("url") == SYM("url", "str") and len(x.args) <= 1, "the address fetched is %s" % show(got.get("url", NONE), 2), x.site)
                rep.ob("options", "parts", got.get("parts") == SYM("parts"), "the parts fetched are %s" % show(got.get("parts", NONE), 2), x.site)
                rep.ob("options", "timeout", got.get("timeout") == T("cfg", C("url-download-timeout")), "the timeout is %s" % show(got.get("timeout", NONE), 2), x.site)
                for k in OPT:
                    if k in sel:
                        rep.ob("options", k, got.get(k) == SYM("o_" + k), "%s is %s" % (k, show(got.get(k, NONE), 2)), x.site)
                    else:
                        rep.ob("options", k + " by default", not any(contains(got.get(k, NONE), SYM("o_" + y)) for y in OPT), "%s takes the place of another option" % k, x.site)
                if "verify" not in sel:
                    rep.ob("options", "certificates", got.get("verify", TRUE) == TRUE, "certificates are not verified unless asked for", x.site)


def watch_all(ev, st, fr):
    return ev.kind in WATCH | {"mark"} and ev.kind != "branch"


def truth(v):
    return bool(cval(v)) if v.k == "c" else None if v.k != "c" and v != NONE else False
