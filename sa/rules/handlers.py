"""What is done with the caller's data: A01..A06, and the options given to MIR: B02."""

from ..core import *  # noqa
from ..values import *  # noqa
from ..values import C, EXC, EXT, FALSE, H, NONE, REF, SYM, T, TRUE, TUP, V
from . import prop
from .lookup import GS, KINDS, go, named

WATCH = KINDS | {"aug", "apply", "backend", "extset"}
MUTATORS = {
    ".append", ".extend", ".insert", ".pop", ".popitem", ".remove", ".clear", ".update", ".setdefault", ".sort", ".reverse",
    ".resize", ".fill", ".itemset", ".setflags", ".partition", ".put", ".setfield", ".write", ".truncate", ".seek",
    ".assign", ".rename_", "numpy.copyto", "numpy.put", "numpy.place", "numpy.putmask", "numpy.fill_diagonal", "numpy.random.shuffle",
    ".__setitem__", ".__delitem__", ".__setattr__", ".__iadd__", ".__imul__", ".set_values", ".setncattr",
}
MUTATORS -= {".assign", ".rename_", ".seek", ".write"}
VIEWS = {".reshape", ".ravel", ".view", ".T", ".transpose", ".squeeze", ".swapaxes", "getitem", "item", "numpy.reshape", "numpy.ravel", "numpy.asarray", "numpy.atleast_1d", "numpy.atleast_2d", "numpy.squeeze", ".flat", ".real", ".imag", ".attrs", ".coords", ".data_vars", ".dims", ".values", ".data", "numpy.ascontiguousarray", "numpy.asanyarray", ".sizes", ".variables", ".encoding"}
STUBS = """
import earthkit.data
import xarray
class DS(earthkit.data.FieldList):
    def __init__(self, items):
        self._stub_items_ = items
    def from_fields(self, r):
        return DS(tuple(r))
    def from_numpy(self, a, m):
        return DS((("field", a, m),))
    def __getitem__(self, i):
        return self._stub_items_[i]
    def __add__(self, o):
        return DS(self._stub_items_ + o._stub_items_)
    def __iadd__(self, o):
        return DS(self._stub_items_ + o._stub_items_)
    def append(self, o):
        self._stub_items_ = self._stub_items_ + o._stub_items_
class F(earthkit.data.Field):
    pass
"""

XSTUBS = """
class DA(xarray.DataArray):
    attrs = {}
    sizes = {"t": 1, "latitude": 2, "longitude": 3}
    dims = ("t", "latitude", "longitude")
    dtype = "dtype"
    def __init__(self, name="da"):
        self.name = name
        self.attrs = {"gridspec": gspec}
class XS(xarray.Dataset):
    sizes = {"t": 1, "latitude": 2, "longitude": 3}
    dims = ("t", "latitude", "longitude")
    def __init__(self):
        self.attrs = {"gridspec": gspec}
        self.data_vars = {"one": DA("one"), "two": DA("two")}
        self._stub_items_ = ("one", "two")
    def __getitem__(self, k):
        return self.data_vars[k]
    def keys(self):
        return self.data_vars.keys()
    def items(self):
        return self.data_vars.items()
"""


def watch(ev, st, fr):
    return ev.kind in WATCH


def quiet(ev, st, fr):
    return ev.kind in WATCH and ev.kind != "branch"


def view_root(v):
    """The caller's object a value is, or looks into."""
    while v.k == "t" and (v.a[0] in VIEWS or v.a[0] == "attr") and len(v.a) > 1 and isinstance(v.a[1], V):
        v = v.a[1]
    return v


def changes(o, names, refs=()):
    """Places where a caller's object is changed."""
    out = []

    def own(x):
        if not isinstance(x, V):
            return False
        r = view_root(x)
        return (r.k == "sym" and r.a[0] in names) or r in refs

    for ev in o.events:
        if ev.kind == "aug" and own(ev.target):
            out.append(ev)
        elif ev.kind in ("setattr", "extset", "setitem", "delitem", "mut") and own(ev.obj):
            out.append(ev)
        elif ev.kind == "call":
            kw = ev.kwargs or {}
            if ev.name in MUTATORS and (own(ev.recv) if ev.recv is not None else ev.args and own(ev.args[0])):
                out.append(ev)
            elif "out" in kw and own(kw["out"]):
                out.append(ev)
            elif ev.name in ("numpy.nan_to_num",) and kw.get("copy") == FALSE and own(ev.args[0]):
                out.append(ev)
            elif ev.name == ".byteswap" and TRUE in list(ev.args) + list(kw.values()) and own(ev.recv):
                out.append(ev)
    return out


def stub_backend(kind="mir"):
    """A backend that only notes what it is asked for."""
    cls = {"mir": "backends.mir:MirBackend", "precomputed": "backends.precomputed:MatrixBackend"}

    def maker(e, st, f, args, kw, fr, node):
        a = [e.snap(st, x) for x in args if not (x.k == "ref" and e.state0.obj(x) is not None and e.state0.obj(x).kind == "inst")]
        e.emit(st, "backend", fr, node, name="backend", args=a, kwargs={k: e.snap(st, v) for k, v in kw.items()})
        k = cval(a[0]) if a and is_c(a[0], str) and cval(a[0]) in cls else kind
        return [(st, e.new(st, H("inst", e.lookup(cls[k]).a[0], {}), node, fr))]

    def apply(way):
        def ap(e, st, f, args, kw, fr, node):
            d = named(f, args, kw)
            d.pop("self", None)
            given = set(kw) | set(list(d)[: len(args) - 1])
            d = {k: e.snap(st, v) for k, v in d.items()}
            e.emit(st, "apply", fr, node, name=way, args=[], opts={k: v for k, v in d.items() if k in given or k in ("values", "message", "in_grid", "out_grid", "grid")}, all=d)
            n = C(sum(1 for ev in st.ev if ev.kind == "apply"))
            src = d.get("values", d.get("message", NONE))
            if way == "regrid":
                return [(st, TUP((T("res", src, n), T("made", d.get("out_grid", NONE), n))))]
            return [(st, T("res", src, n))]

        return ap

    return {
        "backends.BackendMaker.__call__": maker,
        "backends.mir.MirBackend.regrid": apply("regrid"),
        "backends.mir.MirBackend.regrid_grib": apply("grib"),
        "backends.precomputed.MatrixBackend.regrid": apply("regrid"),
        "backends.precomputed.MatrixBackend.interpolate": apply("interpolate"),
    }


def loaded(*mods):
    """Which optional modules the caller has imported."""

    def assume(a, st):
        if a.k == "t" and a.a[0] == "in" and len(a.a) == 3 and is_c(a.a[1], str) and has_ext(a.a[2], "sys.modules"):
            return cval(a.a[1]) in mods
        from .lookup import known

        return known(a, st)

    return assume


def has_ext(v, name):
    return any(x.k == "ext" and x.a[0] == name for x in walk(v)) or any(is_c(x, str) and cval(x) == name for x in walk(v)) or v == EXT(name)


def items_of(o, v):
    """A mapping of the caller, as plain pairs."""
    h = o.state.obj(v)
    if h is None or h.kind != "dict":
        return None
    return {(cval(i[1]) if i[1].k == "c" else i[1]): i[2] for i in h.items if i[0] == "k"}


REGRID = {"regrid": "regrid:regrid", "aregrid": "array.regrid:regrid", "interpolate": "interpolate:interpolate"}
BASE = {"b": SYM("b", "str"), "i": SYM("i", "str"), "inv": SYM("inv", "str"), "dist": SYM("dist"), "v": SYM("v"), "gi": SYM("gi"), "go": SYM("go"), "gspec": SYM("gspec")}


def new_list(e, st, items, fr, node):
    cls = st.get(e.modules["%%drv%d" % (e._ndrv - 1)]).f["DS"].a[0]
    return e.new(st, H("inst", cls, {"_stub_items_": items}), node, fr)


def x_from_fields(e, st, recv, args, kw, fr, node):
    seq = e.concrete_iter(st, args[0]) if args else None
    return None if seq is None else [(st, new_list(e, st, TUP(tuple(seq)), fr, node))]


def x_list(e, st, recv, args, kw, fr, node):
    return [(st, new_list(e, st, TUP(()), fr, node))] if not args else None


def x_ufunc(e, st, recv, args, kw, fr, node):
    da = args[1] if len(args) > 1 else NONE
    h = st.obj(da)
    tag = h.f.get("name") if h is not None and h.kind == "inst" else e.snap(st, da)
    kw2 = {k: e.snap(st, v) for k, v in kw.items()}
    for k in ("input_core_dims", "output_core_dims", "exclude_dims", "dask_gufunc_kwargs", "output_dtypes"):
        if k in kw:
            kw2[k] = deep(e, st, kw[k])
    out = []
    e.emit(st, "ufunc", fr, node, name="ufunc", args=[tag], opts=kw2)
    for s, r in e.call(args[0], [T("block", tag)], {}, st, fr, node):
        out.append((s, T("ufunc", tag, e.snap(s, r))))
    return out


def deep(e, st, v, insts=False):
    """A value of the caller's making, as a plain structure."""
    h = st.obj(v)
    if v.k == "tup":
        return ("list", tuple(deep(e, st, x, insts) for x in v.a))
    if h is not None and h.kind in ("list", "set"):
        x = tuple(deep(e, st, y, insts) for y in h.items)
        return (h.kind, x if h.kind == "list" else frozenset(x))
    if h is not None and h.kind == "dict":
        return ("dict", tuple((deep(e, st, i[1], insts), deep(e, st, i[2], insts)) if i[0] == "k" else ("...", i[1]) for i in h.items))
    if insts and h is not None and h.kind == "inst":
        return ("inst", tuple(sorted((k, deep(e, st, x, True)) for k, x in h.f.items())))
    return v


XMODELS = {"xarray.apply_ufunc": x_ufunc, "earthkit.data.FieldList.from_fields": x_from_fields, "earthkit.data.FieldList": x_list}
WATCH = WATCH | {"ufunc"}


@prop("A05")
def a05(rep):
    rep.rule("backend", "the backend asked for is the one named, with the inventory given and nothing else")
    rep.rule("roles", "the values, the source grid and the target grid each reach the backend in their own place")
    rep.rule("options", "every other option reaches the backend under its own name, with the value given, and none is made up")
    rep.rule("result", "what the backend returns is returned, once and unchanged")
    e = rep.engine()
    for inv in ("", ", inventory=inv"):
        for opts in ("", ", distance=dist", ", nclosest=dist, nearest_method=i"):
            for bk in ("mir", "precomputed"):
                if bk == "precomputed" and opts:
                    continue
                src = STUBS + "def main():\n    return aregrid(v, gi, go, interpolation=i, backend=b%s%s)\n" % (inv, opts)
                n = 0
                for o in go(rep, e, src, REGRID, BASE, stub_backend(bk), interest=watch, assume=loaded()):
                    if o.kind != "return":
                        rep.ob("result", "arrays", False, "raises %s" % exc_name(o.value), last_site(o))
                        continue
                    n += 1
                    check_backend(rep, o, inv)
                    ap = [ev for ev in o.events if ev.kind == "apply"]
                    rep.ob("result", "arrays, asked once", len(ap) == 1, "the backend is asked %d times" % len(ap), last_site(o))
                    if len(ap) != 1:
                        continue
                    d = ap[0].opts
                    rep.ob("roles", "arrays: values", d.get("values") == SYM("v"), "the values are %s" % show(d.get("values", NONE), 3), ap[0].site)
                    rep.ob("roles", "arrays: source", d.get("in_grid") == SYM("gi"), "the source grid is %s" % show(d.get("in_grid", NONE), 3), ap[0].site)
                    rep.ob("roles", "arrays: target", d.get("out_grid") == SYM("go"), "the target grid is %s" % show(d.get("out_grid", NONE), 3), ap[0].site)
                    want = {"interpolation": SYM("i", "str")}
                    if "distance=" in opts:
                        want["distance"] = SYM("dist")
                    if "nclosest" in opts:
                        want.update(nclosest=SYM("dist"), nearest_method=SYM("i", "str"))
                    got = {k: x for k, x in d.items() if k not in ("values", "in_grid", "out_grid")}
                    rep.ob("options", "arrays%s" % opts, got == want, "the backend gets %s" % sorted(got), ap[0].site)
                    rep.ob("result", "arrays", o.value == TUP((T("res", SYM("v"), C(1)), T("made", SYM("go"), C(1)))), "returns %s" % show(o.value, 4), last_site(o))
                rep.need(n, "arrays are never regridded")
    # defaults of the two interfaces
    for call, what in (("aregrid(v, gi, go)", "arrays"), ("regrid(m, go)", "messages")):
        for o in go(rep, e, STUBS + "def main():\n    return %s\n" % call, REGRID, {**BASE, "m": SYM("m", "bytes")}, stub_backend(), interest=watch, assume=grib):
            if o.kind != "return":
                if what == "messages" and any(v is True and a == T("is", SYM("go"), NONE) for a, v in o.state.facts.items()):
                    continue
                rep.ob("backend", what + ", default", False, "raises %s" % exc_name(o.value), last_site(o))
                continue
            bk = [ev for ev in o.events if ev.kind == "backend"]
            ap = [ev for ev in o.events if ev.kind == "apply"]
            rep.ob("backend", what + ", default", len(bk) == 1 and bk[0].args == [C("mir")] and not bk[0].kwargs, "the default backend is not mir", last_site(o))
            rep.ob("options", what + ", default", len(ap) == 1 and ap[0].all.get("interpolation") == C("linear"), "the default interpolation is not linear", last_site(o))
    # GRIB messages
    for form, val in (("bytes", SYM("m", "bytes")), ("buffer", SYM("m"))):
        for inv in ("", ", inventory=inv"):
            src = STUBS + "def main():\n    return regrid(m, go, interpolation=i, backend=b, distance=dist%s)\n" % inv
            n = 0
            for o in go(rep, e, src, REGRID, {**BASE, "m": val}, stub_backend(), interest=watch, assume=grib if form == "bytes" else buffer):
                if o.kind != "return":
                    nogrid = any(v is True and a == T("is", SYM("go"), NONE) for a, v in o.state.facts.items())
                    rep.ob("result", "messages", nogrid and is_exc(o.value, "ValueError"), "raises %s" % exc_name(o.value), last_site(o))
                    continue
                n += 1
                check_backend(rep, o, inv)
                ap = [ev for ev in o.events if ev.kind == "apply"]
                rep.ob("result", "messages, asked once", len(ap) == 1, "the backend is asked %d times" % len(ap), last_site(o))
                if len(ap) != 1:
                    continue
                d = ap[0].opts
                msg = d.get("message", NONE)
                ok = msg == val if form == "bytes" else msg.k == "t" and msg.a[0] == ".getvalue" and msg.a[1] == val
                rep.ob("roles", "messages: " + form, ok, "the message is %s" % show(msg, 3), ap[0].site)
                rep.ob("roles", "messages: target", d.get("grid") == SYM("go"), "the target grid is %s" % show(d.get("grid", NONE), 3), ap[0].site)
                got = {k: x for k, x in d.items() if k not in ("message", "grid")}
                rep.ob("options", "messages", got == {"interpolation": SYM("i", "str"), "distance": SYM("dist")}, "the backend gets %s" % sorted(got), ap[0].site)
                rep.ob("result", "messages", o.value == T("res", msg, C(1)), "returns %s" % show(o.value, 4), last_site(o))
            rep.need(n, "GRIB messages are never regridded (%s)" % form)


def kind_of(true):
    """What the caller's data is: the types whose names are given, and no other."""

    def assume(a, st):
        if a.k == "t" and a.a[0] == "isinstance" and a.a[1] in (SYM("m"), SYM("m", "bytes"), SYM("v")):
            n = a.a[2].a[0] if a.a[2].k == "ext" else ""
            return any(n.endswith(t) for t in true)
        if a.k == "t" and a.a[0] == "truthy" and a.a[1].k == "t" and a.a[1].a[0] == "hasattr" and a.a[1].a[1] == SYM("m") and is_c(a.a[1].a[2], str) and any("BytesIO" in t for t in true):
            import io

            return hasattr(io.BytesIO, cval(a.a[1].a[2]))
        return loaded("earthkit.data", "xarray")(a, st)

    return assume


grib = kind_of(("bytes",))
buffer = kind_of(("io.BytesIO",))


def check_backend(rep, o, inv):
    bk = [ev for ev in o.events if ev.kind == "backend"]
    rep.ob("backend", "named", len(bk) == 1 and bk[0].args == [SYM("b", "str")], "another backend is asked for", bk[0].site if bk else last_site(o))
    if bk:
        want = {"inventory": SYM("inv", "str")} if inv else {}
        rep.ob("backend", "inventory", dict(bk[0].kwargs) == want, "the backend is asked for with %s" % sorted(bk[0].kwargs), bk[0].site)


@prop("A02")
def a02(rep):
    rep.rule("data", "data of a kind that is not supported is refused with ValueError")
    rep.rule("grid", "a request without a target grid is refused with ValueError before anything is computed, whatever the data")
    rep.rule("backend", "a request without a backend, or with one that cannot handle the data, is refused with ValueError")
    rep.rule("own", "every supported kind of data is handled, as what it is")
    e = rep.engine()
    syms = {**BASE, "m": SYM("m")}
    for what, val, true in (("something else", SYM("m"), ()), ("array", SYM("m"), ("numpy.ndarray",)), ("None", NONE, ()), ("list", TUP((SYM("m"),)), ()), ("text", SYM("m", "str"), ())):
        for call in ("regrid(m, go)", "interpolate(m, gi, go)"):
            if what == "array" and call.startswith("interpolate"):
                continue
            for o in go(rep, e, STUBS + "def main():\n    return %s\n" % call, REGRID, {**syms, "m": val}, stub_backend(), interest=watch, assume=kind_of(true)):
                sub = "%s, %s" % (call.split("(")[0], what)
                rep.ob("data", sub, o.kind == "raise" and is_exc(o.value, "ValueError"), "gives %s" % (exc_name(o.value) if o.kind == "raise" else show(o.value, 3)), last_site(o))
                rep.ob("data", sub + " untouched", not any(ev.kind in ("apply", "backend") for ev in o.events), "is computed all the same", last_site(o))
    kinds = {
        "message": ("m", SYM("m", "bytes"), grib),
        "buffer": ("m", SYM("m"), buffer),
        "field list": ("DS((f1, f2))", SYM("m"), loaded("earthkit.data")),
        "field": ("F()", SYM("m"), loaded("earthkit.data")),
        "data array": ("DA()", SYM("m"), loaded("xarray")),
        "data set": ("XS()", SYM("m"), loaded("xarray")),
    }
    for what, (expr, val, ass) in kinds.items():
        s2 = {**syms, "m": val, "f1": SYM("f1"), "f2": SYM("f2")}
        for g in ("None", "missing"):
            src = STUBS + XSTUBS + "def main():\n    return regrid(%s%s, backend='mir')\n" % (expr, ", grid=None" if g == "None" else "")
            outs = go(rep, e, src, REGRID, s2, {**stub_backend()}, interest=watch, assume=ass, models=XMODELS)
            for o in outs:
                rep.ob("grid", "%s, grid %s" % (what, g), o.kind == "raise" and is_exc(o.value, "ValueError"), "gives %s" % (exc_name(o.value) if o.kind == "raise" else show(o.value, 3)), last_site(o))
                rep.ob("grid", what + " untouched", not any(ev.kind == "apply" for ev in o.events), "is computed all the same", last_site(o))
            rep.need(outs, "no path for %s" % what)
        src = STUBS + XSTUBS + "def main():\n    return regrid(%s, grid=g, backend=None)\n" % expr
        for o in go(rep, e, src, REGRID, {**s2, "g": SYM("g")}, {**stub_backend()}, interest=watch, assume=ass, models=XMODELS):
            if o.kind == "raise" or not what.startswith("data"):
                rep.ob("backend", "%s, none" % what, o.kind == "raise" and is_exc(o.value, "ValueError"), "gives %s" % (exc_name(o.value) if o.kind == "raise" else show(o.value, 3)), last_site(o))
        if what in ("message", "buffer"):
            src = STUBS + "def main():\n    return regrid(%s, grid=g, backend='precomputed')\n" % expr
            for o in go(rep, e, src, REGRID, {**s2, "g": SYM("g")}, stub_backend(), interest=watch, assume=ass):
                rep.ob("backend", "%s, not able" % what, o.kind == "raise" and is_exc(o.value, "ValueError"), "gives %s" % (exc_name(o.value) if o.kind == "raise" else show(o.value, 3)), last_site(o))
        # handled
        src = STUBS + XSTUBS + "def main():\n    return regrid(%s, grid=g, backend='mir')\n" % expr
        n = 0
        for o in go(rep, e, src, REGRID, {**s2, "g": SYM("g")}, {**stub_backend()}, interest=watch, assume=ass, models=XMODELS):
            if o.kind == "return":
                n += 1
                ways = {ev.name for ev in o.events if ev.kind == "apply"}
                rep.ob("own", what, ways == ({"regrid"} if what.startswith("data") else {"grib"}), "is handled as %s" % (sorted(ways) or "nothing"), last_site(o))
        rep.ob("own", what + " handled", n > 0, "is always refused")
    # the former interface takes no backend
    for o in go(rep, e, STUBS + "def main():\n    return interpolate(v, gi, go, backend=b)\n", REGRID, BASE, stub_backend(), interest=watch, assume=kind_of(("numpy.ndarray",))):
        rep.ob("backend", "former interface", o.kind == "raise" and is_exc(o.value, "ValueError"), "a backend is accepted", last_site(o))




def strip(v, tags=("made",)):
    """A grid without the backend's calls around it."""
    while v.k == "t" and v.a[0] in tags:
        v = v.a[1]
    return v


def about(v, fields):
    """The fields a value is taken from."""
    return {x for x in walk(v) if x in fields}


def calls(v, name):
    return [x for x in walk(v) if x.k == "t" and x.a and x.a[0] == name]


def from_meta(v, f):
    """Whether a grid is the one in the metadata of the field."""
    return v.k == "t" and v.a[0] in ("attr", "item", ".get", "getattr") and len(v.a) > 2 and C("gridspec") in v.a[2:] and about(v.a[1], {f}) == {f} and bool(calls(v.a[1], ".metadata"))


def list_of(o, v):
    h = o.state.obj(v)
    if h is not None and h.kind == "inst" and "_stub_items_" in h.f:
        return h.f["_stub_items_"]
    return NONE


def grib_item(rep, it, fs, k, ap, site):
    """A GRIB field regridded from its own message."""
    src = ap[k].opts.get("message", NONE)
    rep.ob("own", "message %d" % k, about(src, fs) == {fs[k]} and bool(calls(src, ".message") or (calls(src, ".encode") and calls(src, ".to_bytes"))), "field %d is made from %s" % (k, show(src, 4)), ap[k].site)
    ok = it.k == "t" and it.a[0].endswith(".from_buffer") and it.a[1] == T("res", src, C(k + 1))
    rep.ob("order", "message %d" % k, ok, "output %d is %s" % (k, show(it, 5)), site)
    rep.ob("grid", "message %d" % k, ap[k].opts.get("grid") == SYM("go"), "the target grid is %s" % show(ap[k].opts.get("grid", NONE), 4), ap[k].site)


def array_item(rep, it, fs, k, ap, site, way, given=None):
    """An array regridded from its own field's values, with its own field's metadata."""
    d = ap[k].opts
    src = d.get("values", NONE)
    n = calls(src, ".to_numpy")
    flat = bool(n) and V("kw", "flatten", TRUE) in n[0].a[1:]
    flat = flat or bool(calls(src, ".flatten") or calls(src, ".ravel") or calls(src, ".reshape"))
    vals = bool(n) or any(x.k == "t" and x.a[0] == "attr" and x.a[2] == C("values") for x in walk(src))
    rep.ob("own", "values %d" % k, about(src, fs) == {fs[k]} and vals and (flat or not n), "field %d is made from %s" % (k, show(src, 4)), ap[k].site)
    ig = d.get("in_grid", NONE)
    if given is None:
        rep.ob("own", "grid %d" % k, from_meta(ig, fs[k]), "the source grid of field %d is %s" % (k, show(ig, 4)), ap[k].site)
    else:
        rep.ob("own", "grid %d" % k, ig == given, "the source grid of field %d is %s" % (k, show(ig, 4)), ap[k].site)
    rep.ob("grid", "values %d" % k, strip(d.get("out_grid", NONE)) in (T("gs", SYM("go")), SYM("go")), "the target grid of field %d is %s" % (k, show(d.get("out_grid", NONE), 5)), ap[k].site)
    ok = it.k == "tup" and len(it.a) == 3 and it.a[1] == T("res", src, C(k + 1))
    rep.ob("order", "values %d" % k, ok, "output %d is %s" % (k, show(it, 5)), site)
    md = it.a[2] if it.k == "tup" and len(it.a) == 3 else NONE
    over = md.k == "t" and md.a[0] in (".override", ".set", ".copy")
    rep.ob("own", "metadata %d" % k, over and about(md, fs) == {fs[k]} and bool(calls(md.a[1], ".metadata")), "the metadata of output %d are %s" % (k, show(md, 5)), site)
    g = [x.a[1] for x in md.a[1:] if isinstance(x, V) and x.k == "kw" and x.a[0] == "gridspec"] if over else []
    rep.ob("grid", "metadata %d" % k, len(g) == 1 and strip(g[0]) in (T("gs", SYM("go")), SYM("go")), "the metadata of output %d name the grid %s" % (k, show(g[0] if g else NONE, 5)), site)


@prop("A03")
def a03(rep):
    rep.rule("order", "one output per input field, in the order of the inputs, each the backend's result for that field")
    rep.rule("own", "every field is regridded from its own values, grid and metadata, never another field's")
    rep.rule("grid", "the target asked for reaches the backend for every field, and the output says it is on that grid")
    rep.rule("refused", "fields that cannot be regridded end in an error, never in a shorter list")
    rep.rule("one", "a single field gives a single field")
    e = rep.engine()
    f = [SYM("f%d" % k) for k in range(3)]
    syms = {**BASE, "f0": f[0], "f1": f[1], "f2": f[2]}
    for bk in ("mir", "precomputed"):
        for n in (0, 1, 3):
            src = STUBS + "def main():\n    return regrid(DS((%s)), grid=go, backend=b, interpolation=i)\n" % "".join("f%d, " % k for k in range(n))
            kept = 0
            for o in go(rep, e, src, REGRID, syms, {**stub_backend(bk), **GS}, interest=watch, assume=with_grid, models=XMODELS, may_raise=bad_meta):
                ap = [ev for ev in o.events if ev.kind == "apply"]
                if o.kind == "raise":
                    why = refusal(o)
                    rep.ob("refused", "%s, %d fields" % (bk, n), why is not None, "raises %s" % show(o.value, 3), last_site(o))
                    continue
                rep.ob("refused", "%s, %d fields" % (bk, n), refusal(o) is None, "%s is accepted" % refusal(o), last_site(o))
                rep.ob("refused", "%s, %d fields, target" % (bk, n), bk == "mir" or checked(o), "any target is accepted", last_site(o))
                kept += 1
                its = list_of(o, o.value)
                rep.ob("order", "%s, %d fields" % (bk, n), its.k == "tup" and len(its.a) == n and len(ap) == n, "%d fields give %s after asking %d times" % (n, show(its, 3), len(ap)), last_site(o))
                if its.k != "tup" or len(its.a) != n or len(ap) != n:
                    continue
                for k in range(n):
                    (grib_item if bk == "mir" else lambda *a: array_item(*a, "regrid"))(rep, its.a[k], f, k, ap, last_site(o))
                    got = {x: y for x, y in ap[k].opts.items() if x not in ("values", "message", "grid", "in_grid", "out_grid")}
                    rep.ob("own", "options %d" % k, got == {"interpolation": SYM("i", "str")}, "field %d is asked for with %s" % (k, sorted(got)), ap[k].site)
            rep.need(kept, "no field list is ever regridded (%s)" % bk)
        src = STUBS + "def main():\n    return regrid(F(), grid=go, backend=b, interpolation=i)\n"
        kept = 0
        for o in go(rep, e, src, REGRID, syms, {**stub_backend(bk), **GS}, interest=watch, assume=with_grid, models=XMODELS, may_raise=bad_meta):
            if o.kind == "raise":
                rep.ob("refused", "%s, one field" % bk, refusal(o) is not None, "raises %s" % show(o.value, 3), last_site(o))
                continue
            kept += 1
            ap = [ev for ev in o.events if ev.kind == "apply"]
            rep.ob("one", bk, len(ap) == 1 and o.value.k in ("t", "tup"), "gives %s" % show(o.value, 3), last_site(o))
            if len(ap) == 1:
                it = [x for x in walk(ap[0].opts.get("message", ap[0].opts.get("values", NONE))) if x.k == "ref"]
                rep.ob("own", "one field", len(it) >= 1, "the field is not used", ap[0].site)
                if it:
                    (grib_item if bk == "mir" else lambda *a: array_item(*a, "regrid"))(rep, o.value, [it[0]], 0, ap, last_site(o))
        rep.need(kept, "no field is ever regridded (%s)" % bk)


def with_grid(a, st):
    if a == T("is", SYM("go"), NONE):
        return False
    return loaded("earthkit.data", "xarray")(a, st)


def bad_meta(name, fr, node):
    return [EXC(EXT("builtins.OSError"), C("metadata"))] if name == ".metadata" else []


def checked(o):
    """Whether the target was found to be a regular latitude-longitude grid."""
    return any(a.k == "t" and a.a[0] == "truthy" and a.a[1].k == "t" and a.a[1].a[0] == ".is_regular_ll" and v is True for a, v in o.state.facts.items())


def refusal(o):
    """Why this request has to be refused, if it has to."""
    if o.kind == "raise" and is_exc(o.value, "OSError") and C("metadata") in list(walk(o.value)):
        return "a field without metadata"
    for a, v in o.state.facts.items():
        if a.k != "t":
            continue
        x = a.a[1] if a.a[0] == "truthy" else a
        if x.k == "t" and x.a[0] == ".is_regular_ll" and v is False:
            return "a target that is not a regular latitude-longitude grid"
        if a.a[0] == "is" and a.a[2] == NONE and v is True and C("gridspec") in list(walk(a.a[1])):
            return "a field without a grid"
        if x.k == "t" and x.a[0] == "hasattr" and v is False and is_c(x.a[2], str):
            return "a field that is no GRIB"
    return None


@prop("A06")
def a06(rep):
    rep.rule("backend", "the former interface always uses the precomputed weights, of the inventory named by matrix_source")
    rep.rule("roles", "values, source, target and method each reach the backend in their own place")
    rep.rule("result", "what the backend returns is returned")
    rep.rule("order", "one output per input field, in the order of the inputs")
    rep.rule("own", "every field is interpolated from its own values, grid and metadata")
    rep.rule("grid", "the target asked for is the one used, and the one the output names")
    rep.rule("refused", "fields that cannot be interpolated end in an error")
    e = rep.engine()
    ms = SYM("ms", "str")

    def backend_ok(o, src):
        bk = [ev for ev in o.events if ev.kind == "backend"]
        rep.ob("backend", "precomputed", len(bk) == 1 and bk[0].args == [C("precomputed")], "the backend is %s" % (show(bk[0].args[0], 3) if bk else "none"), last_site(o))
        if bk:
            kw = {k: v for k, v in bk[0].kwargs.items() if v != NONE}
            rep.ob("backend", "inventory", kw == ({"inventory": ms} if src else {}), "the inventory is %s" % sorted(kw.items(), key=str), bk[0].site)

    for src in (", matrix_source=ms", ", matrix_source=None", ""):
        for form, call in (("by name", "interpolate(v, in_grid=gi, out_grid=go, method=i%s)"), ("by place", "interpolate(v, gi, go, i%s)")):
            n = 0
            ass = lambda a, st: False if a == T("is", ms, NONE) else kind_of(("numpy.ndarray",))(a, st)  # noqa: E731
            for o in go(rep, e, STUBS + "def main():\n    return %s\n" % (call % src), REGRID, {**BASE, "ms": ms}, stub_backend("precomputed"), interest=watch, assume=ass):
                if o.kind == "raise":
                    rep.ob("result", "arrays " + form, False, "raises %s" % exc_name(o.value), last_site(o))
                    continue
                n += 1
                backend_ok(o, "ms" in src)
                ap = [ev for ev in o.events if ev.kind == "apply"]
                rep.ob("result", "arrays, once", len(ap) == 1, "the backend is asked %d times" % len(ap), last_site(o))
                if len(ap) != 1:
                    continue
                d = ap[0].opts
                how = d.get("method", d.get("interpolation"))
                rep.ob("roles", "arrays " + form, (d.get("values"), d.get("in_grid"), d.get("out_grid"), how) == (SYM("v"), SYM("gi"), SYM("go"), SYM("i", "str")), "the backend gets %s" % sorted(d.items(), key=str), ap[0].site)
                rep.ob("result", "arrays", o.value == T("res", SYM("v"), C(1)) or (o.value.k == "t" and o.value.a[0] == "item" and ap[0].name == "regrid"), "returns %s" % show(o.value, 4), last_site(o))
            rep.need(n, "arrays are never interpolated")
    f = [SYM("f%d" % k) for k in range(2)]
    for given in (True, False):
        for n in (0, 2):
            src = STUBS + "def main():\n    return interpolate(DS((%s)), in_grid=%s, out_grid=go, method=i, matrix_source=ms)\n" % ("f0, f1, " if n else "", "gi" if given else "None")
            ass = lambda a, st: False if a in (T("is", ms, NONE), T("is", SYM("gi"), NONE)) else with_grid(a, st)  # noqa: E731
            kept = 0
            for o in go(rep, e, src, REGRID, {**BASE, "ms": ms, "f0": f[0], "f1": f[1]}, {**stub_backend("precomputed"), **GS}, interest=watch, assume=ass, models=XMODELS, may_raise=bad_meta):
                if o.kind == "raise":
                    rep.ob("refused", "fields", refusal(o) is not None, "raises %s" % show(o.value, 3), last_site(o))
                    continue
                rep.ob("refused", "fields", refusal(o) is None, "%s is accepted" % refusal(o), last_site(o))
                rep.ob("refused", "fields, target", checked(o), "any target is accepted", last_site(o))
                kept += 1
                backend_ok(o, True)
                ap = [ev for ev in o.events if ev.kind == "apply"]
                its = list_of(o, o.value)
                rep.ob("order", "%d fields" % n, its.k == "tup" and len(its.a) == n and len(ap) == n, "%d fields give %s after asking %d times" % (n, show(its, 3), len(ap)), last_site(o))
                if its.k == "tup" and len(its.a) == n and len(ap) == n:
                    for k in range(n):
                        array_item(rep, its.a[k], f, k, ap, last_site(o), "interpolate", SYM("gi") if given else None)
                        how = ap[k].opts.get("method", ap[k].opts.get("interpolation"))
                        rep.ob("roles", "fields", how == SYM("i", "str"), "the method is %s" % show(how or NONE, 3), ap[k].site)
            rep.need(kept, "no field list is ever interpolated")


MIRDEFAULTS = {"interpolation": C("linear"), "distance": C(1), "distance_tolerance": C(1), "nclosest": C(4)}


def job_of(o, execute):
    """The options a MIR job had when it was executed."""
    d = {}
    for ev in o.events:
        if ev is execute:
            break
        if ev.kind == "option" and ev.job == execute.recv:
            d.update(ev.opts)
    return d


def x_set(e, st, recv, args, kw, fr, node):
    """Notes an option of a job as it is when it is set."""
    if recv is None or recv.k != "t" or recv.a[0] != "mir.Job":
        return None
    opts = {k: deep(e, st, v) for k, v in kw.items()}
    if args:
        k = cval(args[0]) if is_c(args[0], str) else None
        opts[k] = deep(e, st, args[1]) if len(args) > 1 else NONE
    e.emit(st, "option", fr, node, name="option", args=[], job=recv, opts=opts)
    return [(st, recv)]


WATCH = WATCH | {"option"}


@prop("B02")
def b02(rep):
    rep.rule("options", "every option reaches the MIR job under its own name and with the value given, or its documented default, before the job runs")
    rep.rule("automatic", "the automatic nearest method is left to MIR and any other one is passed on")
    rep.rule("grid", "the job's target is the grid asked for, without its area")
    rep.rule("area", "an area is passed on in the order given, and one of another form is refused before anything is computed")
    rep.rule("roles", "the values and source grid, or the message, are the job's input")
    rep.rule("result", "the result is what this job wrote, with the grid it wrote it on")
    rep.rule("fresh", "every request has a job of its own")
    e = rep.engine()
    S = SYM
    syms = {"v": S("v"), "gi": S("gi"), "m": S("m", "bytes"), "x1": S("x1", "str"), "x2": S("x2"), "x3": S("x3"), "x4": S("x4"), "nm": S("nm", "str"), "a": S("a", "str"), "n": S("n"), "w": S("w"), "s": S("s"), "ea": S("ea"), "q": S("q")}
    allopts = ", interpolation=x1, distance=x2, distance_tolerance=x3, nclosest=x4"
    want_all = {"interpolation": S("x1", "str"), "distance": S("x2"), "distance_tolerance": S("x3"), "nclosest": S("x4")}
    optsets = [("", dict(MIRDEFAULTS))]
    optsets.append((allopts, want_all))
    optsets.append((allopts + ", nearest_method='automatic'", want_all))
    optsets.append((allopts + ", nearest_method=nm", {**want_all, "nearest_method": S("nm", "str")}))
    for k, x in (("interpolation", "x1"), ("distance", "x2"), ("distance_tolerance", "x3"), ("nclosest", "x4")):
        optsets.append((", %s=%s" % (k, x), {**MIRDEFAULTS, k: want_all[k]}))
    grids = {
        "plain": ('{"grid": q}', None, True),
        "area, text": ('{"grid": q, "area": a}', S("a", "str"), True),
        "area, list": ('{"grid": q, "area": [n, w, s, ea]}', "join", True),
        "area, tuple": ('{"grid": q, "area": (n, w, s, ea)}', "join", True),
        "area, three": ('{"grid": q, "area": [n, w, s]}', None, False),
        "area, five": ('{"grid": q, "area": [n, w, s, ea, n]}', None, False),
        "area, number": ('{"grid": q, "area": 10}', None, False),
        "area, None": ('{"grid": q, "area": None}', None, False),
    }
    join = [S("n"), S("w"), S("s"), S("ea")]
    for way in ("regrid", "regrid_grib"):
        for gname, (g, area, fine) in grids.items():
            for opts, want in optsets if gname == "plain" else optsets[:2] + optsets[3:4]:
                call = "MB().regrid(v, gi, g%s)" % opts if way == "regrid" else "MB().regrid_grib(m, g%s)" % opts
                src = "def main():\n    g = %s\n    return %s\n" % (g, call)
                sub = "%s, %s" % (way, gname)
                n = 0
                nm = lambda a, st: False if a.k == "t" and a.a[0] == "eq" and S("nm", "str") in a.a[1:] else None  # noqa: E731
                for o in go(rep, e, src, {"MB": "backends.mir:MirBackend"}, syms, {}, interest=watch, assume=nm, models={".set": x_set}):
                    ex = [ev for ev in o.events if ev.kind == "call" and ev.name == ".execute"]
                    if not fine:
                        rep.ob("area", sub, o.kind == "raise" and is_exc(o.value, "ValueError") and not ex, "gives %s" % show(o.value, 3), last_site(o))
                        n += 1
                        continue
                    if o.kind == "raise":
                        rep.ob("result", sub, False, "raises %s" % show(o.value, 3), last_site(o))
                        continue
                    n += 1
                    check_job(rep, o, ex, way, sub, want, area, join)
                rep.need(n, "no path for %s" % sub)
    # one request after another, with the same backend
    for way, c1, c2 in (
        ("regrid", "b.regrid(v, gi, {'grid': q, 'area': a}, nearest_method=nm, distance=x2)", "b.regrid(v, gi, {'grid': q})"),
        ("regrid_grib", "b.regrid_grib(m, {'grid': q, 'area': a}, nearest_method=nm, distance=x2)", "b.regrid_grib(m, {'grid': q})"),
    ):
        src = "def main():\n    b = MB()\n    r = %s\n    return %s\n" % (c1, c2)
        nm = lambda a, st: False if a.k == "t" and a.a[0] == "eq" and S("nm", "str") in a.a[1:] else None  # noqa: E731
        for o in go(rep, e, src, {"MB": "backends.mir:MirBackend"}, syms, {}, interest=watch, assume=nm, models={".set": x_set}):
            if o.kind == "raise":
                rep.ob("fresh", way, False, "raises %s" % show(o.value, 3), last_site(o))
                continue
            ex = [ev for ev in o.events if ev.kind == "call" and ev.name == ".execute"]
            rep.ob("fresh", way, len(ex) == 2 and ex[0].recv != ex[1].recv, "the second request runs the first one's job", last_site(o))
            if len(ex) == 2:
                check_job(rep, o, ex[1:], way, way + ", second", dict(MIRDEFAULTS), None, join)


def check_job(rep, o, ex, way, sub, want, area, join):
    rep.ob("result", sub + " once", len(ex) == 1, "%d jobs are run" % len(ex), last_site(o))
    if len(ex) != 1:
        return
    x = ex[0]
    site = x.site
    rep.ob("result", sub + " job", x.recv is not None and x.recv.k == "t" and x.recv.a[0] == "mir.Job", "the job is %s" % show(x.recv or NONE, 3), site)
    d = job_of(o, x)
    late = [ev for ev in o.events[o.events.index(x):] if ev.kind == "option" and ev.job == x.recv]
    rep.ob("options", sub + " in time", not late, "an option is set after the job has run", late[0].site if late else site)
    g = d.pop("grid", NONE)
    rep.ob("grid", sub, g == ("dict", ((C("grid"), SYM("q")),)), "the target grid is %s" % plain(g), site)
    ar = d.pop("area", None)
    if area is None:
        rep.ob("area", sub, ar is None, "an area is set: %s" % plain(ar), site)
    elif area == "join":
        rep.ob("area", sub, ar is not None and joined(ar) == join, "the area is %s" % plain(ar), site)
    else:
        rep.ob("area", sub, ar == area, "the area is %s" % plain(ar), site)
    nm = d.pop("nearest_method", None)
    rep.ob("automatic", sub, nm == want.get("nearest_method"), "the nearest method is %s" % plain(nm), site)
    w = {k: v for k, v in want.items() if k != "nearest_method"}
    bad = sorted({k for k in set(d) | set(w) if d.get(k) != w.get(k)}, key=str)
    rep.ob("options", sub, not bad, "%s is %s" % (bad[:1], plain(d.get(bad[0])) if bad else ""), site)
    a = list(x.args)
    inp, out = (a + [NONE, NONE])[:2]
    if way == "regrid":
        i = [y for y in inp.a[1:] if y.k != "c"] if inp.k == "t" else []
        rep.ob("roles", sub, inp.k == "t" and inp.a[0] == "mir.ArrayInput" and i == [SYM("v"), SYM("gi")], "the input is %s" % show(inp, 4), site)
        rep.ob("result", sub + " output", out.k == "t" and out.a[0] == "mir.ArrayOutput", "the output is %s" % show(out, 3), site)
        v = o.value
        ok = v.k == "tup" and len(v.a) == 2 and v.a[0].k == "t" and v.a[0].a[0] in (".values", "d.values") and v.a[0].a[1] == out and v.a[1] == T("attr", out, C("spec"))
        rep.ob("result", sub, ok, "returns %s" % show(v, 4), last_site(o))
    else:
        i = [y for y in inp.a[1:] if y.k != "c"] if inp.k == "t" else []
        rep.ob("roles", sub, inp.k == "t" and inp.a[0] in ("mir.GribMemoryInput",) and i == [SYM("m", "bytes")], "the input is %s" % show(inp, 4), site)
        v = o.value
        rep.ob("result", sub, v.k == "t" and v.a[0] in (".getvalue",) and v.a[1] == out and out.k == "t" and out.a[0] == "io.BytesIO", "returns %s" % show(v, 4), last_site(o))
    after = [ev for ev in o.events[: o.events.index(x)] if ev.kind == "call" and ev.name in (".values", "d.values", ".getvalue") and ev.recv == out]
    rep.ob("result", sub + " afterwards", not after, "the result is read before the job has run", after[0].site if after else site)


def joined(v):
    """The parts of a text joined by slashes, as they are written."""
    out = []

    def flat(x):
        if x.k == "t" and x.a[0] in ("str", "format", "fval") and len(x.a) >= 2:
            return flat(x.a[1])
        return x

    if v.k == "t" and v.a[0] == ".join" and len(v.a) > 2 and v.a[1] == C("/") and v.a[2].k == "t" and v.a[2].a[0] == "list":
        return [flat(x) for x in v.a[2].a[1:]]
    if v.k == "t" and v.a[0] == "fstr":
        want = False
        for p in v.a[1:]:
            if p == C("/"):
                if not want:
                    return None
                want = False
            else:
                if want:
                    return None
                out.append(flat(p))
                want = True
        return out
    return [show(v, 9)]


def plain(x):
    return show(x, 6) if isinstance(x, V) else str(x)


READS = {".read", ".seek", ".close", ".truncate", ".write", ".detach", ".readinto", ".release"}


def inner(o, v, seen=None):
    """An object of the caller and the objects in it."""
    seen = [] if seen is None else seen
    h = o.state.obj(v)
    if h is None or v in seen:
        return seen
    seen.append(v)
    for x in list(h.f.values()) + [y for i in (h.items or ()) for y in (i[1:] if isinstance(i, tuple) else (i,))]:
        if isinstance(x, V):
            for y in walk(x):
                if y.k == "ref":
                    inner(o, y, seen)
    return seen


@prop("A01")
def a01(rep):
    rep.rule("data", "nothing the caller passes as data is changed in place, whether the request succeeds or not")
    rep.rule("grids", "the grids, areas and lists the caller passes are afterwards what they were")
    rep.rule("buffer", "a message buffer keeps its content and its position")
    e = rep.engine()
    syms = {**BASE, **{k: SYM(k) for k in ("f0", "f1", "q", "r", "n", "w", "s", "ea", "ns", "we")}, "m": SYM("m")}
    names = {"v", "f0", "f1", "m"}
    find = {"backends.db.MatrixDb.find": lambda e, st, f, args, kw, fr, node: [(st, TUP((SYM("z"), SYM("sh")))), (st.fork(), TUP((NONE, NONE)))]}
    gis = ['{"grid": "O32"}', '{"grid": [q, r]}']
    gos = ['{"grid": [we, ns]}', '{"grid": [we, ns], "area": [n, w, s, ea]}', '{"grid": (1, 1), "area": "90/0/-90/359"}', '{"grid": "N32"}']
    ways = {
        "array, mir": ("aregrid(v, GI, GO, interpolation=i)", loaded(), {}),
        "array, options": ("aregrid(v, GI, GO, **KW)", loaded(), {}),
        "array, precomputed": ("aregrid(v, GI, GO, backend='precomputed')", loaded(), find),
        "array, former": ("interpolate(v, GI, GO)", kind_of(("numpy.ndarray",)), find),
        "buffer": ("regrid(m, GO)", buffer, {}),
        "fields, mir": ("regrid(DS((f0, f1)), GO, **KW)", with_grid, {}),
        "fields, precomputed": ("regrid(DS((f0, f1)), GO, backend='precomputed')", with_grid, {**find, **GS}),
        "fields, former": ("interpolate(DS((f0, f1)), GI, GO)", with_grid, {**find, **GS}),
        "data array": ("regrid(X, GO, in_dims=IN, out_dims=OUT, **KW)", xarrays, {}),
        "data set": ("regrid(Y, GO, in_dims=IN, out_dims=OUT)", xarrays, {}),
        "data array, own grid": ("regrid(Z, GO, grid_spec=GI)", xarrays, {}),
        "data set, own grid": ("regrid(U, GO, grid_spec=GI)", xarrays, {}),
    }
    keep = ("GI", "GO", "KW", "IN", "OUT", "X", "Y", "Z", "U")
    for what, (call, ass, opq) in ways.items():
        for gi in gis if "GI" in call else gis[:1]:
            for g in gos if "GO" in call else gos[:1]:
                head = STUBS + XSTUBS.replace("gspec", "GI")
                head = "GI = %s\nGO = %s\nKW = {'distance': 2}\nIN = ['latitude', 'longitude']\nOUT = ['latitude', 'longitude']\n" % (gi, g) + head + "X = DA()\nY = XS()\nZ = DA()\nZ.attrs = {}\nU = XS()\nU.attrs = {}\n"
                src = head + "def main():\n    return %s\n" % call
                outs = go(rep, e, src, REGRID, syms, {"data.xarray.GridWrapper.to_distinct_latlons": distinct_latlons, **opq}, interest=quiet, assume=ass, models={**XMODELS, ".set": x_set})
                mod = "mod:%%drv%d" % (e._ndrv - 1)
                rep.need(outs, "no path for " + what)
                st0, _ = e.driver(src, **{n: e.lookup(q) for n, q in REGRID.items()}, **syms)
                mod0 = "mod:%%drv%d" % (e._ndrv - 1)
                for o in outs:
                    f0, f1 = st0.get(mod0).f, o.state.get(mod).f
                    refs = [r for x in "XYZU" for r in inner(o, f1[x])]
                    bad = changes(o, names, refs)
                    rep.ob("data", what, not bad, "the caller's data are changed by %s" % (bad[0].d.get("name") or bad[0].kind if bad else ""), bad[0].site if bad else None)
                    for k in keep:
                        a, b = plainly(e, st0, f0[k]), plainly(e, o.state, f1.get(k, NONE))
                        rep.ob("grids" if k not in "XYZU" else "data", "%s: %s" % (what, k), a == b, "%s was %s and is %s" % ({"GI": "the source grid", "GO": "the target grid", "KW": "the mapping of options", "IN": "in_dims", "OUT": "out_dims"}.get(k, "the data"), str(a)[:150], str(b)[:150]), last_site(o))
                    if what == "buffer":
                        rd = [ev for ev in o.events if ev.kind == "call" and ev.name in READS and ev.recv is not None and view_root(ev.recv) == SYM("m")]
                        rep.ob("buffer", what, not rd, "the buffer is moved or changed by %s" % (rd[0].name if rd else ""), rd[0].site if rd else None)
    # grids are read, not taken over
    for g in gos + gis + ['{"grid": "H8_nested"}', '{"grid": "H8", "ordering": "ring"}', '{"type": "regular_ll", "grid": [we, ns], "area": [n, w, s, ea], "shape": [1, 2]}', '{"grid": "O32", "area": [n, w, s, ea]}', '{"grid": "eORCA025_T"}']:
        src = "GO = %s\ndef main():\n    return from_dict(GO)\n" % g
        outs = go(rep, e, src, {"from_dict": "gridspec:GridSpec.from_dict"}, syms, {}, interest=quiet)
        mod = "mod:%%drv%d" % (e._ndrv - 1)
        rep.need(outs, "no path for " + g)
        st0, _ = e.driver(src, from_dict=e.lookup("gridspec:GridSpec.from_dict"), **syms)
        for o in outs:
            a, b = plainly(e, st0, st0.get("mod:%%drv%d" % (e._ndrv - 1)).f["GO"]), plainly(e, o.state, o.state.get(mod).f["GO"])
            rep.ob("grids", "reading " + g, a == b, "the grid was %s and is %s" % (str(a)[:150], str(b)[:150]), last_site(o))


def plainly(e, st, v):
    """An object of the caller with everything in it."""
    return deep(e, st, v, True)


def distinct_latlons(e, st, f, args, kw, fr, node):
    n = C(sum(1 for ev in st.ev if ev.kind == "ufunc"))
    return [(st, TUP((T("latlon", C("lat"), n), T("latlon", C("lon"), n)))), (st.fork(), TUP((NONE, NONE)))]


def xarrays(a, st):
    return with_grid(a, st)


GRID = """
class G:
    def to_latlons(self):
        return self.ll
"""


def x_grid(nd):
    """A grid with as many dimensions."""

    def grid(e, st, recv, args, kw, fr, node):
        cls = st.get(e.modules["%%drv%d" % (e._ndrv - 1)]).f["G"].a[0]
        key = kw.get("**", TUP(tuple(V("kw", k, v) for k, v in sorted(kw.items())))) if kw else (args[0] if len(args) == 1 else TUP(tuple(args)))
        if key.k == "tup" and not key.a:
            key = SYM("empty")
        key = e.snap(st, key)
        f = {"shape": TUP(tuple(T("dim", key, C(i)) for i in range(nd))), "spec": T("spec", key), "ll": TUP((T("ll", key, C(0)), T("ll", key, C(1)))), "key": key}
        return [(st, e.new(st, H("inst", cls, f), node, fr))]

    return grid


def distinct(which):
    def fn(e, st, f, args, kw, fr, node):
        return [(st, T("dl", C(which), e.snap(st, args[-1]))), (st.fork(), NONE)]

    return fn


XOPQ = {"data.xarray.GridWrapper._distinct_lats": distinct("lat"), "data.xarray.GridWrapper._distinct_lons": distinct("lon")}


def x_assume(a, st):
    if a.k == "t" and a.a[0] == "is" and a.a[2] == NONE:
        x = a.a[1]
        if x in (SYM("go"), SYM("gspec"), SYM("gk")):
            return False
        if x.k == "t" and x.a[0] in ("numpy.array", "numpy.asarray", "ll"):
            return False
    if a.k == "t" and a.a[0] == "eq" and any(x.k == "t" and x.a[0] in ("builtins.len", "attr", "math.prod") for x in a.a[1:]):
        return True
    return with_grid(a, st)


def xstub(sizes, attrs=True):
    t = XSTUBS.replace('{"t": 1, "latitude": 2, "longitude": 3}', "{%s}" % ", ".join('"%s": %d' % (d, i + 1) for i, d in enumerate(sizes)))
    t = t.replace('("t", "latitude", "longitude")', "(%s)" % "".join('"%s", ' % d for d in sizes))
    return t if attrs else t.replace('{"gridspec": gspec}', "{}")


LL = ("latitude", "longitude")


@prop("A04")
def a04(rep):
    rep.rule("dims", "the dimensions regridded are the geographical ones of the data, or those the caller names, and the new ones are those of the target")
    rep.rule("sizes", "each new dimension has the size the target grid has along it")
    rep.rule("exclude", "dimensions that change their size are declared to do so")
    rep.rule("roles", "every block is regridded from the data's own grid to the target asked for, with the options given")
    rep.rule("variables", "every variable of a data set is regridded, and kept under its own name")
    rep.rule("coords", "the result carries the latitudes and longitudes of the grid it is on, each under its own name and along its own dimension")
    rep.rule("result", "the object returned is the regridded one")
    rep.rule("refused", "data or targets whose geography is not supported, or not known, are refused with ValueError before anything is computed")
    e = rep.engine()
    syms = {**BASE, "gk": SYM("gk"), "d": SYM("d"), "sx": SYM("sx", "str"), "sy": SYM("sy", "str")}
    cases = []
    for obj in ("DA()", "XS()"):
        for sizes, dims in ((("t",) + LL, LL), (LL, LL), (("values",), ("values",)), (("t", "values"), ("values",)), (("t", "level") + LL, LL)):
            for nd in (1, 2):
                cases.append((obj, sizes, nd, "", dims, None, True))
        for sizes in ((), ("t",), ("latitude",), ("longitude", "latitude"), LL + ("t",), ("values", "t"), ("y", "x"), ("t", "x", "longitude")):
            cases.append((obj, sizes, 2, "", None, None, False))
        cases.append((obj, LL, 3, "", LL, None, None))
        cases.append((obj, LL, 0, "", LL, None, False))
    for obj in ("DA()",):
        cases += [
            (obj, ("t", "y", "x"), 2, ", in_dims=['y', 'x']", ("y", "x"), None, True),
            (obj, ("t", "y", "x"), 2, ", in_dims=('y', 'x')", ("y", "x"), None, True),
            (obj, ("t", "cell"), 2, ", in_dims='cell'", ("cell",), None, True),
            (obj, ("t", "cell"), 1, ", in_dims=['cell']", ("cell",), None, True),
            (obj, ("t",) + LL, 2, ", out_dims=['north', 'east']", LL, ("north", "east"), True),
            (obj, ("t",) + LL, 1, ", out_dims='cell'", LL, ("cell",), True),
            (obj, ("t",) + LL, 2, ", in_dims=['longitude', 'latitude']", ("longitude", "latitude"), None, True),
        ]
    for obj, sizes, nd, kw, ind, outd, fine in cases:
        for opts in ("", ", distance=d") if sizes == LL and nd < 3 else ("",):
            sub = "%s %s to %d dims%s" % (obj[:2], "/".join(sizes), nd, kw)
            src = STUBS + xstub(sizes) + GRID + "def main():\n    return regrid(%s, grid=go, interpolation=i, backend=b, inventory=inv%s%s)\n" % (obj, kw, opts)
            outs = go(rep, e, src, REGRID, syms, {**stub_backend(), **XOPQ}, interest=quiet, assume=x_assume, models={**XMODELS, "mir.Grid": x_grid(nd)})
            rep.need(outs, "no path for " + sub)
            kept = 0
            for o in outs:
                ap = [ev for ev in o.events if ev.kind == "apply"]
                uf = [ev for ev in o.events if ev.kind == "ufunc"]
                if fine is False:
                    rep.ob("refused", sub, o.kind == "raise" and is_exc(o.value, "ValueError") and not ap, "gives %s" % show(o.value, 3), last_site(o))
                    continue
                if fine is None:
                    rep.ob("refused", sub, o.kind == "raise" and is_exc(o.value, "ValueError"), "gives %s" % show(o.value, 3), last_site(o))
                    continue
                if o.kind == "raise":
                    if any(ev.kind == "apply" for ev in o.events) and exc_name(o.value) == "AssertionError":
                        continue
                    rep.ob("result", sub, False, "raises %s" % show(o.value, 3), last_site(o))
                    continue
                kept += 1
                out = outd or (LL if nd == 2 else ("values",))
                x_check(rep, o, obj, uf, ap, sub, ind, out, nd, opts)
            if fine:
                rep.ob("result", sub + " done", kept > 0, "is always refused")
    # whose grid
    for attrs, kw, want in ((True, ", grid_spec=gk", None), (True, "", SYM("gspec")), (False, ", grid_spec=gk", SYM("gk"))):
        for obj in ("DA()", "XS()"):
            src = STUBS + xstub(LL, attrs) + GRID + "def main():\n    return regrid(%s, grid=go, backend=b%s)\n" % (obj, kw)
            for o in go(rep, e, src, REGRID, syms, {**stub_backend(), **XOPQ}, interest=quiet, assume=x_assume, models={**XMODELS, "mir.Grid": x_grid(2)}):
                ap = [ev for ev in o.events if ev.kind == "apply"]
                if want is None:
                    # both given: the data's own grid is used, or the request refused
                    rep.ob("roles", "both grids", o.kind == "raise" or all(ev.opts.get("in_grid") == T("spec", SYM("gspec")) for ev in ap), "the data's own grid is not used", last_site(o))
                else:
                    rep.ob("roles", "source grid %s" % show(want, 2), o.kind == "return" and bool(ap) and all(ev.opts.get("in_grid") == T("spec", want) and "grid_spec" not in ev.opts for ev in ap), "the source grid is %s" % (show(ap[0].opts.get("in_grid", NONE), 4) if ap else show(o.value, 3)), ap[0].site if ap else last_site(o))
    for which, axis in (("_distinct_lats", 0), ("_distinct_lons", 1)):
        src = "def main():\n    return W.%s(x)\n" % which
        if not have(e, "data.xarray:GridWrapper." + which):
            continue
        for o in go(rep, e, src, {"W": "data.xarray:GridWrapper"}, {"x": SYM("x")}, {}, interest=quiet):
            for ev in o.events:
                if ev.kind != "setitem":
                    continue
                idx = [y.a[2] for y in walk(ev.value) if y.k == "t" and y.a[0] == "item" and y.a[1] == SYM("x")]
                if len(idx) == 1 and idx[0].k == "tup" and len(idx[0].a) == 2 and ev.key in idx[0].a:
                    rep.ob("coords", which, idx[0].a.index(ev.key) == axis, "%s are taken along the wrong axis" % which[10:], ev.site)


def x_check(rep, o, obj, uf, ap, sub, ind, out, nd, opts):
    vars_ = ["da"] if obj == "DA()" else ["one", "two"]
    site = uf[0].site if uf else last_site(o)
    rep.ob("variables", sub, [cval(ev.args[0]) for ev in uf] == vars_ and len(ap) == len(vars_), "the variables regridded are %s" % [show(ev.args[0], 2) for ev in uf], site)
    for u in uf:
        d = u.opts
        L = lambda t: ("list", tuple(C(x) for x in t))  # noqa: E731
        rep.ob("dims", sub + " in", d.get("input_core_dims") == ("list", (L(ind),)), "the dimensions regridded are %s" % (d.get("input_core_dims"),), u.site)
        rep.ob("dims", sub + " out", d.get("output_core_dims") == ("list", (L(out),)), "the new dimensions are %s" % (d.get("output_core_dims"),), u.site)
        g = d.get("dask_gufunc_kwargs")
        sizes = [y for x, y in g[1] if x == C("output_sizes")] if isinstance(g, tuple) and g[0] == "dict" else []
        want = tuple((C(x), T("dim", SYM("go"), C(i))) for i, x in enumerate(out))
        rep.ob("sizes", sub, len(sizes) == 1 and sizes[0][0] == "dict" and set(sizes[0][1]) == set(want), "the sizes are %s" % (sizes,), u.site)
        ex = d.get("exclude_dims", ("set", frozenset()))
        ex = set(ex[1]) if isinstance(ex, tuple) else None
        i = {C(x) for x in ind}
        rep.ob("exclude", sub, ex == i if i == {C(x) for x in out} else ex is not None and ex <= i, "the dimensions said to change are %s" % sorted(map(str, ex or ())), u.site)
        rep.ob("dims", sub + " each", d.get("vectorize") == TRUE, "blocks are not taken one by one", u.site)
    opt = {"interpolation": SYM("i", "str")}
    if opts:
        opt["distance"] = SYM("d")
    for k, ev in enumerate(ap[: len(vars_)]):
        d = ev.opts
        rep.ob("roles", sub + " block", d.get("values") == T("block", C(vars_[k])), "the block is %s" % show(d.get("values", NONE), 3), ev.site)
        rep.ob("roles", sub + " source", d.get("in_grid") in (T("spec", SYM("gspec")), SYM("gspec")), "the source grid is %s" % show(d.get("in_grid", NONE), 4), ev.site)
        rep.ob("roles", sub + " target", strip(d.get("out_grid", NONE)) == SYM("go"), "the target grid is %s" % show(d.get("out_grid", NONE), 4), ev.site)
        rest = {x: y for x, y in d.items() if x not in ("values", "in_grid", "out_grid")}
        rep.ob("roles", sub + " options", rest == opt, "the backend gets %s" % sorted(rest), ev.site)
    for ev in (x for x in o.events if x.kind == "backend"):
        rep.ob("roles", sub + " backend", ev.args == [SYM("b", "str")] and dict(ev.kwargs) == {"inventory": SYM("inv", "str")}, "the backend asked for is %s" % show(ev.args[0] if ev.args else NONE, 3), ev.site)
    v, coords = unwrap(o, o.value)
    if obj == "DA()":
        rep.ob("result", sub, v == T("ufunc", C("da"), T("res", T("block", C("da")), C(1))), "returns %s" % show(v, 4), last_site(o))
        owner = v
    else:
        owner = v
        got = {}
        if v.k == "t" and v.a[0] == "xarray.Dataset":
            for p in v.a[1:]:
                for q in [p] + (list(p.a[1:]) if isinstance(p, V) and p.k == "t" and p.a[0] in ("dict",) else []) + ([] if not isinstance(p, V) or p.k != "kw" else [p.a[1]]):
                    if isinstance(q, V) and q.k == "tup" and len(q.a) == 2 and q.a[0].k == "c":
                        got[cval(q.a[0])] = q.a[1]
        for ev in o.events:
            if ev.kind == "setitem" and ev.obj == v and is_c(ev.key, str):
                got[cval(ev.key)] = ev.value
        for k, x in enumerate(vars_):
            w = T("ufunc", C(x), T("res", T("block", C(x)), C(k + 1)))
            rep.ob("variables", sub + " " + x, got.get(x) == w, "%s is %s" % (x, show(got.get(x, NONE), 4)), last_site(o))
        rep.ob("variables", sub + " only", set(got) == set(vars_), "the variables are %s" % sorted(got), last_site(o))
    for ev in o.events:
        if ev.kind == "setitem" and ev.obj == T("attr", owner, C("coords")) and is_c(ev.key, str):
            coords[cval(ev.key)] = (ev.value, ev.site)
    rep.ob("coords", sub, set(coords) == set(LL), "the coordinates set are %s" % sorted(coords), last_site(o))
    for k, name in enumerate(LL):
        if name in coords:
            c, site = coords[name]
            x_coord(rep, o, sub, c, site, name, k, nd)


def unwrap(o, v):
    coords = {}
    while v.k == "t" and v.a[0] == ".assign_coords":
        for p in v.a[2:]:
            if not isinstance(p, V):
                continue
            for q in p.a[1:] if p.k == "t" and p.a[0] == "dict" else [p]:
                if q.k == "tup" and len(q.a) == 2 and is_c(q.a[0], str):
                    coords.setdefault(cval(q.a[0]), (q.a[1], last_site(o)))
                elif q.k == "kw":
                    coords.setdefault(q.a[0], (q.a[1], last_site(o)))
        v = v.a[1]
    return v, coords


def x_coord(rep, o, sub, c, site, name, k, nd):
    """A coordinate: the right numbers, along the right dimension, on the grid the data are on."""
    dims, arr = None, None
    if c.k == "t" and c.a[0] in ("xarray.Variable", "xarray.DataArray") and len(c.a) > 2:
        dims, arr = c.a[1], c.a[2]
    elif c.k == "tup" and len(c.a) == 2:
        dims, arr = c.a
    rep.need(arr is not None, "cannot tell the coordinate %s" % show(c, 3))
    if dims.k == "t" and dims.a[0] == "dict":
        names = [p.a[0] for p in dims.a[1:] if isinstance(p, V) and p.k == "tup"]
    elif dims.k == "tup":
        names = list(dims.a)
    else:
        names = [x for x in dims.a[1:]] if dims.k == "t" and dims.a[0] == "list" else [dims]
    held = [arr] + [ev.value for ev in o.events if ev.kind == "setitem" and ev.obj == arr]
    lls = [x for y in held for x in walk(y) if x.k == "t" and x.a[0] == "ll"]
    rep.ob("coords", sub + " values", bool(lls) and all(x.a[2] == C(k) for x in lls), "%s holds %s" % (name, show(arr, 6)), site)
    dl = [x for x in walk(arr) if x.k == "t" and x.a[0] == "dl"]
    rep.ob("coords", sub + " kind", all(x.a[1] == C(name[:3]) for x in dl), "%s holds %s" % (name, show(arr, 6)), site)
    rep.ob("coords", sub + " grid", bool(lls) and all(strip(x.a[1]) == SYM("go") and (x.a[1].k == "t" and x.a[1].a[0] == "made") for x in lls), "%s belongs to %s" % (name, show(lls[0].a[1] if lls else NONE, 4)), site)
    if nd == 1:
        ok = names == [C("values")]
    elif dl or len(names) == 1:
        ok = names == [C(name)]
    else:
        ok = len(names) == 2 and C(name) not in names[1 - k: 2 - k]
    rep.ob("coords", sub + " along", ok, "%s lies along %s" % (name, [show(x, 2) for x in names]), site)


def have(e, name):
    try:
        return e.lookup(name) is not None
    except AnalysisError:
        return False
