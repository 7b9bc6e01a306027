"""The on-disk cache: D01..D07."""

import re

from ..core import *  # noqa
from ..values import *  # noqa
from ..values import C, CH, EXC, EXT, FALSE, H, NONE, REF, SYM, T, TRUE, TUP, V
from . import prop

KINDS = {"call", "raise", "acquire", "release", "ctxenter", "ctxexit", "manager", "setattr", "setitem", "mut", "enqueue", "delitem", "loop", "notify", "wait"}
MOVES = ("os.rename", "os.replace", "shutil.move")
EXISTS = ("os.path.exists", "os.path.isfile", "os.path.isdir", "os.path.lexists")
DELETES = ("os.unlink", "os.remove", "shutil.rmtree", "os.rmdir", "os.removedirs")


def interest(ev, st, fr):
    return ev.kind in KINDS


def cfg_get(e, st, f, args, kw, fr, node):
    """CONFIG.get(name): the value in force, whatever it is."""
    k = e.resolve(args[1], st) if len(args) > 1 else kw.get("name")
    return [(st, T("cfg", k))]


def text_only(e, st, f, args, kw, fr, node):
    return [(st, T("text", *[e.snap(st, a) for a in args]))]


OPQ = {"utils.config.Config.get": cfg_get, "utils.humanize.bytes": text_only}

COLUMNS = ("path", "owner", "args", "creation_date", "flags", "owner_data", "last_access", "type", "parent", "replaced", "extra", "expires", "accesses", "size")


def rows_model(which):
    """`.execute` of a SELECT gives the rows which(parsed statement) names; everything else is unknown."""

    def execute(e, st, recv, args, kw, fr, node):
        t = cval(args[0]) if args and is_c(args[0], str) else None
        d = sql_parse(t) if t else None
        res = None
        if d is not None and d["kind"] == "SELECT":
            names = which(d, args) if which.__code__.co_argcount > 1 else which(d)
            if names is not None:
                refs = []
                for nm in names:
                    oid, cols = "row:" + nm, COLUMNS
                    if d["select"] and d["select"] != "*":
                        cols = [c.strip() for c in d["select"].split(",")]
                        oid += ":" + d["select"]
                    if st.get(oid) is None:
                        st.put(oid, H("dict", None, {}, tuple(("k", C(c), SYM("%s.%s" % (nm, c))) for c in cols) + tuple(("k", C(i), SYM("%s.%s" % (nm, c))) for i, c in enumerate(cols))))
                    refs.append(REF(oid))
                res = e.new(st, H("list", None, {}, tuple(refs)), node, fr)
        if res is None:
            return None
        e.emit(st, "call", fr, node, name=".execute", f=NONE, recv=recv, args=[e.snap(st, a) for a in args], kwargs={}, result=T("rows", *[C(n) for n in names]))
        return [(st, res)]

    def fetchall(e, st, recv, args, kw, fr, node):
        h = st.obj(recv) if recv is not None else None
        return [(st, recv)] if h is not None and h.kind == "list" else None

    return {".execute": execute, ".fetchall": fetchall}


def row_named(v):
    """The row a value was taken from."""
    for x in walk(v):
        if x.k == "sym" and re.match(r"^[a-z]\d\.", str(x.a[0])):
            return str(x.a[0]).split(".")[0]
    return None


def injected(o):
    return o.kind == "raise" and any(is_c(x) and cval(x) == "!injected" for x in walk(o.value))


def fails(what):
    def mr(name, fr, node):
        if name and any(name.find(w) >= 0 for w in ([what] if isinstance(what, str) else what)):
            return [EXC(EXT("builtins.OSError"), C("!injected"))]

    return mr


def ages(facts):
    """Whether files were found to be older than a constant age, from comparisons of their time with now: [True/False]."""
    out = []
    for a, v in facts.items():
        if a.k == "t" and a.a[0] in ("lt", "le") and any(is_mtime(x) for x in walk(a)):
            d = lin(T("bin:Sub", a.a[1], a.a[2]))
            m = [c for k, c in d.items() if k is not None and is_mtime(k)]
            t = [c for k, c in d.items() if k is not None and k.k == "t" and "time" in str(k.a[0]) and not is_mtime(k)]
            if m and t and m[0] == -t[0]:
                out.append(v if m[0] > 0 else not v)
    return out


def is_mtime(x):
    return x.k == "t" and (x.a[0] == "attr" and x.a[2] in (C("st_mtime"), C("st_mtime_ns")) or x.a[0] == "os.path.getmtime")


def without(v, part):
    """The value with a part of it blanked."""
    if v == part:
        return C("")
    if not isinstance(v, V) or not v.a:
        return v
    return V(v.k, *[without(x, part) if isinstance(x, V) else x for x in v.a])


UNIQUE = ("random", "uuid", "time.", "datetime.", "tempfile", "getpid", "get_ident", "current_thread", "gettid")


def drive(e, src, **bind):
    e.modules.pop("%drv", None)
    return e.driver(src, **bind)


class CacheFile:
    """Exploration of cache_file under a managed or an unmanaged policy."""

    def __init__(self, rep):
        self.rep = rep
        self.e = e = rep.engine()
        self.fn = e.lookup("utils.caching:cache_file")
        self.cache = e.lookup("utils.caching:CACHE")
        h = e.state0.obj(self.cache)
        rep.need(h is not None and h.kind == "inst" and "_policy" in h.f, "the cache object is gone")
        self.args = dict(owner=SYM("owner", "str"), create=SYM("create", "fn"), args=SYM("args"))
        self.kw = dict(hash_extra=SYM("extra"), extension=SYM("ext", "str"), force=SYM("force"))

    def run(self, managed, may_raise=None, force=None):
        e = self.e
        st = e.state0.fork()
        h = st.obj(self.cache)
        st.put(self.cache.a[0], h.with_f("_policy", SYM("policy", "obj")))

        def assume(a, s):
            if a.k == "t" and a.a[0] == "truthy" and a.a[1].k == "t" and a.a[1].a[0] == ".managed":
                return managed
            if a.k == "t" and a.a[0] == "is" and NONE in a.a[1:] and any(x.k == "t" and x.a[0] == ".directory" for x in a.a[1:]):
                return False
            return None

        def mgr(e, st, f, args, kw, fr, node):
            a = [x for x in args if e.state0.obj(x) is None or x != self.cache]
            name = next((cval(x) for x in a if is_c(x, str)), None)
            ops = [x for x in a if not (x.k == "c" and isinstance(cval(x), (str, bool)))]
            ev = dict(op=name, args=[e.snap(st, x) for x in ops] + [e.snap(st, v) for v in kw.values()])
            e.emit(st, "manager", fr, node, **ev)
            for ex in (e.may_raise("manager:%s" % name, fr, node) or ()) if e.may_raise else ():
                e.raise_(st.fork(), ex, fr, node)
            return [(st, T("record", C(name), *ev["args"]))]

        opq = dict(OPQ)
        opq["utils.caching.Cache._call_manager"] = mgr
        return self.rep.count(
            e.explore(self.fn, list(self.args.values()), self.kw, st=st, opaque=opq, assume=assume, may_raise=may_raise, interest=interest)
        )


def lockname(v):
    return any(x.k == "t" and "FileLock" in str(x.a[0]) for x in walk(v)) or "FileLock" in str(v)


def held_locks(o, upto):
    """File locks held just before event number `upto`: their arguments."""
    cur = []
    pend = []
    for ev in o.events[:upto]:
        nm = str(ev.get("name"))
        if ev.kind == "call" and "FileLock" in nm:
            pend = list(ev.get("args") or ())
        elif ev.kind == "ctxenter" and "FileLock" in nm:
            cur.append(pend)
        elif ev.kind == "ctxexit" and "FileLock" in nm:
            if cur:
                cur.pop()
        elif ev.kind == "call" and nm == ".acquire" and lockname(ev.get("recv") or NONE):
            cur.append([ev.recv])
        elif ev.kind == "call" and nm == ".release" and lockname(ev.get("recv") or NONE):
            if cur:
                cur.pop()
    return cur


def final_of(o):
    """The file's final name: where it is moved to."""
    mv = [(i, ev) for i, ev in enumerate(o.events) if ev.kind == "call" and ev.name in MOVES]
    return mv


@prop("D01")
def d01(rep):
    rep.rule("one-step", "a cache file is made under another name in the same place and put under its own name by a rename, after it is complete")
    rep.rule("once", "the file is made while holding a lock named after it, and only if it still does not exist then")
    rep.rule("failure", "when making the file fails, nothing is left under its name, the error reaches the caller and the unfinished entry is forgotten")
    rep.rule("recorded", "the entry is registered before the file is made, and completed with what making it returned, after the rename")
    rep.rule("result", "the path returned names a file that was there or has just been put in place")
    rep.rule("refresh", "a file that has to be made again is removed first, whoever asks, and only when asked")
    s = CacheFile(rep)
    create = "call:create"
    for managed in (True, False):
        subj = "cache on" if managed else "cache off"
        outs = s.run(managed)
        made = reused = 0
        for o in outs:
            ev_create = [(i, ev) for i, ev in enumerate(o.events) if ev.kind == "call" and ev.name == create]
            mv = final_of(o)
            if o.kind != "return":
                rep.ob("result", subj, False, "cache_file raises %s although nothing failed" % exc_name(o.value), last_site(o), o.events[-8:])
                continue
            path = o.value
            if ev_create:
                made += 1
                i, c = ev_create[0]
                rep.ob("once", subj + " calls", len(ev_create) == 1, "the file is made more than once", c.site)
                tmp = c.args[0]
                rep.ob("one-step", subj, tmp != path, "the file is made in place", c.site, o.events[-8:])
                rep.ob("one-step", subj + " rename", len(mv) == 1 and mv[0][0] > i and mv[0][1].args[0] == tmp and mv[0][1].args[1] == path, "the file made is not renamed to the path returned", mv[0][1].site if mv else c.site)
                dirs = [x for x in walk(path) if x.k == "t" and x.a[0] == ".directory"]
                rep.ob("one-step", subj + " same place", contains(tmp, path) or any(contains(tmp, d) for d in dirs), "the file is not made next to its final place", c.site)
                locks = held_locks(o, i)
                rep.ob("once", subj + " lock", any(any(contains(a, path) for a in l) for l in locks), "the file is made without holding a lock named after it", c.site)
                rep.ob("once", subj + " lock name", not any(x.k == "t" and any(w in str(x.a[0]) for w in UNIQUE) for l in locks for a in l for x in walk(without(a, path))), "every caller has a lock of its own", c.site)
                if mv:
                    rep.ob("once", subj + " lock at rename", bool(held_locks(o, mv[0][0])), "the file is put in place after its lock is let go", mv[0][1].site)
                ent = [j for j, ev in enumerate(o.events[:i]) if ev.kind == "ctxenter" and "FileLock" in str(ev.name) or ev.kind == "call" and ev.name == ".acquire"]
                chk = [ev for ev in o.events[ent[-1] if ent else 0 : i] if ev.kind == "call" and ev.name in EXISTS and path in ev.args]
                rep.ob("once", subj + " again", any(o.state.facts.get(T("truthy", ev.result)) is False for ev in chk), "the file is made without looking again whether it exists now", c.site)
                rep.ob("recorded", subj + " arguments", len(c.args) >= 2 and s.args["args"] in c.args[1:], "the function making the file is not given its arguments", c.site)
                if managed:
                    ops = [(j, ev) for j, ev in enumerate(o.events) if ev.kind == "manager"]
                    last = max([j for j, ev in ops if ev.op in ("decache_file", "delete_entry") and j < i], default=-1)
                    reg = [j for j, ev in ops if ev.op == "register_cache_file" and path in ev.args and last < j < i]
                    rep.ob("recorded", subj + " before", bool(reg), "the file is made before its entry is registered", c.site)
                    upd = [ev for j, ev in ops if ev.op == "update_entry" and mv and j > mv[-1][0]]
                    rep.ob("recorded", subj + " after", any(path in ev.args and any(contains(a, c.result) for a in ev.args) for ev in upd), "the entry is not completed after the rename", c.site)
                    for j, ev in ops:
                        if ev.op in ("decache_file", "delete_entry") and mv and j > mv[-1][0]:
                            rep.ob("result", subj + " kept", False, "the new file is removed again", ev.site)
            else:
                reused += 1
            ex = [ev for ev in o.events if ev.kind == "call" and ev.name in EXISTS and path in ev.args]
            there = any(o.state.facts.get(T("truthy", ev.result)) is True for ev in ex[-1:])
            rep.ob("result", subj, there or bool(mv), "the path returned may not exist", last_site(o), o.events[-8:])
            if managed:
                dec = [ev for ev in o.events if ev.kind == "manager" and ev.op == "decache_file"]
                fv = forced(o)
                if dec:
                    rep.ob("refresh", "only when asked", fv is True, "a file is removed although it need not be made again", dec[0].site)
                if there and not ev_create and fv is True and len(ex) >= 1 and not dec:
                    rep.ob("refresh", "when asked", False, "a file that has to be made again is kept", last_site(o))
        rep.need(made and reused, "%s: paths that make the file: %d, that find it: %d" % (subj, made, reused))
        if managed:
            dec = [o for o in outs if any(ev.kind == "manager" and ev.op == "decache_file" for ev in o.events)]
            rep.ob("refresh", "when asked", bool(dec), "no path removes a file that has to be made again")
        # failures
        for what in (create, ("os.rename", "os.replace", "shutil.move")):
            hit = False
            for o in s.run(managed, may_raise=fails(what)):
                mv = final_of(o)
                bad = [j for j, ev in enumerate(o.events) if ev.kind == "raise" and any(is_c(x) and cval(x) == "!injected" for x in walk(ev.get("exc") or NONE))]
                if not bad:
                    continue
                hit = True
                sub = "%s, %s fails" % (subj, "making it" if what == create else "the rename")
                rep.ob("failure", sub, injected(o), "the error is swallowed", last_site(o), o.events[-8:])
                rep.ob("failure", sub + " nothing left", not [j for j, _ in mv if j > bad[0]], "a file that could not be made is put in place", last_site(o))
                rep.ob("failure", sub + " unlocked", not held_locks(o, len(o.events)), "the lock stays held", last_site(o))
                if managed:
                    fin = [ev.args[0] for ev in o.events if ev.kind == "manager" and ev.op == "register_cache_file" and ev.args]
                    gone = [ev for j, ev in enumerate(o.events) if ev.kind == "manager" and ev.op in ("decache_file", "delete_entry") and j > bad[0] and any(f in ev.args for f in fin)]
                    rep.ob("failure", sub + " forgotten", bool(gone), "the unfinished entry stays and protects newer entries from eviction", last_site(o))
            rep.need(hit, "%s: %s is never reached" % (subj, what))


def forced(o):
    """Truth of the answer to `must the file be made again?` on this path."""
    r = None
    for a, v in o.state.facts.items():
        if a.k == "t" and a.a[0] == "truthy" and has_sym(a, "force") and not (a.a[1].k == "t" and a.a[1].a[0] == "callable"):
            r = v
        if a.k == "t" and a.a[0] == "is" and has_sym(a, "force") and r is None and v:
            r = False if NONE in a.a[1:] else None
    return r


@prop("D02")
def d02(rep):
    rep.rule("confined", "a file is only removed after it was found to lie inside the cache directory")
    rep.rule("inside", "a path lies inside the cache directory only if it is below it: files next to it whose names merely start alike, and the directory itself, do not")
    rep.rule("links", "removing a link removes the link and not what it points to")
    rep.rule("registered", "only files inside the cache directory get an entry")
    s = Manager(rep)
    e = s.e
    for cmd, args in (("_delete_entry", [SYM("path", "str")]), ("_delete_entry", None), ("_decache_file", [SYM("path", "str")]), ("_delete_file", [SYM("path", "str")])):
        m = e.class_attr(s.cls, cmd, e.state0)
        if m is None:
            rep.need(cmd not in ("_decache_file",), "the cache manager has no %s" % cmd)
            continue
        st = s.state()
        if args is None:
            args = [T("item", SYM("rows"), C("entry"))]
        n = 0
        for o in s.run(cmd, args, st):
            for j, ev in enumerate(o.events):
                if ev.kind == "call" and ev.name in DELETES:
                    n += 1
                    p = ev.args[0]
                    rep.ob("confined", cmd, inside_checked(o, p), "%s without checking that the file is in the cache directory" % ev.name, ev.site, o.events[-8:])
                    if ev.name == "shutil.rmtree":
                        lk = [x for x in o.state.facts if x.k == "t" and x.a[0] == "truthy" and x.a[1].k == "t" and x.a[1].a[0] == "os.path.islink" and x.a[1].a[1] == p]
                        rep.ob("links", cmd, any(o.state.facts[x] is False for x in lk), "a link to a directory is followed", ev.site)
            if any(ev.kind == "raise" for ev in o.events) and False:
                pass
        rep.ob("confined", cmd + " deletes", n > 0, "no path removes the file")
    for cmd, args in (("_register_cache_file", [SYM("path", "str"), SYM("owner", "str"), SYM("args")]), ("_update_entry", [SYM("path", "str"), SYM("data")])):
        st = s.state()
        for o in s.run(cmd, args, st):
            for ev in sql_events(o):
                if sql_text(ev) is not None and re.match(r"\s*(INSERT|UPDATE)", sql_text(ev), re.I):
                    rep.ob("registered", cmd, inside_checked(o, SYM("path", "str")), "an entry is made for a file outside the cache directory", ev.site)
    # files found in the directory
    rep.rule("orphans", "of the files found in the cache directory only those of no entry, not the database and not recently changed ones become entries")
    n = 0
    for o in s.run("_housekeeping", [], s.state(), opaque=s.others("_housekeeping")):
        for ev in o.events:
            if ev.kind == "call" and ev.name == "manager:_register_cache_file":
                n += 1
                p = ev.args[0]
                found = [x for x in walk(p) if x.k == "t" and x.a[0] in ("elem", "item") and any("listdir" in str(y.a[0]) or "scandir" in str(y.a[0]) or "iterdir" in str(y.a[0]) or "glob" in str(y.a[0]) for y in walk(x) if y.k == "t")]
                up = any(x.k == "t" and (x.a[0] in ("os.path.dirname", "os.path.split", "os.path.pardir") or x.a[0] == "attr" and x.a[2] in (C("parent"), C("parents"))) or is_c(x, str) and cval(x) == ".." for x in walk(p))
                rep.ob("orphans", "place", bool(found) and not up and any(x.k == "t" and x.a[0] == ".directory" for x in walk(p)), "takes files from elsewhere: %s" % show(p, 4), ev.site)
                db = [v for a, v in o.state.facts.items() if a.k == "t" and a.a[0] == "eq" and any(is_c(x, str) and cval(x).endswith(".db") for x in walk(a)) and any(contains(a, x) for x in found)]
                rep.ob("orphans", "database", False in db and True not in db, "the database of the cache itself may become an entry, and be removed", ev.site)
                rep.ob("orphans", "recent files", ages(o.state.facts) == [True], "files being made or downloaded may become entries, and be removed", ev.site)
                look = [x for x in sql_events(o) if sql_text(x) and any(re.match(r"path ?=", w, re.I) for w in sql_parse(sql_text(x))["where"]) and any(contains(y, p) for y in x.args[1:])]
                rep.ob("orphans", "entries", bool(look), "it is not looked whether the file has an entry", ev.site)
    rep.need(n, "files without an entry are never found")
    # what counts as inside
    cases = [("/c/dir/file", "/c/dir", True), ("/c/dir/sub/file", "/c/dir", True), ("/c/dir-other/file", "/c/dir", False), ("/c/dir.bak", "/c/dir", False), ("/c", "/c/dir", False), ("/etc/passwd", "/c/dir", False), ("/c/dir/file", "/c/dir/", True), ("/c/dir2", "/c/dir/", False)]
    pol = e.lookup("utils.caching:CachePolicy")
    for c in [x for x in e.subclasses(pol.a[0]) if not e.is_abstract(x)]:
        m = e.class_attr(c, "file_in_cache_directory", e.state0)
        d = e.class_attr(c, "directory", e.state0)
        if m is None or d is None or d.k != "fn":
            continue
        probe = [o for o in rep.count(e.explore(e.bind(d, REF("probe"), c, e.state0), [], st=s.probe(c), opaque=OPQ)) if o.kind == "return"]
        if not probe or all(o.value == NONE for o in probe):
            continue  # this policy has no directory
        for path, dr, want in cases:
            st = s.probe(c)
            opq = dict(OPQ)
            opq[d.a[0].qual if hasattr(d.a[0], "qual") else ""] = lambda e, st, f, args, kw, fr, node, dr=dr: [(st, C(dr))]
            outs = rep.count(e.explore(e.bind(m, REF("probe"), c, st), [C(path)], st=st, opaque=opq))
            vals = {e.truth(o.value, o.state) if o.kind == "return" else "error" for o in outs}
            if None in vals:
                vals.discard(None)  # not decided for constants: judged by the other rules
            rep.ob("inside", "%s: %s in %s" % (c.name, path, dr), vals <= {want}, "is%s taken to be inside" % ("" if want is False else " not"), None)


def inside_checked(o, p):
    """Was `p` found to be inside the cache directory on this path?"""
    for a, v in o.state.facts.items():
        if v is True and a.k == "t" and contains(a, p) and any(x.k == "t" and x.a[0] in (".file_in_cache_directory",) for x in walk(a)):
            return True
        if v is True and a.k == "t" and contains(a, p) and any(x.k == "t" and x.a[0] in (".startswith", ".is_relative_to", "startswith") for x in walk(a)) and any(x.k == "t" and x.a[0] == ".directory" for x in walk(a)):
            return True
        if a.k == "t" and contains(a, p) and v is True and a.a[0] == "eq" and any(x.k == "t" and x.a[0].startswith("os.path.common") for x in walk(a)):
            return True
    return False


SQLM = (".execute", ".executemany", ".executescript")


def sql_events(o):
    return [ev for ev in o.events if ev.kind == "call" and ev.name in SQLM]


def sql_text(ev):
    a = list(ev.args)
    if a and is_c(a[0], str):
        return cval(a[0])
    return None


# steps of the manager looked at one by one; helpers of theirs are looked at together with them
STEPS = ("new_connection", "enqueue", "_ensure_in_cache", "_config_changed", "_latest_date", "_purge_cache", "_cache_entries", "_update_entry", "_update_cache", "_housekeeping", "_delete_file", "_entry_to_dict", "_delete_entry", "_decache", "_register_cache_file", "_cache_size", "_decache_file", "_check_cache_size", "_dump_cache_database", "_summary_dump_cache_database")


class Manager:
    """The cache manager with an open database and an arbitrary managed policy."""

    def __init__(self, rep):
        self.rep = rep
        self.e = e = rep.engine()
        c = e.lookup("utils.caching:CacheManager")
        self.cls = c.a[0]
        st, fn = drive(e, "def main():\n    return CacheManager()\n", CacheManager=c)
        outs = [o for o in e.explore(fn, [], st=st, opaque=OPQ) if o.kind == "return"]
        rep.need(outs, "the cache manager cannot be made")
        self.obj = outs[0].value
        self.base = outs[0].state

    def state(self):
        st = self.base.fork()
        st.facts = dict(self.base.facts) if hasattr(self.base, "facts") else st.facts
        h = st.obj(self.obj)
        h = h.with_f("_policy", SYM("policy", "obj")).with_f("_connection", SYM("connection", "obj"))
        st.put(self.obj.a[0], h)
        return st

    def probe(self, c):
        st = self.e.state0.fork()
        st.put("probe", H("inst", c, {"_config": SYM("options", "dict"), "_path": SYM("path0", "str"), "_dir": NONE}))
        return st

    def methods(self):
        """name -> function of every method of the manager's class."""
        out = {}
        h = self.e.state0.get(self.cls.oid)
        for k, v in h.f.items():
            if v.k == "fn" and not k.startswith("__"):
                out[k] = v.a[0]
        return out

    def commands(self):
        """Commands the manager carries out, with arbitrary arguments."""
        for k, f in sorted(self.methods().items()):
            if k in ("run", "enqueue", "start", "new_connection", "_repr_html_") or f.decorators:
                continue
            a = f.node.args
            yield k, [SYM("arg:" + x.arg) for x in (a.posonlyargs + a.args)[1:]]

    def others(self, *cmd):
        """All other methods left uninterpreted (they are looked at on their own)."""

        def op(e, st, f, args, kw, fr, node):
            e.emit(st, "call", fr, node, name="manager:" + f.a[0].name, f=NONE, recv=None, args=[e.snap(st, x) for x in args[1:]], kwargs=dict(kw), result=NONE)
            return [(st, T("sub:" + f.a[0].name, *[e.snap(st, x) for x in args[1:]], SYM(e.site(fr, node))))]

        return {f.qual: op for k, f in self.methods().items() if k in STEPS and k not in cmd}

    def run(self, cmd, args, st, kw=None, opaque=None, may_raise=None, assume=None, models=None):
        e = self.e
        m = e.class_attr(self.cls, cmd, st)

        def asm(a, x):
            if a.k == "t" and a.a[0] == "truthy" and a.a[1].k == "t" and a.a[1].a[0] == ".managed":
                return True
            return assume(a, x) if assume else None

        opq = dict(OPQ)
        opq.update(opaque or {})
        return self.rep.count(e.explore(e.bind(m, self.obj, self.cls, st), list(args), kw or {}, st=st, opaque=opq, assume=asm, may_raise=may_raise, models=models or {}, interest=interest))


PUBLIC = {
    # method of the cache: (arguments, must answer)
    "size": ([], True),
    "entries": ([], True),
    "purge": ([], True),
    "check_size": ([], False),
    "summary_dump_database": ([], True),
    "_register_cache_file": ([SYM("path", "str"), SYM("owner", "str"), SYM("args")], True),
    "_update_entry": ([SYM("path", "str"), SYM("data")], True),
    "_decache_file": ([SYM("path", "str")], True),
}


def cache_state(rep, e, mgr, managed=True, policy=True, manager=True):
    """A state of the process-wide cache object."""
    cache = e.lookup("utils.caching:CACHE")
    st = mgr.base.fork()
    h = st.obj(cache)
    rep.need(h is not None and {"_policy", "_manager"} <= set(h.f), "the cache object is gone")
    h = h.with_f("_policy", SYM("policy", "obj") if policy else NONE).with_f("_manager", mgr.obj if manager else NONE)
    st.put(cache.a[0], h)
    return cache, st


def enqueue_opaque(e, st, f, args, kw, fr, node):
    a = list(args)[1:]
    e.emit(st, "enqueue", fr, node, func=a[0] if a else NONE, args=[e.snap(st, x) for x in a[1:]], kwargs=dict(kw))
    k = sum(1 for _ in st.events) if hasattr(st, "events") else 0
    return [(st, T("future", C(k), a[0] if a else NONE, *[e.snap(st, x) for x in a[1:]]))]


def managed_assume(val):
    def asm(a, s):
        if a.k == "t" and a.a[0] == "truthy" and a.a[1].k == "t" and a.a[1].a[0] == ".managed":
            return val
        return None

    return asm


def fresh_policy(e, st, f, args, kw, fr, node):
    return [(st, SYM("newpolicy", "obj"))]


@prop("D03")
def d03(rep):
    rep.rule("commands", "every operation on the cache reaches the command of the manager that carries it out, with its arguments")
    rep.rule("answer", "an operation returns what the command returned; with the cache off it does nothing")
    rep.rule("one-thread", "the database is only used on the manager's thread")
    rep.rule("request", "a request becomes ready exactly when its command has ended, wakes the caller, and hands over the result or the error")
    rep.rule("queue", "requests are queued and taken in order under the queue's lock, the thread is woken, and every request taken is carried out")
    rep.rule("private", "commands of the manager never wait for the cache's own locks")
    s = Manager(rep)
    e = s.e
    opq = dict(OPQ)
    opq["utils.caching.CacheManager.enqueue"] = enqueue_opaque
    for name, (args, answer) in sorted(PUBLIC.items()):
        for managed in (True, False):
            cache, st = cache_state(rep, e, s)
            cls = st.obj(cache).cls
            m = e.class_attr(cls, name, st)
            rep.need(m is not None, "the cache has no operation %s" % name)
            outs = rep.count(e.explore(e.bind(m, cache, cls, st), args, {}, st=st, opaque=opq, assume=managed_assume(managed), interest=lambda ev, st, fr: ev.kind in KINDS | {"enterfn"}))
            for o in outs:
                enq = [ev for ev in o.events if ev.kind == "enqueue"]
                if managed:
                    ok = o.kind == "return" and len(enq) == 1 and enq[0].func.k in ("fn", "bound", "bm", "meth")
                    rep.ob("commands", name, ok, "does not reach the manager: %s" % (show(o.value) if o.kind == "raise" else "%d requests" % len(enq)), last_site(o))
                    if enq:
                        rep.ob("commands", name + " arguments", all(any(contains(x, a) for x in enq[0].args) or any(contains(x, a) for x in enq[0].kwargs.values()) for a in args), "arguments are lost on the way", enq[0].site)
                    if answer and o.kind == "return":
                        rep.ob("answer", name, any(x.k == "t" and x.a[0] == "future" for x in walk(o.value)), "returns %s" % show(o.value), last_site(o))
                else:
                    rep.ob("answer", name + " off", o.kind == "return" and not enq, "with the cache off the manager is used", last_site(o))
                bad = sql_events(o)
                rep.ob("one-thread", name, not bad, "uses the database on the caller's thread", bad[0].site if bad else None)
    cache, st = cache_state(rep, e, s)
    cls = st.obj(cache).cls
    for k, v in sorted(e.state0.get(cls.oid).f.items()):
        if v.k != "fn" or k.startswith("__") or v.a[0].decorators or k in PUBLIC:
            continue
        a = v.a[0].node.args
        cache, st = cache_state(rep, e, s)
        for o in rep.count(e.explore(e.bind(v, cache, cls, st), [SYM("arg:" + x.arg) for x in (a.posonlyargs + a.args)[1:]], {}, st=st, opaque={**opq, "utils.caching.CachePolicy.from_config": fresh_policy}, assume=managed_assume(True), interest=interest)):
            bad = sql_events(o)
            rep.ob("one-thread", k, not bad, "uses the database on the caller's thread", bad[0].site if bad else None)
            rep.ob("one-thread", k + " one manager", o.kind != "return" or o.state.obj(cache).f["_manager"] == s.obj, "a second thread is started for the cache", last_site(o))
    # purge hands over its matcher
    cache, st = cache_state(rep, e, s)
    cls = st.obj(cache).cls
    m = e.class_attr(cls, "purge", st)
    for o in rep.count(e.explore(e.bind(m, cache, cls, st), [], {"matcher": SYM("matcher", "fn")}, st=st, opaque=opq, assume=managed_assume(True), interest=interest)):
        enq = [ev for ev in o.events if ev.kind == "enqueue"]
        rep.ob("commands", "purge matcher", bool(enq) and any(contains(x, SYM("matcher", "fn")) for x in list(enq[0].args) + list(enq[0].kwargs.values())), "the matcher is lost on the way", last_site(o))
    # requests
    fut = e.lookup("utils.caching:Future")
    for failing in (False, True):
        st, fn = drive(e, "def main():\n    f = Future(work, (a1,), dict(k=k1))\n    f.execute()\n    return f\n", Future=fut, work=SYM("work", "fn"), a1=SYM("a1"), k1=SYM("k1"))

        def mr(name, fr, node, failing=failing):
            if failing and name and "work" in name:
                return [EXC(EXT("builtins.ValueError"), C("!injected"))]

        n = 0
        for o in rep.count(e.explore(fn, [], st=st, may_raise=mr, opaque=OPQ, interest=interest)):
            call = [(i, ev) for i, ev in enumerate(o.events) if ev.kind == "call" and "work" in str(ev.name)]
            bad = [i for i, ev in enumerate(o.events) if ev.kind == "raise" and any(is_c(x) and cval(x) == "!injected" for x in walk(ev.get("exc") or NONE))]
            sub = "failing command" if bad else "command"
            n += bool(bad)
            rep.ob("request", sub + " contained", o.kind == "return", "an error of a command ends the manager's thread", last_site(o))
            if o.kind != "return":
                continue
            if not bad:
                rep.ob("request", sub + " carried out", len(call) == 1 and SYM("a1") in call[0][1].args and SYM("k1") in (call[0][1].kwargs or {}).values(), "the command is not called once with its arguments", last_site(o))
            h = o.state.obj(o.value)
            ready = [k for k, v in h.f.items() if v == TRUE]
            rep.ob("request", sub + " ready", bool(ready), "never becomes ready: the caller waits for ever", last_site(o))
            note = [i for i, ev in enumerate(o.events) if ev.kind == "notify"]
            rep.ob("request", sub + " wakes", bool(note), "the caller is not woken", last_site(o))
            sets = [i for i, ev in enumerate(o.events) if ev.kind == "setattr" and ev.get("obj") == o.value and ev.name in ready and ev.value == TRUE]
            work = (bad or [call[0][0]])[0] if (bad or call) else 0
            rep.ob("request", sub + " ready after", bool(sets) and sets[-1] > work, "is ready before its command has ended", last_site(o))
            res = [i for i, ev in enumerate(o.events) if ev.kind == "setattr" and ev.get("obj") == o.value and ev.name not in ready and i > work]
            rep.ob("request", sub + " result first", bool(res) and bool(sets) and res[0] < sets[-1], "is ready before its result is there", last_site(o))
            if note and sets:
                rep.ob("request", sub + " order", note[-1] > sets[-1] or any(ev.held for ev in [o.events[note[-1]]]), "wakes the caller before it is ready", last_site(o))
            hl = [ev for ev in o.events if ev.kind == "setattr" and ev.get("obj") == o.value and ev.name in ready and ev.value == TRUE]
            rep.ob("request", sub + " locked", all(ev.held for ev in hl), "becomes ready without the lock the caller waits with", last_site(o))
        rep.need(n == 0 or failing, "failure injected by mistake")
        rep.need(n or not failing, "the command is never called")
    for src, want in (("def main():\n    f = Future(work, (), {})\n    f.execute()\n    return f.result()\n", "return"), ("def main():\n    f = Future(work, (), {})\n    f.execute()\n    return f.result()\n", "raise"), ("def main():\n    f = Future(work, (), {})\n    return f.result()\n", "wait")):
        st, fn = drive(e, src, Future=fut, work=SYM("work", "obj"))

        def mr(name, fr, node, want=want):
            if want == "raise" and name and "work" in name:
                return [EXC(EXT("builtins.ValueError"), C("!injected"))]

        outs = rep.count(e.explore(fn, [], st=st, may_raise=mr, opaque=OPQ, interest=interest))
        if want == "return":
            ok = [o for o in outs if o.kind == "return" and any(x.k == "t" and "work" in str(x.a[0]) or x.k == "sym" and x.a[0] == "work" for x in walk(o.value))]
            rep.ob("request", "result handed over", bool(ok), "the caller does not get the result")
        elif want == "raise":
            fine = [o for o in outs if injected(o)]
            lost = [o for o in outs if o.kind == "return" and any(ev.kind == "raise" for ev in o.events)]
            rep.ob("request", "error handed over", bool(fine) and not lost, "the caller does not get the error")
        else:
            for o in outs:
                w = [ev for ev in o.events if ev.kind == "wait"]
                rep.ob("request", "waits", bool(w) and all(ev.held for ev in w), "the caller does not wait for the result", last_site(o))
                rep.ob("request", "waits until ready", any(still_ready(a, v) for a, v in o.state.facts.items()), "the caller goes on without the request being ready", last_site(o))
    # queue
    st = s.state()
    h = st.obj(s.obj)
    qf = [k for k, v in h.f.items() if st.obj(v) is not None and st.obj(v).kind == "list"]
    rep.need(qf, "the manager has no queue")
    qv = h.f[qf[0]]
    st.put(qv.a[0], H("list", None, {}, (SYM("waiting", "obj"),)))
    for o in s.run("enqueue", [SYM("work", "fn"), SYM("a1")], st):
        q = o.state.obj(o.state.obj(s.obj).f[qf[0]]).items
        rep.ob("queue", "last", o.kind == "return" and len(q) == 2 and q[0] == SYM("waiting", "obj") and q[1] == o.value, "a request is not queued behind the others", last_site(o))
        note = [ev for ev in o.events if ev.kind == "notify"]
        rep.ob("queue", "woken", bool(note) and all(ev.held for ev in note), "the manager's thread is not woken", last_site(o))
        mut = [ev for ev in o.events if ev.kind in ("mut", "setitem") and ev.obj == qv]
        rep.ob("queue", "locked", all(ev.held for ev in mut) and bool(mut), "the queue is changed without its lock", last_site(o))
    st = s.state()
    st.put(qv.a[0], H("list", None, {}, (SYM("first", "obj"), SYM("second", "obj"))))

    def stop(name, fr, node):
        if name in (".execute", ".run"):
            return [EXC(EXT("builtins.SystemExit"), C("!stop"))]

    n = 0
    st.thread = "manager"
    for o in s.run("run", [], st, may_raise=stop):
        ex = [ev for ev in o.events if ev.kind == "call" and ev.name in (".execute", ".run")]
        rs = [ev for ev in o.events if ev.kind == "raise" and any(is_c(x) and cval(x) == "!stop" for x in walk(ev.get("exc") or NONE))]
        if not rs or len(ex) != 1:
            continue
        n += 1
        rep.ob("queue", "first carried out", ex[0].recv == SYM("first", "obj"), "does not carry out the first request", ex[0].site)
        q = o.state.obj(o.state.obj(s.obj).f[qf[0]]).items
        mut = [ev for ev in o.events if ev.kind in ("mut", "setitem", "delitem") and ev.obj == qv]
        rep.ob("queue", "first", len(q) == 1 and q[0] == SYM("second", "obj"), "does not take the first request", last_site(o))
        rep.ob("queue", "taken under the lock", bool(mut) and all(ev.held for ev in mut), "takes a request without the queue's lock", last_site(o))
        rep.ob("queue", "free while working", not any(o.events[-1].held for _ in [0]) if not ex else not ex[-1].held, "carries out a request while holding the queue's lock", last_site(o))
    rep.ob("queue", "carried out", n > 0, "no request is carried out")
    # commands do not take the cache's locks
    cache = e.lookup("utils.caching:CACHE")
    own = {v for v in e.state0.obj(cache).f.values() if e.state0.obj(v) is not None and e.state0.obj(v).kind == "lock"}
    rep.need(len(own) >= 1, "the cache has no locks")
    for cmd, params in s.commands():
        outs = s.run(cmd, params, s.state(), opaque=s.others(cmd))
        bad = [ev for o in outs for ev in o.events if ev.kind == "acquire" and ev.lock in own]
        rep.ob("private", cmd, not bad, "waits for a lock the caller holds", bad[0].site if bad else None)


def still_ready(a, v):
    return v is True and a.k == "t" and a.a[0] == "truthy" and a.a[1].k == "t"


def lock_graph(outs, edges, who):
    for o in outs:
        for ev in o.events:
            if ev.kind == "acquire":
                for h in ev.held:
                    edges.setdefault((h, ev.lock), (who, ev.site))


@prop("D07")
def d07(rep):
    rep.rule("order", "the locks of the caches are always taken in one order, so no two threads wait for each other")
    rep.rule("released", "every operation lets go of every lock, whatever happens")
    rep.rule("reentered", "no thread waits for a lock it holds")
    s = Manager(rep)
    e = s.e
    edges = {}
    opq = dict(OPQ)
    opq["utils.caching.CacheManager.enqueue"] = enqueue_opaque
    cache = e.lookup("utils.caching:CACHE")
    own = [v for v in e.state0.obj(cache).f.values() if e.state0.obj(v) is not None and e.state0.obj(v).kind == "lock"]
    rep.need(own, "the cache has no locks")
    e.deadlocks.clear()
    ops = dict(PUBLIC)
    ops["_config_changed"] = ([], False)
    ops["directory"] = ([], False)
    n = 0
    for name, (args, _) in sorted(ops.items()):
        for pol in (True, False):
            for man in (True, False):
                for failing in (False, True):
                    cache, st = cache_state(rep, e, s, policy=pol, manager=man)
                    cls = st.obj(cache).cls
                    m = e.class_attr(cls, name, st)
                    if m is None:
                        continue

                    def mr(nm, fr, node, failing=failing):
                        if failing and nm and (nm in (".result", ".outdated", ".update", "os.makedirs") or nm.endswith("temp_directory")):
                            return [EXC(EXT("builtins.OSError"), C("!injected"))]

                    def res(e, st, f, args, kw, fr, node):
                        for ex in (e.may_raise(".result", fr, node) or ()) if e.may_raise else ():
                            e.raise_(st.fork(), ex, fr, node)
                        return [(st, T("answer"))]

                    o2 = dict(opq)
                    o2["utils.caching.Future.result"] = res
                    outs = rep.count(e.explore(e.bind(m, cache, cls, st), args, {}, st=st, opaque=o2, may_raise=mr, interest=interest))
                    lock_graph(outs, edges, name)
                    for o in outs:
                        n += 1
                        left = [v for v in own if held_at_end(o, v)]
                        rep.ob("released", name + (" failing" if failing else ""), not left, "ends with a lock held", last_site(o), o.events[-8:])
    rep.ob("reentered", "all operations", not e.deadlocks, "waits for a lock it holds: %s" % (e.deadlocks[:1],), str(e.deadlocks[0]) if e.deadlocks else None)
    # a cycle in the order
    for (a, b), (who, site) in edges.items():
        seen, todo = set(), [b]
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            todo += [d for (c, d) in edges if c == x]
        rep.ob("order", "%s before %s" % (lname(e, a), lname(e, b)), a not in seen, "%s takes them in the other order" % who, site)
    rep.need(n >= 20 and edges, "no nested locking found (%d paths)" % n)


def lname(e, v):
    for nm in ("utils.caching:CACHE", "utils.memcache:MEMORY_CACHE"):
        h = e.state0.obj(e.lookup(nm))
        for k, x in h.f.items():
            if x == v:
                return k
    return "queue lock"


def held_at_end(o, lock):
    n = 0
    for ev in o.events:
        if ev.kind == "acquire" and ev.lock == lock:
            n += 1
        elif ev.kind == "release" and ev.lock == lock:
            n -= 1
    return n > 0


# ---------------------------------------------------------------------- the key
LOSSY = {"slice", "truthy", "attr", "len", "sum", "any", "all", "min", "max", "re.sub", "re.findall", "re.split", "re.match", "re.search", "set"}
LOSSY |= {"builtins." + x for x in ("hash", "len", "id", "type", "min", "max", "abs", "round", "int", "bool", "sum", "any", "all", "sorted", "set", "frozenset", "reversed", "isinstance", "ord")}
LOSSY |= {"os.path." + x for x in ("basename", "dirname", "split", "splitext", "normpath", "realpath", "abspath", "normcase", "commonprefix", "exists", "isfile", "getsize")}
LOSSY |= {"urllib.parse." + x for x in ("urlparse", "urlsplit", "urldefrag", "unquote", "unquote_plus", "parse_qs")}
FAITHFUL = {".encode", ".items", ".format", ".join", ".copy", ".decode", ".__str__", ".__repr__", ".dumps", ".hexdigest", ".digest", ".ljust", ".center", ".update", ".setdefault"}


def unsub(a):
    """0 < x - y says y < x."""
    if a.k == "t" and a.a[0] in ("lt", "le"):
        p, q = a.a[1], a.a[2]
        if p == C(0) and q.k == "t" and q.a[0] == "bin:Sub":
            return T(a.a[0], q.a[2], q.a[1])
        if q == C(0) and p.k == "t" and p.a[0] == "bin:Sub":
            return T(a.a[0], p.a[1], p.a[2])
    return a


def lossless(v, leaf, inside=True):
    """Does v contain `leaf` below no operation that forgets part of it?"""
    if v == leaf:
        return inside
    if v.k == "t" and (v.a[0] in LOSSY or "builtins." + v.a[0] in LOSSY or (v.a[0][:1] == "." and v.a[0] not in FAITHFUL)):
        return False
    if v.k == "t" and v.a[0] == "item" and contains(v.a[1], leaf):
        return False
    return any(lossless(x, leaf) for x in v.a if isinstance(x, V)) or any(lossless(y, leaf) for x in v.a if isinstance(x, tuple) for y in x if isinstance(y, V))


def whole_digest(v, d):
    """Is the digest part of v, cut to no fewer than 16 characters?"""
    if v == d:
        return True
    if v.k == "t" and v.a[0] in ("slice", "item") and contains(v.a[1], d):
        n = [cval(x) for y in v.a[2:] if isinstance(y, V) for x in walk(y) if x.k == "c" and isinstance(cval(x), int) and not isinstance(cval(x), bool)]
        return bool(n) and max(n) >= 16 and whole_digest(v.a[1], d)
    return any(whole_digest(x, d) for x in v.a if isinstance(x, V) and contains(x, d))


@prop("D04")
def d04(rep):
    rep.rule("key", "the name of a cache file is derived from all of the owner, the arguments, the extra key and the extension, with nothing forgotten")
    rep.rule("order", "arguments that are equal mappings give the same name whatever their order")
    rep.rule("place", "cache files lie in the cache directory; with the cache off every file gets a name of its own in the temporary directory")
    rep.rule("download", "a downloaded file is remembered under its address and the parts asked for")
    rep.rule("index", "the local copy of a remote inventory's list is remembered under that inventory's address")
    s = CacheFile(rep)
    e = s.e
    for managed in (True, False):
        for o in s.run(managed):
            if o.kind != "return":
                continue
            path = o.value
            subj = "cache on" if managed else "cache off"
            rep.ob("place", subj, any(x.k == "t" and x.a[0] == ".directory" for x in walk(path)), "the file lies elsewhere: %s" % show(path, 4), last_site(o))
            dig = terms(path, "digest")
            if managed:
                for d in dig:
                    rep.ob("key", "whole digest", whole_digest(path, d), "the name of the file has only a short part of its key", last_site(o))
                for nm, leaf in (("owner", s.args["owner"]), ("arguments", s.args["args"]), ("extra key", s.kw["hash_extra"]), ("extension", s.kw["extension"])):
                    rep.ob("key", nm, any(lossless(d, leaf) for d in ([path] if nm == "extension" else dig)), "the name of the file does not depend on all of the %s" % nm, last_site(o))
                for d in dig:
                    js = [x for x in terms(d, "json.dumps") if contains(x, s.args["args"])]
                    rep.ob("order", "arguments", all(any(y.k == "kw" and y.a[0] == "sort_keys" and y.a[1] == TRUE for y in x.a if isinstance(y, V)) for x in js), "the order of the arguments changes the name", last_site(o))
                fresh = [x for x in walk(path) if x.k == "t" and any(w in str(x.a[0]) for w in ("random", "uuid", "time.", "datetime.", "tempfile", "getpid"))]
                rep.ob("key", "reproducible", not fresh, "the name of the file differs every time", last_site(o))
            else:
                fresh = [x for x in walk(path) if x.k == "t" and any(w in str(x.a[0]) for w in ("random", "uuid", "time.", "datetime.", "tempfile"))]
                rep.ob("place", subj + " unique", bool(fresh), "the name of the file is not its own", last_site(o))
    # downloads
    fn = e.lookup("utils.download:download_and_cache")
    got = []

    def cf(e, st, f, args, kw, fr, node):
        a = list(args)
        e.emit(st, "cachefile", fr, node, args=[e.snap(st, x) for x in a], kwargs={k: e.snap(st, v) for k, v in kw.items()})
        return [(st, T("cachepath", *[e.snap(st, x) for x in a[2:]]))]

    opq = dict(OPQ)
    opq["utils.caching.cache_file"] = cf
    keep = lambda ev, st, fr: ev.kind in KINDS | {"cachefile"}  # noqa: E731
    url, parts = SYM("url", "str"), SYM("parts")
    outs = rep.count(e.explore(fn, [url], {"parts": parts}, st=e.state0.fork(), opaque=opq, interest=keep))
    n = 0
    for o in outs:
        for ev in o.events:
            if ev.kind == "cachefile":
                n += 1
                key = list(ev.args[2:]) + list(ev.kwargs.values())
                key = [k for k in key if k.k != "fn"]
                rep.ob("download", "address", any(lossless(k, url) for k in key), "the address is not part of the key", ev.site)
                rep.ob("download", "parts", any(lossless(k, parts) for k in key), "the parts asked for are not part of the key", ev.site)
                dl = [x for x in o.events if x.kind == "call" and x.name == "multiurl.Downloader"]
                rep.ob("download", "fetched", bool(dl) and all(url in list(x.args) + list(x.kwargs.values()) and parts in list(x.args) + list(x.kwargs.values()) for x in dl), "something else is fetched", ev.site)
    rep.need(n, "downloads do not go through cache_file")
    # the local copy of a remote index
    acc = e.lookup("backends.db:UrlAccessor").a[0]
    st = e.state0.fork()
    st.put("acc", H("inst", acc, {"_url": url, "_index_path": NONE, "_checked_remote": FALSE}))
    m = e.class_attr(acc, "index_path", st)
    n = 0
    for o in rep.count(e.explore(e.bind(m, REF("acc"), acc, st), [], {}, st=st, opaque=opq, interest=keep)):
        for ev in o.events:
            if ev.kind == "cachefile":
                key = [k for k in list(ev.args[2:]) + list(ev.kwargs.values()) if k.k != "fn"]
                n += 1
                rep.ob("index", "address", any(lossless(k, url) for k in key), "the inventory's address is not part of the key", ev.site)
    rep.need(n, "the index of a remote inventory does not go through cache_file")


# ---------------------------------------------------------------------- SQL
def sql_parse(text):
    """A small reader for the statements used: kind, columns set/inserted, where-conjuncts, order, selected."""
    t = re.sub(r"\s+", " ", text.strip().rstrip(";")).strip()
    u = t.upper()
    d = {"text": t, "kind": u.split(" ")[0], "set": [], "where": [], "order": None, "cols": [], "n": t.count("?"), "select": None, "limit": " LIMIT " in u}
    m = re.search(r"\bORDER BY (.+?)( LIMIT .*)?$", t, re.I)
    if m:
        d["order"] = m.group(1).strip()
        t = t[: m.start()].strip()
    m = re.search(r"\bWHERE (.+?)( LIMIT .*)?$", t, re.I)
    if m:
        d["where"] = [x.strip().strip("()") for x in re.split(r"\bAND\b", m.group(1), flags=re.I)]
        d["or"] = bool(re.search(r"\bOR\b", m.group(1), re.I))
        t = t[: m.start()].strip()
    if d["kind"] == "UPDATE":
        m = re.search(r"\bSET (.+)$", t, re.I)
        d["set"] = [tuple(y.strip() for y in x.split("=", 1)) for x in m.group(1).split(",")] if m else []
    elif d["kind"] == "INSERT":
        m = re.search(r"\(([^)]*)\) ?VALUES ?\(([^)]*)\)", t, re.I)
        if m:
            d["set"] = list(zip([x.strip() for x in m.group(1).split(",")], [x.strip() for x in m.group(2).split(",")]))
            d["unpaired"] = m.group(1).count(",") != m.group(2).count(",")
    elif d["kind"] == "SELECT":
        m = re.match(r"SELECT (.+?) FROM (\w+)", t, re.I)
        if m:
            d["select"], d["table"] = m.group(1).strip(), m.group(2)
    m = re.search(r"\b(?:FROM|UPDATE|INTO) (\w+)", t, re.I)
    if m:
        d["table"] = m.group(1)
    return d


def sql_bind(d, params):
    """Parameter for each `column op ?`, in order of the placeholders."""
    out, i = {}, 0
    seq = [(c, x) for c, x in d["set"]] + [tuple(re.split(r"\s*(?:<=|>=|=|<|>|LIKE)\s*", w, maxsplit=1, flags=re.I)) if re.search(r"=|<|>|LIKE", w, re.I) else (w, "") for w in d["where"]]
    for j, (c, x) in enumerate(seq):
        k = x.count("?")
        if k:
            out.setdefault(("set" if j < len(d["set"]) else "where", c.strip().lower()), params[i] if i < len(params) else None)
            i += k
    return out


def params_of(o, ev):
    a = list(ev.args)
    if len(a) < 2:
        return []
    v = a[1]
    if v.k == "tup":
        return list(v.a)
    if v.k == "t" and v.a[0] in ("list", "tuple"):
        return list(v.a[1:])
    return None


@prop("D05")
def d05(rep):
    rep.rule("checked", "the limits are checked after every new cache file")
    rep.rule("limit", "when the cache is larger than its limit, the excess is freed; otherwise nothing is removed")
    rep.rule("oldest", "what is removed to make room is what was used longest ago, one entry at a time, until enough is free")
    rep.rule("in-progress", "a file still being made, and anything newer than it, is never removed to make room")
    rep.rule("accounting", "an entry's size is the size of its file, its last use is recorded on every use, and removing it removes its row and the files made from it")
    rep.rule("purge", "purging without a matcher removes every complete entry, with one exactly the entries it accepts")
    rep.rule("statements", "every database statement names existing columns and gets as many values as it has places")
    s = Manager(rep)
    e = s.e
    cf = CacheFile(rep)
    for o in cf.run(True):
        mv = final_of(o)
        if o.kind == "return" and mv:
            ops = [(j, ev.op) for j, ev in enumerate(o.events) if ev.kind == "manager"]
            upd = [j for j, op in ops if op == "update_entry"]
            chk = [j for j, op in ops if op in ("check_cache_size", "check_size") and upd and j > upd[-1]]
            rep.ob("checked", "cache_file", bool(chk), "a new file is not followed by a check of the limits", last_site(o))
    # limits
    for o in s.run("_check_cache_size", [], s.state(), opaque=s.others("_check_cache_size")):
        size = [ev for ev in o.events if ev.kind == "call" and ev.name == "manager:_cache_size"]
        dec = [ev for ev in o.events if ev.kind == "call" and ev.name == "manager:_decache"]
        mx = {x for a in list(o.state.facts) + [y for ev in dec for y in ev.args] for x in walk(a) if x.k == "t" and x.a[0] == ".maximum_cache_size"}
        facts = [(unsub(a), v) for a, v in o.state.facts.items()]
        over = [(a, v) for a, v in facts if a.k == "t" and a.a[0] in ("lt", "le") and any(contains(a, m) for m in mx) and any(x.k == "t" and x.a[0] == "sub:_cache_size" for x in walk(a))]
        abs_dec = [ev for ev in dec if any(contains(x, m) for x in ev.args for m in mx)]
        none = [v for a, v in o.state.facts.items() if a.k == "t" and a.a[0] == "is" and NONE in a.a[1:] and any(contains(a, m) for m in mx)]
        if True in none:
            rep.ob("limit", "no limit", not abs_dec and not over, "files are removed although there is no limit", last_site(o))
        else:
            rep.ob("limit", "looked at", bool(over), "the size of the cache is not compared with the limit", last_site(o))
        for a, v in over:
            # lt(max, size) True  <=>  size > max
            size_right = any(x.k == "t" and x.a[0] == "sub:_cache_size" for x in walk(a.a[2]))
            exceeds = v if size_right else not v
            if exceeds and (a.a[0] == "lt" or not size_right):
                pass
            rep.ob("limit", "absolute limit", bool(abs_dec) == bool(exceeds), "too large: %s, files removed: %s" % (exceeds, bool(abs_dec)), last_site(o))
        for ev in abs_dec:
            x = ev.args[0]
            d = lin(x)
            ok = sorted((k.a[0], c) for k, c in d.items() if k is not None and k.k == "t") == [(".maximum_cache_size", -1), ("sub:_cache_size", 1)] and d.get(None, 0) >= 0
            rep.ob("limit", "excess", ok, "frees %s, not the excess" % show(x, 4), ev.site)
        rel = [ev for ev in dec if ev not in abs_dec]
        us = [(a, v) for a, v in facts if a.k == "t" and a.a[0] in ("lt", "le") and any(x.k == "t" and x.a[0] == ".maximum_cache_disk_usage" for x in walk(a))]
        for a, v in us:
            lim_right = any(x.k == "t" and x.a[0] == ".maximum_cache_disk_usage" for x in walk(a.a[2]))
            exceeds = (not v) if lim_right else v
            rep.ob("limit", "disk usage limit", bool(rel) == bool(exceeds), "too full: %s, files removed: %s" % (exceeds, bool(rel)), last_site(o))
        unl = [v for a, v in o.state.facts.items() if a.k == "t" and a.a[0] == "is" and NONE in a.a[1:] and any(x.k == "t" and x.a[0] == ".maximum_cache_disk_usage" for x in walk(a))]
        rep.ob("limit", "disk usage looked at", bool(us) or True in unl, "the disk usage is not compared with its limit", last_site(o))
        for ev in rel:
            ok = any(x.k == "t" and x.a[0] == ".maximum_cache_disk_usage" for x in walk(ev.args[0]))
            rep.ob("limit", "disk usage excess", ok, "frees %s" % show(ev.args[0], 4), ev.site)
    # making room
    want = SYM("arg:bytes", "num")
    freed = 0
    which = lambda d: ["o1"] if any(re.search(r"orphan", w, re.I) for w in d["where"]) else ["r1", "r2"]  # noqa: E731
    for o in s.run("_decache", [want], s.state(), opaque=s.others("_decache"), models=rows_model(which)):
        dele = [(i, ev) for i, ev in enumerate(o.events) if ev.kind == "call" and ev.name == "manager:_delete_entry"]
        sel = [(i, sql_parse(sql_text(ev)), params_of(o, ev)) for i, ev in enumerate(o.events) if ev.kind == "call" and ev.name in SQLM and sql_text(ev)]
        sel = [x for x in sel if x[1]["kind"] == "SELECT"]
        lo = [v for a, v in o.state.facts.items() if a.k == "t" and a.a[0] in ("le", "lt") and want in a.a[1:] and C(0) in a.a[1:]]
        if not sel:
            rep.ob("limit", "nothing to free", not dele, "files are removed although nothing has to be freed", last_site(o))
            if not lo:
                rep.ob("limit", "something to free", False, "nothing is removed although something has to be freed", last_site(o))
            continue
        for i, d, p in sel:
            rep.ob("in-progress", "complete entries only", any(re.search(r"\bsize IS NOT NULL\b|\bsize NOT NULL\b|\bsize NOTNULL\b", w, re.I) for w in d["where"]) and not d.get("or"), "files still being made may be removed: %s" % d["text"], o.events[i].site)
            b = sql_bind(d, p or [])
            older = [v for (k, c), v in b.items() if k == "where" and c == "creation_date"]
            lt = any(re.match(r"creation_date\s*<", w, re.I) for w in d["where"])
            rep.ob("in-progress", "older entries only", lt and any(v is not None and any(x.k == "t" and x.a[0] == "sub:_latest_date" for x in walk(v)) for v in older), "files newer than one being made may be removed", o.events[i].site)
            if which(d) != ["o1"]:
                rep.ob("oldest", "order", bool(d["order"]) and re.fullmatch(r"last_access( ASC)?(,.*)?", d["order"], re.I) is not None, "entries are taken in the order %s" % d["order"], o.events[i].site)
        names = [next((row_named(a) for a in ev.args if row_named(a)), None) for _, ev in dele]
        freed += len(names)
        rep.ob("oldest", "in order", [n for n in names if n != "o1"] == ["r1", "r2"][: len([n for n in names if n != "o1"])] and names.count("o1") <= 1, "entries are removed in the order %s" % names, last_site(o))
        done = {}
        for a, v in o.state.facts.items():
            if a.k == "t" and a.a[0] in ("lt", "le") and want in a.a[1:] and C(0) not in a.a[1:]:
                tot, left = (a.a[1], True) if a.a[2] == want else (a.a[2], False)
                # enough: total >= bytes
                k = frozenset(row_named(x) for x in walk(tot) if x.k == "t" and x.a[0] == "sub:_delete_entry")
                done[k] = (not v) if left else v
        for n in range(1, len(names) + 1):
            k = frozenset(names[:n])
            rep.ob("oldest", "counted", k in done, "after removing %s it is not looked whether that is enough" % names[:n], last_site(o))
            if done.get(k) is True:
                rep.ob("oldest", "until enough", n == len(names), "goes on removing when enough is free", last_site(o))
        if o.kind == "return" and not any(done.values()):
            rep.ob("oldest", "tries everything", "r2" in names, "stops before enough is free", last_site(o))
    rep.need(freed, "no entry is ever removed to make room")
    # a purge takes everything, whatever is being made
    full = s.run("_latest_date", [], s.state(), opaque=s.others("_latest_date"))
    q = [sql_parse(sql_text(ev)) for o in full for ev in sql_events(o) if sql_text(ev)]
    rep.ob("in-progress", "date of the oldest unfinished file", any(re.search(r"MIN\( ?creation_date ?\)", d["select"] or "", re.I) and any(re.match(r"size IS NULL", w, re.I) for w in d["where"]) for d in q), "the files still being made are not looked at")
    for o in full:
        if o.kind == "return":
            rep.ob("in-progress", "date returned", o.value.k == "t" or o.value.k == "ref", "returns %s" % show(o.value), last_site(o))
    # accounting
    p = SYM("arg:path", "str")
    for o in s.run("_update_entry", [p, SYM("arg:owner_data")], s.state(), opaque=dict(s.others("_update_entry", "_ensure_in_cache")), models=TREE):
        if o.kind != "return":
            continue
        up = [(ev, sql_parse(sql_text(ev))) for ev in sql_events(o) if sql_text(ev)]
        up = [(ev, d, sql_bind(d, params_of(o, ev) or [])) for ev, d in up if d["kind"] == "UPDATE"]
        ok = [b for ev, d, b in up if b.get(("where", "path")) == p and b.get(("set", "size")) is not None]
        rep.ob("accounting", "size", bool(ok), "the size of the entry is not recorded", last_site(o))
        for b in ok:
            sz = b[("set", "size")]
            isdir = [v for a, v in o.state.facts.items() if a.k == "t" and a.a[0] == "truthy" and a.a[1].k == "t" and a.a[1].a[0] == "os.path.isdir"]
            if isdir == [False]:
                rep.ob("accounting", "size of a file", any(x.k == "t" and x.a[0] in ("os.path.getsize", "os.stat") and contains(x, p) for x in walk(sz)), "records %s" % show(sz, 3), last_site(o))
            if isdir == [True]:
                rep.ob("accounting", "size of a directory", tree_size(sz), "records %s" % show(sz, 4), last_site(o))
            rep.ob("accounting", "owner's data", any(v is not None and has_sym(v, "arg:owner_data") for (k, c), v in b.items() if c == "owner_data"), "the owner's data is not recorded", last_site(o))
    new = kept = 0
    for o in s.run("_register_cache_file", [p, SYM("arg:owner"), SYM("arg:args")], s.state(), opaque=s.others("_register_cache_file")):
        if o.kind != "return":
            continue
        st_ = [(ev, sql_parse(sql_text(ev))) for ev in sql_events(o) if sql_text(ev)]
        st_ = [(ev, d, sql_bind(d, params_of(o, ev) or [])) for ev, d in st_]
        up = [b for ev, d, b in st_ if d["kind"] == "UPDATE"]
        rep.ob("accounting", "last use", any(b.get(("where", "path")) == p and now(b.get(("set", "last_access"))) for b in up), "the last use of the entry is not recorded", last_site(o))
        ins = [(d, b) for ev, d, b in st_ if d["kind"] in ("INSERT", "REPLACE")]
        if ins:
            new += 1
            b = ins[0][1]
            rep.ob("accounting", "new entry", b.get(("set", "path")) == p and b.get(("set", "owner")) == SYM("arg:owner") and has_sym(b.get(("set", "args")) or NONE, "arg:args") and now(b.get(("set", "creation_date"))) and now(b.get(("set", "last_access"))), "the entry is recorded wrongly", last_site(o))
            rep.ob("in-progress", "new entry unfinished", ("set", "size") not in b or b[("set", "size")] == NONE, "a new entry counts as complete before it is", last_site(o))
        else:
            kept += 1
    rep.ob("accounting", "entries made once", new > 0 and kept > 0, "an entry is always, or never, made")
    for o in s.run("_update_cache", [], s.state(), opaque=s.others("_update_cache"), models={**TREE, **rows_model(lambda d: ["u1"] if any(re.match(r"size IS NULL", w, re.I) for w in d["where"]) else None)}):
        if o.kind != "return":
            rep.ob("accounting", "sizes found later", False, "fails", last_site(o))
            continue
        szs = [x for ev in sql_events(o) if sql_text(ev) and sql_parse(sql_text(ev))["kind"] == "UPDATE" for x in listed(o, ev.args[1])]
        isdir = [v for a, v in o.state.facts.items() if a.k == "t" and a.a[0] == "truthy" and a.a[1].k == "t" and a.a[1].a[0] == "os.path.isdir"]
        rep.ob("accounting", "sizes found later", any(has_sym(x, "u1.path") for x in szs), "the size of an entry stays unknown", last_site(o))
        if isdir == [True]:
            rep.ob("accounting", "sizes of directories found later", any(tree_size(y) for x in szs for y in (x.a if x.k == "tup" else (x,))), "records %s" % [show(x, 4) for x in szs], last_site(o))
    # totals
    for nm, got, want in (("sum", SYM("total", "num"), SYM("total", "num")), ("empty cache", NONE, C(0))):

        def one(e, st, recv, args, kw, fr, node, got=got):
            q = [sql_text(ev) for ev in st.ev if ev.kind == "call" and sql_text(ev)]
            if got == NONE and q and re.search(r"(COALESCE|IFNULL) ?\( ?SUM\( ?size ?\) ?, ?0 ?\)", q[-1], re.I):
                return [(st, TUP((C(0),)))]
            return [(st, TUP((got,)))]

        for o in s.run("_cache_size", [], s.state(), opaque=s.others("_cache_size"), models={".fetchone": one}):
            sel = [sql_parse(sql_text(ev)) for ev in sql_events(o) if sql_text(ev)]
            rep.ob("accounting", "total size selects", bool(sel) and all(re.search(r"SUM\( ?size ?\)", d["select"] or "", re.I) and not d["where"] and not d["limit"] for d in sel), "is not the sum over all entries", last_site(o))
            r = o.value
            none = any(v and a.k == "t" and a.a[0] == "is" and NONE in a.a[1:] for a, v in o.state.facts.items())
            zero = any(v is False and a == T("truthy", got) for a, v in o.state.facts.items())
            rep.ob("accounting", "total size, " + nm, o.kind == "return" and (r == want or (none or zero) and r == C(0)), "is %s" % show(r), last_site(o))
    st = s.state()
    for k, c in (("w1", NONE), ("w2", SYM("w2.size", "num")), ("w3", SYM("w3.size", "num"))):
        st.put("row:" + k, H("dict", None, {}, tuple(("k", C(x), c if x == "size" else NONE if x in ("args", "owner_data") else SYM("%s.%s" % (k, x))) for x in COLUMNS)))
    for o in s.run("_summary_dump_cache_database", [], st, opaque=s.others("_summary_dump_cache_database", "_dump_cache_database"), models=rows_model(lambda d: ["w1", "w2", "w3"] if not d["where"] else None)):
        r = o.value.a if o.kind == "return" and o.value.k == "tup" else ()
        full = [k for k in ("w2.size", "w3.size") if not any(v is False and a == T("truthy", SYM(k, "num")) for a, v in o.state.facts.items())]
        rep.ob("accounting", "summary", len(r) == 2 and r[0] == C(3), "does not count every entry: %s" % (show(r[0]) if r else show(o.value)), last_site(o))
        if len(r) == 2:
            rep.ob("accounting", "summary size", lin(r[1]) == {SYM(k, "num"): 1 for k in full}, "the total is %s" % show(r[1], 4), last_site(o))
    # how full the disk is
    du = e.lookup("utils.caching:DiskUsage")
    if du is not None:
        ds, fn = drive(e, "def main():\n    return DiskUsage('/c').percent\n", DiskUsage=du)

        def statvfs(e, st, args, kw, fr, node):
            ref = REF("statvfs")
            st.put("statvfs", H("inst", du.a[0], {k: C(v) for k, v in dict(f_frsize=4096, f_bsize=4096, f_blocks=200, f_bfree=60, f_bavail=50).items()}))
            return [(st, ref)]

        for o in rep.count(e.explore(fn, [], st=ds, models={"os.statvfs": lambda e, st, recv, args, kw, fr, node: statvfs(e, st, args, kw, fr, node)}, interest=interest)):
            if o.kind == "return" and o.value.k == "c":
                rep.ob("limit", "disk usage measured", 69 <= cval(o.value) <= 76, "with 200 blocks, 60 free and 50 available the disk counts as %s%% full" % cval(o.value), last_site(o))
    n = 0

    def children(d, args):
        if d["kind"] == "SELECT" and any(re.match(r"parent\b", w, re.I) for w in d["where"]):
            return ["c1"] if any(row_named(x) == "r0" for a in args[1:] for x in walk(a)) else []
        return None

    st = s.state()
    row = REF("row:r0")
    st.put("row:r0", H("dict", None, {}, tuple(("k", C(c), SYM("r0." + c)) for c in COLUMNS)))
    for exists in (True, False):
        asm = (lambda a, x: True if a.k == "t" and a.a[0] == "truthy" and a.a[1].k == "t" and a.a[1].a[0] in ("os.path.exists", "os.path.lexists") else None) if exists else (lambda a, x: False if a.k == "t" and a.a[0] == "truthy" and a.a[1].k == "t" and a.a[1].a[0] in ("os.path.exists", "os.path.lexists") else None)
        for o in s.run("_delete_entry", [row], st.fork(), opaque=s.others("_delete_entry"), models=rows_model(children), assume=asm):
            if o.kind != "return":
                rep.ob("accounting", "removal", False, "removing an entry raises %s" % exc_name(o.value), last_site(o))
                continue
            ds = [(i, sql_parse(sql_text(ev)), params_of(o, ev)) for i, ev in enumerate(o.events) if ev.kind == "call" and ev.name in SQLM and sql_text(ev)]
            dl = [(i, d, sql_bind(d, q or [])) for i, d, q in ds if d["kind"] == "DELETE"]
            for nm in ("r0", "c1"):
                sub = ("the file's" if nm == "r0" else "its child's") + (" row" if exists else " row, file lost")
                rep.ob("accounting", sub, any(b.get(("where", "path")) == SYM(nm + ".path") for i, d, b in dl), "the row of a removed entry stays", last_site(o))
                if exists:
                    fl = [ev for ev in o.events if ev.kind == "call" and (ev.name == "manager:_delete_file" or ev.name in DELETES) and SYM(nm + ".path") in ev.args]
                    rep.ob("accounting", sub[:-4] + " file", len(fl) == 1, "its file stays", last_site(o))
                    known = not any(v and a == T("is", SYM(nm + ".size"), NONE) or v is False and a == T("truthy", SYM(nm + ".size")) for a, v in o.state.facts.items())
                    if known:
                        rep.ob("accounting", sub[:-4] + " size", contains(o.value, SYM(nm + ".size")), "its size is not reported as freed: %s" % show(o.value, 4), last_site(o))
            rep.ob("accounting", "nothing else", all(len(d["where"]) == 1 and re.match(r"path ?=", d["where"][0], re.I) for i, d, b in dl), "rows of other entries are removed", last_site(o))
            n += 1
    rep.need(n, "removing an entry never ends")
    # purge
    for matcher in (None, SYM("matcher", "fn")):
        sub = "everything" if matcher is None else "matcher"
        hit = 0
        for o in s.run("_purge_cache", [] if matcher is None else [matcher], s.state(), opaque=s.others("_purge_cache", "_dump_cache_database"), models=rows_model(lambda d: ["r1", "r2"] if not d["where"] and not d["limit"] else None)):
            if o.kind != "return":
                continue
            gone = [next((row_named(a) for a in ev.args if row_named(a)), None) for ev in o.events if ev.kind == "call" and ev.name == "manager:_delete_entry"]
            for r in ("r1", "r2"):
                if matcher is None:
                    asked = [(not v) for a, v in o.state.facts.items() if a == T("is", SYM(r + ".size"), NONE)]
                else:
                    asked = [v for a, v in o.state.facts.items() if a.k == "t" and a.a[0] == "truthy" and "matcher" in str(a.a[1].a[0] if a.a[1].k == "t" else a) and row_named(a) == r]
                if not asked:
                    rep.ob("purge", sub + " asked", r in gone and matcher is None, "an entry is left without looking at it", last_site(o))
                    continue
                hit += 1
                rep.ob("purge", sub, (r in gone) == asked[-1], "an entry that is%s to go is%s removed" % ("" if asked[-1] else " not", "" if r in gone else " not"), last_site(o))
        rep.ob("purge", sub + " looks at entries", hit > 0, "no entry is looked at")
    # statements against the table
    schema = None
    for o in s.run("new_connection", [], s.state()):
        for ev in sql_events(o):
            t = sql_text(ev)
            m = re.search(r"CREATE TABLE (?:IF NOT EXISTS )?(\w+) ?\((.*)\)", re.sub(r"\s+", " ", t or ""), re.I)
            if m:
                needed = {x.strip().split(" ")[0].lower() for x in m.group(2).split(",") if re.search(r"NOT NULL|PRIMARY KEY", x, re.I) and not re.search(r"DEFAULT", x, re.I)}
                schema = (m.group(1), {x.strip().split(" ")[0].lower() for x in m.group(2).split(",")})
    rep.need(schema, "the table of entries is never created")
    n = 0
    for cmd, params in s.commands():
        for o in s.run(cmd, params, s.state(), opaque=s.others(cmd)):
            for ev in sql_events(o):
                t = sql_text(ev)
                if t is None or t.upper().lstrip().startswith("CREATE"):
                    continue
                d = sql_parse(t)
                n += 1
                sub = "%s: %s" % (cmd, d["text"][:60])
                pr = params_of(o, ev)
                if pr is not None and ev.name == ".execute":
                    rep.ob("statements", sub + " values", len(pr) == d["n"], "%d places, %d values" % (d["n"], len(pr)), ev.site)
                if d["kind"] == "INSERT":
                    rep.ob("statements", sub + " needed columns", needed <= {c.lower() for c, _ in d["set"]}, "nothing is given for %s" % sorted(needed - {c.lower() for c, _ in d["set"]}), ev.site)
                rep.ob("statements", sub + " shape", not d.get("unpaired"), "as many columns as values are needed", ev.site)
                if d.get("table"):
                    rep.ob("statements", sub + " table", d["table"].lower() == schema[0].lower(), "no table %s" % d["table"], ev.site)
                cols = [c for c, _ in d["set"]] + [re.split(r"[\s=<>]", w)[0] for w in d["where"]] + ([d["order"].split(" ")[0]] if d["order"] else [])
                if d["select"] and d["select"] != "*":
                    cols += [re.sub(r"^\w+\((.*)\)$", r"\1", c.strip()) for c in d["select"].split(",")]
                for c in cols:
                    if re.fullmatch(r"[A-Za-z_]+", c) and c.lower() != "changes":
                        rep.ob("statements", sub + " column " + c, c.lower() in schema[1], "no column %s" % c, ev.site)
    rep.need(n >= 10, "only %d statements found" % n)


def walk_tree(e, st, recv, args, kw, fr, node):
    """os.walk: two directories, the first with two files and the second with one."""
    lst = lambda *x: e.new(st, H("list", None, {}, tuple(x)), node, fr)  # noqa: E731
    top = e.snap(st, args[0])
    a = TUP((top, lst(C("d")), lst(SYM("f0", "str"), SYM("f1", "str"))))
    b = TUP((T("subdir", top), lst(), lst(SYM("g0", "str"))))
    return [(st, lst(a, b))]


TREE = {"os.walk": walk_tree}


def tree_size(v):
    """Is it the sum of the sizes of the three files of walk_tree?"""
    d = lin(v)
    want = {("f0", False), ("f1", False), ("g0", True)}
    got = set()
    for k, c in d.items():
        if k is None or c != 1 or k.k != "t" or "size" not in str(k.a[0]) + str(k.a[-1]):
            return False
        got.add((next((x.a[0] for x in walk(k) if x.k == "sym" and x.a[0] in ("f0", "f1", "g0")), None), any(x.k == "t" and x.a[0] == "subdir" for x in walk(k))))
    return got == want


def listed(o, v):
    h = o.state.obj(v)
    if h is not None and h.kind == "list":
        return list(h.items)
    if v.k == "t" and v.a[0] in ("list", "tuple"):
        return list(v.a[1:])
    return [v]


def now(v):
    return v is not None and any(x.k == "t" and ("datetime.now" in str(x.a[0]) or "time.time" in str(x.a[0]) or "utcnow" in str(x.a[0])) for x in walk(v))


def is_field(v, row, name):
    return v.k == "t" and v.a[0] == "item" and v.a[1] == row and v.a[2] == C(name) or (v.k == "t" and v.a[0] in ("kwopt", ".get") and contains(v, row) and contains(v, C(name)))


DIRKEY = {"user": "user-cache-directory", "temporary": "temporary-cache-directory-root", "off": "temporary-directory-root"}
LIMITS = {"maximum_cache_size": "maximum-cache-size", "maximum_cache_disk_usage": "maximum-cache-disk-usage"}


def cfg_keys(*vals):
    return {cval(x.a[1]) for v in vals for x in walk(v) if x.k == "t" and x.a[0] == "cfg" and x.a[1].k == "c"}


@prop("D06")
def d06(rep):
    rep.rule("policies", "every value the option accepts selects its own policy: off keeps no record of files, user and temporary do")
    rep.rule("directory", "each policy uses the directory its own option names, with ~ expanded")
    rep.rule("limits", "the limits in force are those configured")
    rep.rule("follows", "when the policy or its directory is changed, a new policy takes over; when a limit changes, the policy and the manager follow")
    rep.rule("listens", "the cache is told about every configuration change")
    rep.rule("adopts", "the manager adopts a changed policy: it lets go of the old database and checks the limits")
    s = Manager(rep)
    e = s.e
    base = e.lookup("utils.caching:CachePolicy")
    classes = {}
    for c in [x for x in e.subclasses(base.a[0]) if not e.is_abstract(x)]:
        nm = e.class_attr(c, "_name", e.state0)
        if nm is not None and nm.k == "c":
            classes[cval(nm)] = c
    table = e.state0.obj(e.lookup("utils.config:CONFIG_AND_HELP"))
    opt = next((e.state0.obj(x[2]) for x in table.items if x[1] == C("cache-policy")), None)
    rep.need(opt is not None, "the option cache-policy is gone")
    vh = e.state0.obj(opt.f["validator"])
    lst = next((e.state0.obj(v) for v in vh.f.values() if e.state0.obj(v) is not None), None)
    allowed = [cval(x) for x in lst.items]
    fromc = e.class_attr(base.a[0], "from_config", e.state0)
    for name in allowed:

        def get(e, st, f, args, kw, fr, node, name=name):
            k = e.resolve(args[1], st) if len(args) > 1 else kw.get("name")
            return [(st, C(name) if k == C("cache-policy") else T("cfg", k))]

        opq = {"utils.config.Config.get": get}
        st, fn = drive(e, "def main():\n    p = CachePolicy.from_config()\n    d = p.directory()\n    return (p, p.managed(), d, p.maximum_cache_size(), p.maximum_cache_disk_usage(), p.outdated())\n", CachePolicy=base)
        outs = rep.count(e.explore(fn, [], st=st, opaque=opq, interest=interest))
        ok = [o for o in outs if o.kind == "return"]
        rep.ob("policies", name, bool(ok), "no policy for this value", last_site(outs[0]) if outs else None)
        for o in ok:
            p, man, d, mx, us, outd = o.value.a
            h = o.state.obj(p)
            rep.ob("policies", name + " itself", h is not None and classes.get(name) is h.cls, "another policy is used", last_site(o))
            rep.ob("policies", name + " records", e.truth(man, o.state) is (name != "off"), "keeps a record of files: %s" % show(man), last_site(o))
            key = DIRKEY.get(name)
            dd = deep(e, o, d)
            tmp = [x for ev in o.events if ev.kind == "call" and ("temp" in str(ev.name).lower()) for x in list(ev.args) + list((ev.kwargs or {}).values())]
            used = cfg_keys(*dd) | (cfg_keys(*tmp) if name != "user" else set())
            rep.ob("directory", name, used == {key}, "the directory comes from %s" % sorted(used), last_site(o))
            none = [v for a, v in o.state.facts.items() if a.k == "t" and a.a[0] == "is" and NONE in a.a[1:] and key in cfg_keys(a)]
            if True not in none:
                rep.ob("directory", name + " expanded", any(x.k == "t" and x.a[0] in ("os.path.expanduser", ".expanduser") for v in dd + tmp for x in walk(v)), "~ is not expanded", last_site(o))
            if name != "off":
                rep.ob("limits", name + " size", mx == T("cfg", C("maximum-cache-size")), "the size limit is %s" % show(mx), last_site(o))
                rep.ob("limits", name + " disk usage", us == T("cfg", C("maximum-cache-disk-usage")), "the disk usage limit is %s" % show(us), last_site(o))
            if any(a.k == "t" and a.a[0] == "eq" and a.a[1] == a.a[2] and v is False for a, v in o.state.facts.items()):
                continue  # a value differs from itself
            rep.ob("follows", name + " settled", e.truth(outd, o.state) is not True, "a policy just made counts as outdated", last_site(o))
        # a configuration that changed since
        c = classes.get(name)
        if c is None:
            continue
        st = e.state0.fork()
        st.put("oldcfg", H("dict", None, {}, tuple(("k", C(k), SYM("old:" + k)) for k in POLICY_KEYS)))
        st.put("pol", H("inst", c, {"_config": REF("oldcfg"), "_path": SYM("oldpath", "str"), "_dir": SYM("olddir", "obj")}))
        for o in rep.count(e.explore(e.bind(e.class_attr(c, "outdated", st), REF("pol"), c, st), [], {}, st=st, opaque=OPQ, interest=interest)):
            if o.kind != "return":
                rep.ob("follows", name + " outdated", False, "fails", last_site(o))
                continue
            for r, facts in outcomes_bool(e, o):
                for k in ("cache-policy", DIRKEY[name]):
                    same = same_fact(facts, k)
                    if r is False:
                        rep.ob("follows", "%s notices %s" % (name, k), same is True, "a change of %s goes unnoticed" % k, last_site(o))
        st2 = st.fork()
        src = "def main(p):\n    ch = p.update()\n    return (ch, p.maximum_cache_size(), p.maximum_cache_disk_usage())\n"
        if name != "off":
            ds, fn = drive(e, src)
            for k in ("oldcfg", "pol"):
                ds.put(k, st2.get(k))
            for o in rep.count(e.explore(fn, [REF("pol")], st=ds, opaque=OPQ, interest=interest)):
                if o.kind != "return":
                    rep.ob("limits", name + " update", False, "fails", last_site(o))
                    continue
                ch, mx, us = o.value.a
                for v, k in ((mx, "maximum-cache-size"), (us, "maximum-cache-disk-usage")):
                    same = same_fact(o.state.facts, k)
                    rep.ob("limits", "%s follows %s" % (name, k), v == T("cfg", C(k)) or (same is True and v == SYM("old:" + k)), "after a change the limit is %s" % show(v), last_site(o))
                    r = e.truth(ch, o.state)
                    if same is False:
                        rep.ob("follows", "%s reports %s" % (name, k), r is True, "a change of %s is not reported" % k, last_site(o))
    # the cache reacts
    cache, st = cache_state(rep, e, s)
    cls = st.obj(cache).cls
    opq = dict(OPQ)
    opq["utils.caching.CacheManager.enqueue"] = enqueue_opaque
    seen = set()

    def fresh(e, st, f, args, kw, fr, node):
        e.emit(st, "call", fr, node, name="from_config", f=NONE, recv=None, args=[], kwargs={}, result=NONE)
        return [(st, SYM("newpolicy", "obj"))]

    o2 = dict(opq)
    o2["utils.caching.CachePolicy.from_config"] = fresh
    m = e.class_attr(cls, "_config_changed", st)
    for o in rep.count(e.explore(e.bind(m, cache, cls, st), [], {}, st=st, opaque=o2, interest=interest)):
        if o.kind != "return":
            continue
        pol = o.state.obj(cache).f["_policy"]
        enq = [ev for ev in o.events if ev.kind == "enqueue"]
        fx = {}
        for a, v in o.state.facts.items():
            if a.k == "t" and a.a[0] == "truthy" and a.a[1].k == "t" and a.a[1].a[0] in (".outdated", ".update", ".managed"):
                who = "new" if has_sym(a, "newpolicy") else "old"
                fx.setdefault((a.a[1].a[0], who), []).append(v)
        outd = fx.get((".outdated", "old"), [])
        if not outd:
            rep.ob("follows", "outdated policy", False, "it is not asked whether the policy is outdated", last_site(o))
            continue
        if outd[-1]:
            seen.add("new")
            rep.ob("follows", "outdated policy", pol == SYM("newpolicy", "obj"), "an outdated policy stays in force", last_site(o))
            if True in fx.get((".managed", "new"), []):
                rep.ob("follows", "new policy told", any(contains(x, SYM("newpolicy", "obj")) for ev in enq for x in ev.args), "the manager keeps the old policy", last_site(o))
        elif outd[0] is False:
            rep.ob("follows", "settled policy", pol == SYM("policy", "obj"), "the policy is replaced although nothing it depends on changed", last_site(o))
            up = fx.get((".update", "old"), [])
            rep.ob("follows", "changed limits", bool(up), "the policy does not take up changed limits", last_site(o))
            if True in up and True in fx.get((".managed", "old"), []):
                seen.add("limits")
                rep.ob("follows", "manager told", any(contains(x, SYM("policy", "obj")) for ev in enq for x in ev.args), "the manager keeps the old limits", last_site(o))
    rep.ob("follows", "configuration changes", seen == {"new", "limits"}, "changes of the configuration reach only %s" % sorted(seen))
    cbs = e.state0.obj(e.state0.obj(e.lookup("utils.config:CONFIG")).f["_callbacks"])
    rep.ob("listens", "disk cache", any("Cache" in show(x, 6) and contains_ref(x, cache) for x in cbs.items), "the cache is not told about configuration changes")
    # the manager adopts
    new = SYM("newpolicy", "obj")
    st = s.state()
    for o in s.run("_config_changed", [new], st, opaque=s.others("_config_changed")):
        if o.kind != "return":
            continue
        h = o.state.obj(s.obj)
        rep.ob("adopts", "policy", h.f["_policy"] == new, "keeps the old policy", last_site(o))
        rep.ob("adopts", "database", not contains(h.f["_connection"], SYM("connection", "obj")), "goes on using the database of the old cache directory", last_site(o))
        chk = [i for i, ev in enumerate(o.events) if ev.kind == "call" and ev.name == "manager:_check_cache_size"]
        sets = [i for i, ev in enumerate(o.events) if ev.kind == "setattr" and ev.name in ("_policy", "_connection")]
        rep.ob("adopts", "limits", bool(chk) and all(i < chk[-1] for i in sets), "does not check the new limits", last_site(o))
    # the connection follows the policy's directory
    for o in s.run("new_connection", [], s.state()):
        con = [ev for ev in o.events if ev.kind == "call" and ev.name == "sqlite3.connect"]
        rep.ob("adopts", "database place", bool(con) and any(x.k == "t" and x.a[0] == ".directory" for x in walk(con[0].args[0])), "the database is not in the cache directory", last_site(o))


POLICY_KEYS = ("cache-policy", "user-cache-directory", "temporary-cache-directory-root", "temporary-directory-root", "maximum-cache-disk-usage", "maximum-cache-size")


def contains_ref(v, ref):
    return any(x == ref for x in walk(v))


def deep(e, o, v, n=4):
    """The value and the fields of the objects it names."""
    out, todo, seen = [], [(v, n)], set()
    while todo:
        x, k = todo.pop()
        out.append(x)
        for y in walk(x):
            if y.k == "ref" and y not in seen and k > 0:
                seen.add(y)
                h = o.state.obj(y)
                if h is not None:
                    todo += [(z, k - 1) for z in h.f.values()]
    return out


def same_fact(facts, key):
    """Is the option known to be unchanged (True), changed (False), or was it not looked at?"""
    for a, v in facts.items():
        if a.k == "t" and a.a[0] == "eq" and set(a.a[1:]) == {SYM("old:" + key), T("cfg", C(key))}:
            return v
    return None


def outcomes_bool(e, o):
    r = e.truth(o.value, o.state)
    if r is not None:
        return [(r, o.state.facts)]
    return split_bool(o.value, dict(o.state.facts))


def split_bool(v, facts):
    """Ways a boolean term can come out, with the facts they need."""
    if v.k == "c":
        return [(bool(cval(v)), facts)]
    if v.k == "t" and v.a[0] == "not":
        return [(not r, f) for r, f in split_bool(v.a[1], facts)]
    if v.k == "t" and v.a[0] in ("or", "and"):
        stop = v.a[0] == "or"
        cur, out = [facts], []
        for x in v.a[1:]:
            nxt = []
            for f in cur:
                for r, g in split_bool(x, f):
                    (out.append((r, g)) if r == stop else nxt.append(g))
            cur = nxt
        return out + [(not stop, f) for f in cur]
    if v in facts:
        return [(facts[v], facts)]
    return [(True, {**facts, v: True}), (False, {**facts, v: False})]
