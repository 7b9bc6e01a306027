"""Start-up and reports of the configuration: C06, C07."""

from ..core import *  # noqa
from ..values import *  # noqa
from ..values import C, EXC, EXT, H, NONE, REF, SYM, T, TRUE, V
from . import prop
from .config import ALLK, Setup, env_fact, env_term, no_env, open_for_writing

VARIABLE = "EARTHKIT_REGRID_CONFIG_FILE"
USUAL = "~/.config/earthkit/regrid/config.yaml"
OLD = "~/.earthkit_regrid/settings.yaml"
SAME = ("os.path.expanduser", "os.path.abspath", "os.path.realpath", "os.path.normpath", "os.fspath", "builtins.str", "str", "pathlib.Path", ".expanduser", ".resolve", ".absolute", ".as_posix", "pathlib.PosixPath")


def spelled(v):
    """A path as text: constants as they are, the variable's value as '$'."""
    if v is None:
        return None
    if v.k == "c":
        return cval(v) if isinstance(cval(v), str) else None
    if v.k != "t":
        return None
    if env_term(v) and not v.a[0].startswith(("os.path", ".")) and v.a[0] not in SAME and v.a[0] not in ("bin:Div", "bin:Add", "fstr"):
        return "$"
    n = v.a[0]
    if n == "pathlib.Path.home":
        return "~"
    args = [x for x in v.a[1:] if isinstance(x, V) and not (x.k == "c" and isinstance(cval(x), str) and ":" in cval(x) and "#" in cval(x))]
    parts = [spelled(x) for x in args]
    if n in SAME and len(parts) == 1:
        return parts[0]
    if n in ("os.path.join", "bin:Div", "pathlib.Path", ".joinpath") and parts and None not in parts:
        return "/".join(p.rstrip("/") for p in parts)
    if n in ("bin:Add", "fstr") and parts and None not in parts:
        return "".join(parts)
    if n in ("os.path.dirname", "attr:parent", ".parent") and parts and parts[0] is not None:
        return parts[0].rpartition("/")[0] if "/" in parts[0] else "dir(%s)" % parts[0]
    return None


EXISTS = ("os.path.exists", "os.path.isfile", "os.path.lexists", "os.path.isdir", ".exists", ".is_file", ".is_dir", "os.access")


def there(o, path):
    """What the path learnt about the existence of a file: a set of answers."""
    r = set()
    for a, v in o.state.facts.items():
        for x in walk(a):
            if x.k == "t" and x.a[0] in EXISTS and spelled(x.a[1]) == path:
                r.add(bool(v))
    return r


WRITERS = ("os.replace", "os.rename", "os.unlink", "os.remove", "shutil.move", "shutil.copy", "shutil.copyfile", "os.link", "os.symlink", ".write_text", ".write_bytes", ".unlink", ".touch", ".rename", ".replace", "os.truncate", "shutil.rmtree")


def touched(o):
    """(position, event, paths) of everything that changes files."""
    for i, ev in enumerate(o.events):
        if ev.kind == "save":
            yield i, ev, [ev.args[0]]
        elif open_for_writing(ev):
            yield i, ev, list(ev.args[:1])
        elif ev.kind == "call" and ev.get("name") in WRITERS:
            yield i, ev, ([ev.recv] if ev.get("recv") is not None else []) + list(ev.args)


def saves(st_fail, marks):
    """save_config as a stand-in that records what it is given; may fail."""

    def save(e, st, f, args, kw, fr, node):
        a = list(args) + [kw[k] for k in sorted(kw)]
        e.emit(st, "save", fr, node, args=a, content=[e.snap(st, x) for x in a], items=[st.obj(x).items if st.obj(x) is not None else None for x in a])
        if st_fail:
            e.raise_(st.fork(), EXC(EXT("builtins.OSError"), C("!injected")), fr, node)
        return [(st, NONE)]

    return {"utils.config.save_config": save}


def contents(items, options):
    """What a saved configuration holds: 'defaults', 'loaded' (over the defaults), or something else."""
    if items is None:
        return "unknown"
    loaded = [i for i, x in enumerate(items) if x[0] == "s" and any(has_sym(y, "loaded") for y in x[1:] if isinstance(y, V))]
    keys = [(i, cval(x[1]), x[2]) for i, x in enumerate(items) if x[0] == "k" and x[1].k == "c"]
    miss = set(options) - {k for _, k, _ in keys}
    if miss:
        return "without %s" % sorted(miss)[:3]
    if loaded:
        late = [k for i, k, v in keys if i > loaded[-1] and k in options and not has_sym(v, "loaded")]
        return "loaded" if not late else "with %s put over what was loaded" % late[:2]
    bad = [k for _, k, v in keys if k in options and v != options[k].f["default"] and not has_sym(v, "loaded")]
    if bad:
        return "with another value of %s" % bad[:2]
    return "loaded" if any(has_sym(v, "loaded") for _, _, v in keys) else "defaults"


@prop("C06")
def c06(rep):
    rep.rule("location", "the file named by %s is used when that is set and not empty, otherwise %s" % (VARIABLE, USUAL))
    rep.rule("kept", "a configuration file that is there is not changed, replaced or removed while it is looked for")
    rep.rule("made", "when there is no configuration file one is made, from the former settings if these can be read, otherwise from the defaults")
    rep.rule("migrated", "the former settings are carried over, over the defaults, and are themselves left alone")
    rep.rule("start", "a failure to make the directory, to read the former settings or to save does not stop the program or change which file is used")
    rep.rule("process", "the process's file creation mask is put back in every case")
    rep.rule("unreadable", "a configuration file that cannot be read is not written over at start")
    s = Setup(rep)
    e = s.e
    loaded = SYM("loaded")

    def loader(failing):
        def load(e, st, recv, args, kw, fr, node):
            if failing == "yaml.load":
                e.raise_(st.fork(), EXC(EXT("builtins.ValueError"), C("!injected")), fr, node)
            return [(st, loaded)]

        return {"yaml.load": load, "yaml.safe_load": load}

    fn = e.lookup("utils.config:_init_config_file")
    keep = lambda ev, st, fr: ev.kind in ALLK  # noqa: E731
    for failing in (None, "os.makedirs", "builtins.open", "yaml.load", "save"):

        def mr(nm, fr, node, failing=failing):
            if failing and nm is not None and (nm == failing or (failing == "os.makedirs" and nm in (".mkdir", "os.mkdir"))):
                return [EXC(EXT("builtins.OSError"), C("!injected"))]

        outs = rep.count(e.explore(fn, [], st=e.state0.fork(), interest=keep, models=loader(failing), may_raise=mr, opaque=saves(failing == "save", None)))
        subj = "start" if failing is None else "%s fails" % failing
        rep.need(outs, "looking for the configuration file has no outcome")
        seen = set()
        fresh = set()
        for o in outs:
            if o.kind != "return":
                rep.ob("start", subj, False, "raises %s" % show(o.value, 3), last_site(o), o.events[-8:])
                continue
            p = spelled(o.value)
            if o.value == NONE:
                # only where even the usual path could not be worked out
                ok = any(a.k == "t" and a.a[0] == "is" and NONE in a.a[1:] and v and not env_term(a) for a, v in o.state.facts.items())
                rep.ob("location", subj + " none", ok, "no configuration file is used", last_site(o))
                continue
            ef = env_fact(o)
            empty = [v for a, v in o.state.facts.items() if a.k == "t" and a.a[0] == "truthy" and env_term(a.a[1]) and spelled(a.a[1]) == "$"]
            if ef is None and empty:
                ef = empty[-1]
            named = ef is True and (not empty or empty[-1] is True)
            seen.add(named)
            if ef is True and not empty and p == "$":
                rep.ob("location", subj + " empty variable", False, "an empty %s is taken for a file name" % VARIABLE, last_site(o))
            rep.ob("location", "%s, variable %s" % (subj, "set" if named else "not set"), p == ("$" if named else USUAL), "the file used is %s" % (p or show(o.value, 4)), last_site(o))
            known = there(o, p)
            d = "dir($)" if p == "$" else p.rpartition("/")[0] if p else None
            asked = True in known or False in known
            changes = list(touched(o))
            # the mask
            masks = [ev for ev in o.events if ev.kind == "call" and ev.get("name") == "os.umask"]
            ok = not masks or (len(masks) % 2 == 0 and masks[-1].args and masks[-1].args[0] == masks[0].result)
            rep.ob("process", subj, ok, "os.umask is called %d time(s) and the first mask is not put back" % len(masks), last_site(o), o.events[-8:])
            mine = [(i, ev) for i, ev, ps in changes if any(spelled(x) == p for x in ps)]
            for i, ev in mine:
                rep.ob("kept", subj, known == {False}, "the file is written although it %s" % ("is there" if True in known else "was not looked for"), ev.site, o.events[-8:])
            for i, ev, ps in changes:
                rep.ob("migrated", subj + " old file", ev.kind == "save" or not any(spelled(x) == OLD for x in ps), "the former settings are changed", ev.site)
            made_dir = any(ev.kind == "call" and ev.get("name") in ("os.makedirs", ".mkdir", "os.mkdir") for ev in o.events)
            failed = [ev for ev in o.events if ev.kind == "raise" and any(is_c(x) and cval(x) == "!injected" for x in walk(ev.get("exc") or NONE))]
            have_dir = there(o, d) | ({True} if made_dir and not failed else set())
            rep.ob("kept", subj + " looked for", asked or False in there(o, d) or not mine, "the file is not looked for", last_site(o))
            old = there(o, OLD)
            good = [a for a, v in o.state.facts.items() if v and a.k == "t" and a.a[0] == "isinstance" and has_sym(a, "loaded")]
            odd = [a for a, v in o.state.facts.items() if not v and a.k == "t" and a.a[0] == "isinstance" and has_sym(a, "loaded")]
            if known == {False}:
                last = mine[-1][1] if mine else None
                if failing in (None, "builtins.open", "yaml.load"):
                    rep.ob("made", subj, last is not None, "there is no file and none is made", last_site(o), o.events[-8:])
                if last is not None and last.kind == "save":
                    what = contents((last.get("items") or [None, None])[1] if len(last.get("items") or []) > 1 else None, s.options)
                    usable = True in old and not odd and not (failed and failing in ("builtins.open", "yaml.load"))
                    want = ("loaded",) if usable else ("defaults",)
                    fresh.add(what)
                    if failing != "save":
                        rep.ob("migrated" if usable else "made", "%s, former settings %s" % (subj, "there" if usable else "unreadable" if True in old else "absent"), what in want, "the new file is made %s" % (("from " if what in ("defaults", "loaded") else "") + what), last.site, o.events[-8:])
        if failing is None:
            rep.ob("location", "both", seen == {True, False}, "the variable %s is %s" % (VARIABLE, "always assumed set" if True in seen else "not consulted"))
            rep.ob("made", "both ways", fresh >= {"loaded", "defaults"}, "a new file is only made %s" % sorted(fresh))
    names = {cval(x) for o in outs for a in o.state.facts for x in walk(a) if x.k == "c" and isinstance(cval(x), str) and cval(x).startswith("EARTHKIT_REGRID_")}
    rep.ob("location", "variable", names == {VARIABLE}, "reads %s" % sorted(names))
    # whether to save again at start is decided by what was read
    fn = e.lookup("utils.config:_init_config")

    def mr2(nm, fr, node):
        if nm in ("builtins.open", "yaml.load", "yaml.safe_load"):
            return [EXC(EXT("builtins.OSError"), C("!injected"))]

    def ld(e, st, recv, args, kw, fr, node):
        e.raise_(st.fork(), EXC(EXT("builtins.ValueError"), C("!injected")), fr, node)
        return [(st, SYM("loaded", "dict"))]

    for o in rep.count(e.explore(fn, [SYM("file", "str")], st=e.state0.fork(), interest=keep, models={"yaml.load": ld, "yaml.safe_load": ld}, may_raise=mr2)):
        failed = [ev for ev in o.events if ev.kind == "raise" and any(is_c(x) and cval(x) == "!injected" for x in walk(ev.get("exc") or NONE))]
        changes = list(touched(o))
        rep.ob("unreadable", "reading", not changes, "the file is changed while it is read", last_site(o))
        if o.kind == "return" and failed:
            again = o.value.a[1] if o.value.k == "tup" and len(o.value.a) > 1 else C(False)
            rep.ob("unreadable", "saved again", again.k == "c" and not cval(again), "a file that cannot be read is written over at start", last_site(o), o.events[-8:])


@prop("C07")
def c07(rep):
    rep.rule("dump", "dump() gives every option with the value in force in the innermost configuration, and its description")
    rep.rule("environment", "env() gives exactly the options set by environment variables, with the variable and its value")
    rep.rule("shown", "the text and the table shown for the configuration hold every option's name and value, and the variable that overrides it")
    rep.rule("saved-as", "save_as() saves the innermost configuration to the file named, and nothing else")
    rep.rule("unchanged", "none of these changes, saves over or announces anything")
    s = Setup(rep)
    e = s.e
    ks = [k for k in ("cache-policy", "url-download-timeout") if k in s.options] or sorted(s.options)[:2]
    vals = {ks[0]: SYM("first"), ks[1]: SYM("second")}
    tvals = {ks[0]: SYM("tfirst"), ks[1]: SYM("tsecond")}
    path = SYM("path", "str")

    def state(stack):
        st = s.state(stack)
        st.put("stored", H("dict", None, {}, tuple(("k", C(k), vals[k]) for k in ks)))
        if stack:
            st.put("tstored", H("dict", None, {}, tuple(("k", C(k), tvals[k]) for k in ks)))
        return st

    def run(src, stack, assume=None):
        st0 = state(stack)
        e.modules.pop("%drv", None)
        st, fn = e.driver(src, CONFIG=s.cfg, p=path)
        for k in ("stored", "cbs", "defaults", "tstored", "estack", "tmp", "stack", s.cfg.a[0]):
            if st0.get(k) is not None:
                st.put(k, st0.get(k))
        return s.explore(fn, [], st=st, assume=assume)

    def quiet(o, subj, may_save=False):
        own = {"stored", "tstored"}
        ch = [ev for ev in o.events if (ev.kind in ("setitem", "delitem", "mut") and ev.get("obj") is not None and ev.obj.k == "ref" and ev.obj.a[0] in own) or (ev.kind == "call" and str(ev.get("name", "")).startswith("call:observer")) or (ev.kind == "save" and not may_save) or (ev.kind == "setattr" and ev.get("obj") in (s.cfg, REF("tmp")))]
        rep.ob("unchanged", subj, not ch, "changes or announces something", ch[0].site if ch else None)

    for stack in (False, True):
        want = tvals if stack else vals
        other = vals if stack else tvals
        where = "temporary" if stack else "plain"
        for o in run("def main():\n    return [x for x in CONFIG.dump()]\n", stack):
            if o.kind == "raise":
                rep.ob("dump", where, False, "raises %s" % show(o.value, 3), last_site(o))
                continue
            quiet(o, "dump " + where)
            h = o.state.obj(o.value)
            rows = [x for x in h.items] if h is not None else []
            got = {}
            for r in rows:
                t = r if r.k == "tup" else None
                if t is not None and len(t.a) == 3 and t.a[0].k == "c":
                    got[cval(t.a[0])] = t.a
            rep.ob("dump", where, set(got) == set(ks) and len(rows) == len(ks), "gives %s" % show(e.snap(o.state, o.value), 4), last_site(o))
            for k in set(got) & set(ks):
                rep.ob("dump", "%s %s" % (k, where), got[k][1] == want[k] or (got[k][1].k == "t" and env_term(got[k][1])), "gives the value %s" % show(got[k][1], 3), last_site(o))
                d = o.state.obj(got[k][2])
                rep.ob("dump", "%s described (%s)" % (k, where), d is not None and d.f.get("description") == s.options[k].f.get("description"), "gives another option's description", last_site(o))
        for o in run("def main():\n    return CONFIG.env()\n", stack):
            if o.kind == "raise":
                rep.ob("environment", where, False, "raises %s" % show(o.value, 3), last_site(o))
                continue
            quiet(o, "env " + where)
            h = o.state.obj(o.value)
            got = {cval(x[1]): e.snap(o.state, x[2]) for x in h.items if x[0] == "k" and x[1].k == "c"} if h is not None else {}
            for k in ks:
                var = "EARTHKIT_REGRID_" + k.upper().replace("-", "_")
                f = [v for a, v in o.state.facts.items() if any(x == C(var) for x in walk(a)) and a.a[0] in ("in", "is", "truthy")]
                f = [(not v if a.a[0] == "is" else v) for a, v in o.state.facts.items() if any(x == C(var) for x in walk(a)) and a.a[0] in ("in", "is")]
                isset = f[-1] if f else None
                rep.ob("environment", "%s asked (%s)" % (k, where), isset is not None, "the variable %s is not looked up" % var, last_site(o))
                if isset:
                    ok = k in got and contains(got[k], C(var)) and env_term(got[k])
                    rep.ob("environment", "%s set (%s)" % (k, where), ok, "gives %s" % (show(got[k], 4) if k in got else "nothing"), last_site(o))
                elif isset is False:
                    rep.ob("environment", "%s not set (%s)" % (k, where), k not in got, "an option that no variable sets is listed", last_site(o))
        for what, src in (("text", "def main():\n    return CONFIG.__repr__()\n"), ("table", "def main():\n    return CONFIG._repr_html_()\n")):
            for o in run(src, stack):
                if o.kind == "raise":
                    rep.ob("shown", "%s (%s)" % (what, where), False, "raises %s" % show(o.value, 3), last_site(o))
                    continue
                quiet(o, "%s %s" % (what, where))
                v = e.snap(o.state, o.value)
                for k in ks:
                    var = "EARTHKIT_REGRID_" + k.upper().replace("-", "_")
                    isset = any(t and any(x == C(var) for x in walk(a)) and a.a[0] == "in" for a, t in o.state.facts.items())
                    names = any(x.k == "c" and isinstance(cval(x), str) and k in cval(x) for x in walk(v))
                    rep.ob("shown", "%s name of %s (%s)" % (what, k, where), names, "the option is not shown", last_site(o))
                    rep.ob("shown", "%s value of %s (%s)" % (what, k, where), has_sym(v, cval_name(want[k])) and not has_sym(v, cval_name(other[k])), "the value shown is not the one in force", last_site(o))
                    if isset:
                        ok = any(x.k == "c" and isinstance(cval(x), str) and var in cval(x) for x in walk(v)) and env_term(v)
                        rep.ob("shown", "%s variable of %s (%s)" % (what, k, where), ok, "the variable that overrides the option is not shown", last_site(o))
        for o in run("def main():\n    CONFIG.save_as(p)\n", stack):
            sv = [ev for ev in o.events if ev.kind == "save"]
            ok = o.kind == "return" and len(sv) == 1 and spelled_same(sv[0].args[0], path)
            rep.ob("saved-as", where, ok, "is not saved once to the file named", last_site(o))
            quiet(o, "save_as " + where, may_save=True)
            if ok and len(sv[0].args) > 1:
                c = sv[0].content[1]
                rep.ob("saved-as", where + " content", all(contains(c, want[k]) for k in ks) and not any(contains(c, other[k]) for k in ks), "another configuration is saved", sv[0].site)


def cval_name(v):
    return v.a[0]


def spelled_same(a, b):
    while a.k == "t" and a.a[0] in SAME and len(a.a) >= 2:
        a = a.a[1]
    return a == b
