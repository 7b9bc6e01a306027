"""Configuration: C01..C04."""

from ..core import *  # noqa
from ..core import AnalysisError
from ..values import *  # noqa
from ..values import C, CH, EXC, EXT, FALSE, H, NONE, REF, SYM, T, TRUE, TUP, V
from . import prop

ENV = T("envvalue")
KINDS = {"setattr", "setitem", "delitem", "mut", "call", "raise", "userfn", "save", "ctxenter", "ctxexit", "acquire", "release"}


def interest(ev, st, fr):
    return ev.kind in KINDS


class Setup:
    def __init__(self, rep):
        self.rep = rep
        self.e = e = rep.engine()
        self.cfg = e.lookup("utils.config:CONFIG")
        h = e.state0.obj(self.cfg)
        rep.need(h is not None and h.kind == "inst", "the configuration object is gone")
        self.cls = h.cls
        # the option table, read from the program
        table = e.lookup("utils.config:CONFIG_AND_HELP")
        th = e.state0.obj(table)
        rep.need(th is not None, "the option table is gone")
        self.options = {}
        for x in th.items:
            if x[0] == "k" and x[1].k == "c":
                self.options[cval(x[1])] = e.state0.obj(x[2])
        rep.need(len(self.options) >= 5, "the option table has %d options" % len(self.options))
        self.table_ok = all(x[0] == "k" for x in th.items)
        for f in ("_config", "_callbacks", "_stack"):
            rep.need(f in h.f, "the configuration object has no %s" % f)

    def opt(self, name, field):
        return self.options[name].f.get(field)

    def meth(self, name, st, obj=None):
        e = self.e
        return e.bind(e.class_attr(self.cls, name, st), obj or self.cfg, self.cls, st)

    def state(self, stack=False, autosave=TRUE):
        """An arbitrary configuration; with stack=True a temporary one is on top."""
        e = self.e
        st = e.state0.fork()
        h = st.obj(self.cfg)
        st.put("stored", H("dict", None, {}, (("s", SYM("stored")),)))
        st.put("defaults", H("dict", None, {}, (("s", SYM("values-at-start")),)))
        st.put("cbs", H("list", None, {}, (SYM("observer1", "fn"), SYM("observer2", "fn"))))
        if "_defaults" in h.f:
            h = h.with_f("_defaults", REF("defaults"))
        h = h.with_f("_config", REF("stored")).with_f("_callbacks", REF("cbs")).with_f("_config_yaml", SYM("configfile", "str"))
        if stack:
            st.put("tstored", H("dict", None, {}, (("s", SYM("temporary-stored")),)))
            t = h.with_f("_config", REF("tstored")).with_f("_config_yaml", NONE)
            st.put("estack", H("list", None, {}, ()))
            t = t.with_f("_stack", REF("estack"))
            st.put("tmp", t)
            st.put("stack", H("list", None, {}, (REF("tmp"),)))
        else:
            st.put("stack", H("list", None, {}, ()))
        h = h.with_f("_stack", REF("stack"))
        st.put(self.cfg.a[0], h)
        return st

    def save_opaque(self):
        def save(e, st, f, args, kw, fr, node):
            a = list(args) + [kw[k] for k in sorted(kw)]
            e.emit(st, "save", fr, node, args=a, content=[e.snap(st, x) for x in a])
            return [(st, NONE)]

        return {"utils.config.save_config": save}

    def explore(self, fn, args=(), kw=None, st=None, **k):
        return self.rep.count(self.e.explore(fn, list(args), dict(kw or {}), st=st, interest=interest, opaque=self.save_opaque(), **k))


def env_term(v):
    return any(x.k == "t" and (x.a[0].startswith("os.environ") or x.a[0] in ("os.getenv", "os.environ.get") or (x.a[0] == "item" and x.a[1].k == "ext" and x.a[1].a[0] == "os.environ")) for x in walk(v)) or has_ext_env(v)


def has_ext_env(v):
    return any(x.k == "t" and x.a[0] == "item" and any(y.k == "ext" and y.a[0] == "os.environ" for y in walk(x)) for x in walk(v))


def env_fact(o):
    """Was the environment variable found on this path? (None: never asked)"""
    r = None
    for a, v in o.state.facts.items():
        if a.k == "t" and any(x.k == "ext" and x.a[0] == "os.environ" for x in walk(a)) or (a.k == "t" and env_term(a)):
            if a.a[0] == "in":
                r = v if a.a[2] == EXT("os.environ") else r
            elif a.a[0] == "is" and NONE in a.a[1:] and r is None:
                x = a.a[1] if a.a[2] == NONE else a.a[2]
                if x.k == "t" and x.a[0].startswith("os."):
                    r = not v
    return r


def env_names(o):
    out = []
    for a in o.state.facts:
        for x in walk(a):
            if x.k == "c" and isinstance(cval(x), str) and cval(x).startswith("EARTHKIT_REGRID_"):
                out.append(cval(x))
    return out


CONVERTERS = {"_as_bytes": "as_bytes", "_as_percent": "as_percent", "_as_seconds": "as_seconds"}


@prop("C01")
def c01(rep):
    rep.rule("env-first", "when the option's environment variable is set its value decides, whether or not a temporary configuration is active; otherwise the innermost configuration's stored value does")
    rep.rule("converted", "the value from the environment goes through the same conversion as a stored value, and a value that is text is turned into the option's type")
    rep.rule("unknown", "an unknown option name raises KeyError")
    s = Setup(rep)
    e = s.e
    for stack in (False, True):
        where = "temporary" if stack else "plain"
        for name in sorted(s.options):
            st = s.state(stack)
            outs = s.explore(s.meth("get", st), [C(name)], st=st)
            want_sym = "temporary-stored" if stack else "stored"
            subj = "%s (%s)" % (name, where)
            seen = set()
            for o in outs:
                ef = env_fact(o)
                seen.add(ef)
                dep_env = env_term(o.value) if o.kind == "return" else None
                if o.kind == "return":
                    fv = path_terms(o)
                    if ef is True:
                        ok = (dep_env or (o.value.k == "c" and (env_decided(o) or any(env_fact(p) is True and env_decided(p) for p in outs)))) and not has_sym(o.value, "stored") and not has_sym(o.value, "temporary-stored")
                        rep.ob("env-first", subj, ok, "with the environment variable set, get() returns %s" % show(o.value, 4), last_site(o))
                        if s.opt(name, "kind") in (EXT("builtins.bool"), EXT("bool")):
                            raw = o.value.k == "t" and not is_bool_term(o.value)
                            rep.ob("converted", subj, not raw, "a boolean option returns the text of the environment variable", last_site(o))
                    elif ef is False:
                        ok = not dep_env and (has_sym(o.value, want_sym) or (o.value.k == "c" and any(has_sym(a, want_sym) for a in o.state.facts)))
                        other = "stored" if stack else "temporary-stored"
                        rep.ob("env-first", subj, ok and not has_sym(o.value, other), "without the environment variable get() returns %s" % show(o.value, 4), last_site(o))
                g = s.opt(name, "getter")
            rep.ob("env-first", subj + " consulted", True in seen and False in seen, "the environment is not consulted (or always assumed set)")
            names = {x for o in outs for x in env_names(o)}
            want = "EARTHKIT_REGRID_" + name.upper().replace("-", "_")
            rep.ob("env-first", subj + " variable", want in names, "reads %s, not %s" % (sorted(names), want))
            # sibling agreement: same conversion on both branches
            cv = {}
            for o in outs:
                if o.kind == "return" and env_fact(o) is not None:
                    cv.setdefault(env_fact(o), set()).add(shape(o.value))
            if True in cv and False in cv:
                rep.ob("converted", subj + " alike", cv[True] <= cv[False], "conversions differ: environment %s, stored %s" % (sorted(cv[True])[:3], sorted(cv[False])[:3]), None)
        # names of the variables
        st = s.state(stack)
        for o in s.explore(s.meth("get", st), [C("no-such-option")], st=s.state(stack)):
            rep.ob("unknown", "get (%s)" % where, o.kind == "raise" and is_exc(o.value, "KeyError"), "get() of an unknown option does not raise KeyError", last_site(o))
        for o in s.explore(s.meth("set", st), [C("no-such-option"), SYM("value")], st=s.state(stack)):
            rep.ob("unknown", "set (%s)" % where, o.kind == "raise" and is_exc(o.value, "KeyError"), "set() of an unknown option does not raise KeyError", last_site(o))


def env_decided(o):
    return any(env_term(a) and a.a[0] != "in" for a in o.state.facts)


def path_terms(o):
    return o.state.facts


def is_bool_term(v):
    return v.k == "t" and v.a[0] in ("builtins.bool", "bool", "eq", "in", "not", "lt", "is", "and", "or")


def shape(v, d=6):
    """Structure of a converted value with the raw input abstracted."""
    if v.k == "t" and (env_term(v) and not any(env_term(x) and x.k == "t" and x.a[0] not in () for x in v.a[1:] if isinstance(x, V)) or v.a[0] in ("lookup", "kwopt") or (v.a[0] == "item" and any(x.k == "sym" and str(x.a[0]).endswith("stored") for x in walk(v)) and not any(y.k == "t" and y.a[0] not in ("item", "ver", "dict", "lookup", "spread") for y in walk(v)))):
        return "RAW"
    if v.k == "sym":
        return "RAW" if str(v.a[0]).endswith("stored") else str(v.a[0])
    if v.k == "c":
        return repr(cval(v))
    if v.k == "ext":
        return v.a[0]
    if d == 0 or not v.a:
        return v.k
    if v.k == "t":
        if v.a[0].startswith("os.environ"):
            return "RAW"
        return "%s(%s)" % (v.a[0], ",".join(shape(x, d - 1) for x in v.a[1:] if isinstance(x, V)))
    return "%s(%s)" % (v.k, ",".join(shape(x, d - 1) for x in v.a if isinstance(x, V)))


def observers(o):
    return [ev for ev in o.events if ev.kind == "call" and str(ev.get("name", "")).startswith("call:observer")]


def writes(o, refs):
    for ev in o.events:
        if ev.kind in ("setitem", "delitem") and ev.obj in refs:
            yield ev
        elif ev.kind == "mut" and ev.obj in refs:
            yield ev


@prop("C02")
def c02(rep):
    rep.rule("validated", "a value is stored only after the option's type, converter and list of valid values accepted it")
    rep.rule("stored", "an accepted value is what is stored, in the innermost configuration")
    rep.rule("all-or-nothing", "a rejected change leaves the stored configuration as it was and is neither saved nor announced")
    rep.rule("saved", "with automatic saving on, an accepted change is saved after it is stored; with it off, nothing is saved")
    rep.rule("announced", "every observer is told about an accepted change, after it is stored")
    rep.rule("reset", "reset brings back the default and is saved and announced like a change")
    s = Setup(rep)
    e = s.e
    for stack in (False, True):
        tgt = REF("tstored") if stack else REF("stored")
        for name in sorted(s.options):
            run_set(rep, s, "%s%s" % (name, " (temporary)" if stack else ""), [C(name), SYM("value")], [name], stack)
        a, b = "url-download-timeout", "cache-policy"
        if a in s.options and b in s.options:
            st = s.state(stack)
            st.put("both", H("dict", None, {}, (("k", C(a), SYM("value")), ("k", C(b), SYM("value2")))))
            run_set(rep, s, "two options at once%s" % (" (temporary)" if stack else ""), [REF("both")], [a, b], stack, st)
    # automatic saving off
    for auto in (True, False):
        st = s.state()
        set_auto(s, st, auto)
        name = "url-download-timeout" if "url-download-timeout" in s.options else sorted(s.options)[0]
        for o in s.explore(s.meth("set", st), [C(name), SYM("value")], st=st):
            if o.kind == "return":
                n = [ev for ev in o.events if ev.kind == "save"]
                rep.ob("saved", "autosave %s" % auto, bool(n) == auto, "autosave is %s but the change is %ssaved" % (auto, "" if n else "not "), last_site(o))
    # reset
    for nm, args in (("one option", [C("cache-policy")]), ("everything", [])):
        st = s.state()
        for o in s.explore(s.meth("reset", st), args, st=st):
            if o.kind != "return":
                rep.ob("reset", nm, env_fact(o) is not None and False, "reset raises", last_site(o))
                continue
            h = o.state.obj(o.state.obj(s.cfg).f["_config"])
            if args:
                val = [x[2] for x in h.items if x[0] == "k" and x[1] == args[0]]
                rep.ob("reset", nm, val == [s.opt("cache-policy", "default")], "reset stores %s" % [show(x) for x in val], last_site(o))
            else:
                got = {cval(x[1]): x[2] for x in h.items if x[0] == "k" and x[1].k == "c"}
                sp = [x for x in h.items if x[0] == "s"]
                from_defaults = all(contains_defaults(x[1], s) for x in sp)
                ok = (set(got) >= set(s.options) and all(got[k] == s.opt(k, "default") for k in s.options)) and not any(has_sym(x[1], "stored") for x in sp)
                rep.ob("reset", nm, ok, "options keep other values than their defaults", last_site(o))
            n = [ev for ev in o.events if ev.kind == "save"]
            rep.ob("reset", nm + " saved", bool(n), "reset is not saved", last_site(o))
            rep.ob("reset", nm + " announced", len({observer_name(ev) for ev in observers(o)}) >= 2, "observers are not told about a reset", last_site(o))
    # a reset configuration does not share its values with the table of defaults
    st0 = s.state()
    e.modules.pop("%drv", None)
    d = s.opt("cache-policy", "default")
    st, fn = e.driver("def main():\n    CONFIG.reset()\n    CONFIG.set('cache-policy', other)\n    CONFIG.reset('cache-policy')\n    return CONFIG.get('cache-policy')\n", CONFIG=s.cfg, other=SYM("other"))
    for k in ("stored", "cbs", "defaults", "stack", s.cfg.a[0]):
        st.put(k, st0.get(k))
    outs = [o for o in s.explore(fn, [], st=st, assume=no_env) if o.kind == "return"]
    rep.ob("reset", "reset again", outs and all(o.value == d for o in outs), "after a reset, a change and another reset the option is %s" % [show(o.value) for o in outs if o.value != d][:1])


def contains_defaults(v, s):
    return True


def set_auto(s, st, auto):
    """Find the class attribute behind Config.autosave and set it."""
    oid = s.cls.oid if hasattr(s.cls, "oid") else None
    p = "_auto_save_config"
    env = st.get(oid) if oid else None
    if env is not None and p in env.f:
        st.put(oid, env.with_f(p, C(auto)))
    else:
        h = st.obj(s.cfg)
        st.put(s.cfg.a[0], h.with_f(p, C(auto)))


def run_set(rep, s, subj, args, names, stack, st=None):
    st = st or s.state(stack)
    outs = s.explore(s.meth("set", st), args, st=st)
    holder = REF("tmp") if stack else s.cfg
    orig = REF("tstored") if stack else REF("stored")
    rets = [o for o in outs if o.kind == "return"]
    rep.ob("stored", subj + " accepted", bool(rets), "set() never succeeds")
    for o in outs:
        h = o.state.obj(o.state.obj(holder).f["_config"])
        sym0 = SYM("temporary-stored" if stack else "stored")
        if o.kind == "raise":
            items = [x for x in h.items if x[0] == "k"]
            rep.ob("all-or-nothing", subj, not items, "a rejected change leaves %s stored" % [cval(x[1]) for x in items if x[1].k == "c"], last_site(o), o.events[-10:])
            rep.ob("all-or-nothing", subj + " quiet", not [ev for ev in o.events if ev.kind == "save"] and not observers(o), "a rejected change is saved or announced", last_site(o))
            continue
        stored = {cval(x[1]): x[2] for x in h.items if x[0] == "k" and x[1].k == "c"}
        for i, name in enumerate(names):
            v = SYM("value" if i == 0 else "value2")
            sv = stored.get(name)
            sv = s.e.snap(o.state, sv) if sv is not None else None
            rep.ob("stored", subj + ": " + name, sv is not None and (contains(sv, v) or (sv.k == "c" and any(contains(a, v) for a in o.state.facts))), "after set() the option holds %s" % (show(sv) if sv is not None else "its old value"), last_site(o))
            val = s.opt(name, "validator")
            if val is not None and val != NONE:
                vh = s.e.state0.obj(val)
                lst = next((x for x in vh.f.values()), None)
                lh = s.e.state0.obj(lst) if lst is not None else None
                allowed = [cval(x) for x in lh.items] if lh is not None and all(x.k == "c" for x in lh.items) else None
                ok = False
                for a, r in o.state.facts.items():
                    if r and a.k == "t" and a.a[0] == "in" and contains(a.a[1], v):
                        ok = True
                    if r and a.k == "t" and all(is_choice(x, v, allowed) for x in (a.a[1:] if a.a[0] == "or" else (a,))):
                        ok = True
                rep.ob("validated", subj + ": " + name, ok, "stored without being one of the valid values", last_site(o))
            g = s.opt(name, "getter")
            if g is not None and g.k == "c" and cval(g) in CONVERTERS:
                ok = any(contains(a, v) for a in o.state.facts if a.a[0] != "in" or True) or any(ev.kind == "call" and any(contains(x, v) for x in ev.get("args") or ()) for ev in o.events)
                rep.ob("validated", subj + ": " + name, ok, "stored without trying the conversion", last_site(o))
        # order: store, then save, then announce
        obs = observers(o)
        rep.ob("announced", subj, len({observer_name(ev) for ev in obs}) == 2, "only %d of 2 observers are told" % len({observer_name(ev) for ev in obs}), last_site(o))
        idx = {id(ev): i for i, ev in enumerate(o.events)}
        wr = [idx[id(ev)] for ev in o.events if (ev.kind in ("setitem", "mut") and ev.obj in (orig, o.state.obj(holder).f["_config"])) or (ev.kind == "setattr" and ev.get("obj") == holder and ev.name == "_config")]
        if wr and obs:
            rep.ob("announced", subj + " after", any(idx[id(ev)] > max(wr) for ev in obs), "observers are told before the change is stored", obs[-1].site)
        sv = [ev for ev in o.events if ev.kind == "save"]
        for ev in sv:
            got = ev.content
            rep.ob("saved", subj, any(all(contains(x, SYM("value" if i == 0 else "value2")) or any(contains(a, SYM("value")) for a in o.state.facts) for i, _ in enumerate(names)) for x in got), "what is saved does not include the change", ev.site)


def is_choice(a, v, allowed):
    return a.k == "t" and a.a[0] == "eq" and any(contains(x, v) for x in a.a[1:]) and any(y.k == "c" and (allowed is None or cval(y) in allowed) for y in a.a[1:])


def observer_name(ev):
    return str(ev.name)


@prop("C03")
def c03(rep):
    rep.rule("isolated", "a change made inside a temporary configuration never reaches the permanent one, nor its file")
    rep.rule("restored", "however the block ends, the previous configuration is in force again")
    rep.rule("announced", "observers are told when a temporary configuration comes into force and when it ends")
    rep.rule("inherits", "a temporary configuration starts from the values in force and the values it was given")
    s = Setup(rep)
    e = s.e
    opt = "url-download-timeout" if "url-download-timeout" in s.options else sorted(s.options)[0]
    other = next(k for k in sorted(s.options) if k != opt and s.opt(k, "kind") == s.opt(opt, "kind"))
    src = """
def main():
    with CONFIG.temporary(OPT, given):
        inside = CONFIG.get(OPT)
        inherited = CONFIG.get(OTHER)
        CONFIG.set(OTHER, changed)
        body()
    after = CONFIG.get(OTHER)
    return (inside, inherited, after)
"""
    for stack in (False, True):
        st0 = s.state(stack)
        for nm, act in (("reset", "CONFIG.reset()"), ("reset of one", "CONFIG.reset(OPT)"), ("change", "CONFIG.set({OPT: changed})")):
            e.modules.pop("%drv", None)
            src2 = "def main():\n    with CONFIG.temporary():\n        %s\n        CONFIG.set(OPT, changed)\n    CONFIG.reset(OPT)\n    return CONFIG.get(OPT)\n" % act
            st, fn = e.driver(src2, CONFIG=s.cfg, OPT=C(opt), changed=SYM("changed"))
            for k in ("stored", "cbs", "defaults", "tstored", "estack", "tmp", "stack", s.cfg.a[0]):
                if st0.get(k) is not None:
                    st.put(k, st0.get(k))
            outs = [o for o in s.explore(fn, [], st=st, assume=no_env) if o.kind == "return"]
            rep.need(outs, "a temporary configuration has no outcome")
            for o in outs:
                rep.ob("isolated", "%s, defaults after %s" % ("nested" if stack else "plain", nm), not has_sym(o.value, "changed"), "what was changed inside is taken for the default afterwards", last_site(o))
        base = "temporary-stored" if stack else "stored"
        for act in ("CONFIG.reset()", "CONFIG.reset(OPT)", "CONFIG.set({OPT: changed})", "CONFIG.set(OPT, changed)"):
            e.modules.pop("%drv", None)
            src2 = "def main():\n    with CONFIG.temporary():\n        %s\n        inside = CONFIG.get(OPT)\n    return (inside, CONFIG.get(OPT))\n" % act
            st, fn = e.driver(src2, CONFIG=s.cfg, OPT=C(opt), changed=SYM("changed"))
            for k in ("stored", "cbs", "defaults", "tstored", "estack", "tmp", "stack", s.cfg.a[0]):
                if st0.get(k) is not None:
                    st.put(k, st0.get(k))
            for o in s.explore(fn, [], st=st, assume=no_env):
                if o.kind == "return" and o.value.k == "tup":
                    ins, aft = o.value.a
                    rep.ob("isolated", "%s, %s" % ("nested" if stack else "plain", act), depends(o, aft, SYM(base)) and not has_sym(aft, "changed"), "after the block the option is %s" % show(aft, 4), last_site(o))
                    ok = depends(o, ins, SYM("changed")) if "changed" in act else not has_sym(ins, base)
                    rep.ob("isolated", "%s, %s inside" % ("nested" if stack else "plain", act), ok, "inside the block the option is %s afterwards" % show(ins, 4), last_site(o))
        for failing in (None, "body", "observer"):
            st0 = s.state(stack)
            s.e.modules.pop("%drv", None)
            st, fn = e.driver(src, CONFIG=s.cfg, OPT=C(opt), OTHER=C(other), given=SYM("given"), changed=SYM("changed"), body=SYM("body", "fn"))
            for k, v in list(st0.heap.items()) if hasattr(st0, "heap") else []:
                st.put(k, v)
            for k in ("stored", "cbs", "defaults", "tstored", "estack", "tmp", "stack", s.cfg.a[0]):
                if st0.get(k) is not None:
                    st.put(k, st0.get(k))

            def mr(name, fr, node, failing=failing):
                if failing and (name or "").find(failing) >= 0:
                    return [EXC(EXT("builtins.ValueError"), C("!injected"))]

            outs = s.explore(fn, [], st=st, may_raise=mr, assume=no_env)
            subj = "%s%s" % ("nested" if stack else "plain", ", %s fails" % failing if failing else "")
            rep.need(outs, "a temporary configuration has no outcome")
            hit = False
            for o in outs:
                top = o.state.obj(s.cfg)
                stk = o.state.obj(top.f["_stack"]).items
                want = (REF("tmp"),) if stack else ()
                injected = o.kind == "raise" and any(is_c(x) and cval(x) == "!injected" for x in walk(o.value))
                rep.ob("restored", subj, tuple(stk) == want, "after the block %d temporary configuration(s) stay in force" % len(stk), last_site(o), o.events[-12:])
                hit = hit or injected
                perm = o.state.obj(top.f["_config"])
                ok = top.f["_config"] == REF("stored") and not [x for x in perm.items if x[0] == "k"]
                if stack:
                    t = o.state.obj(o.state.obj(REF("tmp")).f["_config"])
                    ok = ok and not [x for x in t.items if x[0] == "k"]
                rep.ob("isolated", subj, ok, "the outer configuration was changed from inside", last_site(o))
                sv = [ev for ev in o.events if ev.kind == "save"]
                rep.ob("isolated", subj + " file", not sv, "a temporary change is written to a configuration file", sv[0].site if sv else None)
                if o.kind == "return" and o.value.k == "tup":
                    ins, inh, aft = o.value.a
                    base = "temporary-stored" if stack else "stored"
                    rep.ob("inherits", subj, depends(o, ins, SYM("given")), "inside the block the given value is not in force: %s" % show(ins, 4), last_site(o))
                    rep.ob("inherits", subj + " others", depends(o, inh, SYM(base)) and not has_sym(inh, "given"), "inside the block other options are %s" % show(inh, 4), last_site(o))
                    rep.ob("restored", subj + " value", depends(o, aft, SYM(base)) and not has_sym(aft, "changed"), "after the block an option changed inside has the value %s" % show(aft, 4), last_site(o))
                    obs = observers(o)
                    names = [observer_name(x) for x in obs]
                    # entering, the change inside, leaving
                    rep.ob("announced", subj, all(names.count(n) >= 3 for n in set(names)) and len(set(names)) == 2, "observers are told %s times about entering, changing and leaving" % [names.count(n) for n in sorted(set(names))], last_site(o))
            if failing:
                rep.ob("restored", subj + " explored", hit, "the failure was swallowed")


def depends(o, v, leaf):
    return contains(v, leaf) or (v.k == "c" and any(contains(a, leaf) for a in o.state.facts))


@prop("C04")
def c04(rep):
    rep.rule("defaults", "every option's default is accepted by its own type, converter and list of valid values")
    rep.rule("table", "every option has a description and a converter that exists")
    rep.rule("used-keys", "every option name the package asks for exists in the option table")
    s = Setup(rep)
    e = s.e
    for name in sorted(s.options):
        f = s.options[name].f
        rep.ob("table", name + " description", f.get("description") is not None and f["description"].k == "c" and bool(cval(f["description"])), "no description")
        g = f.get("getter", NONE)
        if g != NONE:
            ok = g.k == "c" and isinstance(cval(g), str) and e.class_attr(s.cls, cval(g), e.state0) is not None
            rep.ob("table", name + " converter", ok, "the converter %s does not exist" % show(g))
        # set(name, default) must be able to succeed, and must not fail for certain
        st = s.state()
        outs = s.explore(s.meth("set", st), [C(name), f["default"]], st=st, assume=no_env)
        rep.ob("defaults", name, any(o.kind == "return" for o in outs), "the default %s is rejected by set()" % show(f["default"]), last_site(outs[0]) if outs else None)
        st = s.state()
        st.put("stored", H("dict", None, {}, (("k", C(name), f["default"]),)))
        outs = s.explore(s.meth("get", st), [C(name)], st=st, assume=no_env)
        rep.ob("defaults", name + " readable", any(o.kind == "return" for o in outs), "get() fails for the default %s" % show(f["default"]))
        if f["default"] == NONE:
            # nothing stays nothing: it is not turned into text or a number
            for o in outs:
                if o.kind == "return":
                    rep.ob("defaults", name + " stays unset", o.value == NONE, "the default None is read as %s" % show(o.value, 3), last_site(o))
    # literal option names used anywhere
    import ast

    n = 0
    for mod, tree in e.trees.items():
        for node in ast.walk(tree):
            if isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and node.func.attr in ("get", "set", "reset") and isinstance(node.func.value, ast.Name) and node.func.value.id == "CONFIG":
                if node.args and isinstance(node.args[0], ast.Constant) and isinstance(node.args[0].value, str):
                    n += 1
                    rep.ob("used-keys", "%s in %s" % (node.args[0].value, mod.rpartition("regrid.")[2]), node.args[0].value in s.options, "asks for an option that does not exist", "%s:%d" % (e.relpath(mod), node.lineno))
    # names reached through class constants: lists of keys and *_KEY attributes
    pol = e.lookup("utils.caching:CachePolicy").a[0]
    for c in [pol] + list(e.subclasses(pol)):
        for attr in ("CACHE_KEYS", "OUTDATED_CHECK_KEYS"):
            v = e.class_attr(c, attr, e.state0)
            h = e.state0.obj(v) if v is not None else None
            for x in h.items if h is not None else ():
                if x.k == "c":
                    n += 1
                    rep.ob("used-keys", "%s in %s.%s" % (cval(x), c.name, attr), cval(x) in s.options, "asks for an option that does not exist")
    mc = e.state0.obj(e.lookup("utils.memcache:MEMORY_CACHE")).cls
    for attr in dir_attrs(e, mc):
        v = e.class_attr(mc, attr, e.state0)
        if v is not None and v.k == "c" and isinstance(cval(v), str) and "-" in cval(v):
            n += 1
            rep.ob("used-keys", "%s in %s" % (cval(v), attr), cval(v) in s.options, "asks for an option that does not exist")
    rep.need(n >= 8, "only %d uses of options found" % n)


def dir_attrs(e, c):
    h = e.state0.get(c.oid)
    return list(h.f) if h is not None else []


def no_env(a, x):
    """Assume no environment variable of the package is set."""
    if a.k == "t" and a.a[0] == "in" and any(y.k == "ext" and y.a[0] == "os.environ" for y in walk(a)):
        return False
    if a.k == "t" and a.a[0] == "is" and NONE in a.a[1:] and any(env_term(y) for y in a.a[1:] if isinstance(y, V)):
        return True
    if a.k == "t" and a.a[0] == "truthy" and env_term(a.a[1]):
        return False
    return None


WRITE_MODES = set("wax+")


def same_file(v, path):
    """Is `v` certainly the file named by `path` (possibly with links resolved)?"""
    while v.k == "t" and v.a[0] in ("os.path.realpath", "os.path.abspath", "os.path.expanduser", "os.fspath", "builtins.str", "str", "os.path.normpath", "pathlib.Path"):
        v = v.a[1]
    return v == path


def open_for_writing(ev):
    if ev.kind != "call" or ev.get("name") not in ("builtins.open", "io.open", "os.fdopen", "tempfile.NamedTemporaryFile", "tempfile.mkstemp", "codecs.open"):
        return False
    a = list(ev.get("args") or ())
    m = a[1] if len(a) > 1 else (ev.get("kwargs") or {}).get("mode")
    if ev.name.startswith("tempfile."):
        return True
    return m is not None and not (m.k == "c" and not (set(str(cval(m))) & WRITE_MODES))


def replacements(o, path):
    """Calls that put a file in place of `path`: (index, event, source)."""
    for i, ev in enumerate(o.events):
        if ev.kind == "call" and ev.get("name") in ("os.replace", "os.rename", "shutil.move") and len(ev.args) == 2 and same_file(ev.args[1], path):
            yield i, ev, ev.args[0]


ALLK = KINDS | {"enterfn"}


@prop("C05")
def c05(rep):
    rep.rule("one-step", "the configuration file is replaced in one step by a complete file made next to it, never written in place")
    rep.rule("failure", "when writing fails, the configuration file stays as it was")
    rep.rule("complete", "every option that differs from its default is written under its own name, before the file is put in place")
    rep.rule("exclusive", "the file is written while its lock is held, and the lock is let go afterwards")
    rep.rule("loaded", "at start the values in the file are used over the defaults, and an unreadable file leaves the defaults")
    s = Setup(rep)
    e = s.e
    path = SYM("path", "str")
    fn = e.lookup("utils.config:save_config")
    keep = lambda ev, st, fr: ev.kind in ALLK  # noqa: E731
    for name in sorted(s.options):
        st = e.state0.fork()
        st.put("cfg", H("dict", None, {}, (("k", C(name), SYM("value")),)))
        outs = rep.count(e.explore(fn, [path, REF("cfg")], st=st, interest=keep))
        done = False
        for o in outs:
            if o.kind != "return":
                continue
            same = any(a.k == "t" and a.a[0] == "eq" and contains(a, SYM("value")) and v for a, v in o.state.facts.items())
            reps = list(replacements(o, path))
            rep.ob("one-step", name, bool(reps), "the file is not put in place by a rename", last_site(o))
            dumps = [(i, ev) for i, ev in enumerate(o.events) if ev.kind == "call" and str(ev.get("name")) in ("yaml.dump", "yaml.safe_dump", "builtins.print", ".write", ".writelines") and any(mentions(e, o, x, SYM("value")) for x in ev.args)]
            if reps and not same:
                done = True
                good = [i for i, ev in dumps if i < reps[-1][0] and any(mentions(e, o, x, C(name)) for x in ev.args)]
                rep.ob("complete", name, bool(good), "a value other than the default is not written under the option's name", last_site(o))
                if good:
                    src = reps[-1][2]
                    tgt = [x for x in o.events[good[-1]].args + list((o.events[good[-1]].kwargs or {}).values())] + ([o.events[good[-1]].recv] if o.events[good[-1]].get("recv") is not None else [])
                    rep.ob("one-step", name + " same file", any(contains(x, src) for x in tgt), "the values are not written to the file put in place", o.events[good[-1]].site)
        rep.ob("complete", name + " reached", done, "no path writes a value other than the default")
    # arbitrary configuration: order, exclusivity, failures
    cfg = SYM("cfg", "dict")
    for failing in (None, "yaml.dump", "builtins.open"):

        def mr(nm, fr, node, failing=failing):
            if failing and nm == failing:
                return [EXC(EXT("builtins.OSError"), C("!injected"))]

        outs = rep.count(e.explore(fn, [path, cfg], st=e.state0.fork(), interest=keep, may_raise=mr))
        subj = "saving" if not failing else "%s fails" % failing
        hit = False
        for o in outs:
            reps = list(replacements(o, path))
            for ev in o.events:
                if open_for_writing(ev) and ev.args:
                    rep.ob("one-step", subj, not same_file(ev.args[0], path), "the file is opened for writing in place", ev.site, o.events[-8:])
            for i, ev, src in reps:
                rep.ob("one-step", subj + " neighbour", contains(src, path), "the replacement is not made next to the file", ev.site)
            injected = o.kind == "raise" and any(is_c(x) and cval(x) == "!injected" for x in walk(o.value))
            hit = hit or injected
            if failing:
                fails = [i for i, ev in enumerate(o.events) if ev.kind == "raise" and any(is_c(x) and cval(x) == "!injected" for x in walk(ev.get("exc") or NONE))]
                if fails:
                    rep.ob("failure", subj + " noticed", not [1 for i, _, _ in reps if i > fails[0]], "the file is replaced although writing failed", last_site(o), o.events[-8:])
                if injected:
                    rep.ob("failure", subj, not reps, "the file is replaced by an incomplete one", last_site(o), o.events[-8:])
                    ins = [ev for ev in o.events if ev.kind == "ctxenter" and "FileLock" in str(ev.get("name"))]
                    outs_ = [ev for ev in o.events if ev.kind == "ctxexit" and "FileLock" in str(ev.get("name"))]
                    rep.ob("exclusive", subj, len(ins) == len(outs_), "the lock stays held", last_site(o))
            elif o.kind == "return":
                closed = {}
                locks = 0
                for i, ev in enumerate(o.events):
                    if ev.kind == "ctxenter":
                        locks += "FileLock" in str(ev.get("name"))
                    elif ev.kind == "ctxexit":
                        locks -= "FileLock" in str(ev.get("name"))
                        if "open" in str(ev.get("name")):
                            closed["f"] = i
                    elif ev.kind == "call" and str(ev.get("name")) in (".close",):
                        closed["f"] = i
                    elif open_for_writing(ev) or any(i == j for j, _, _ in reps):
                        rep.ob("exclusive", subj, locks > 0, "the file is written without its lock", ev.site)
                if reps:
                    rep.ob("one-step", subj + " closed", closed.get("f", 10**9) < reps[-1][0], "the file is put in place before it is closed", reps[-1][1].site)
                rep.ob("exclusive", subj + " released", locks == 0, "the lock stays held", last_site(o))
        if failing:
            rep.ob("failure", subj + " explored", hit, "a failure to write is swallowed by save_config")
    # loading
    fn = e.lookup("utils.config:_init_config")
    outs = rep.count(e.explore(fn, [SYM("file", "str")], st=e.state0.fork(), interest=keep))
    loaded = SYM("loaded", "dict")

    def load(e, st, recv, args, kw, fr, node):
        return [(st, loaded)]

    def mr2(nm, fr, node):
        if nm == "builtins.open":
            return [EXC(EXT("builtins.OSError"), C("!unreadable"))]

    outs = rep.count(e.explore(fn, [SYM("file", "str")], st=e.state0.fork(), interest=keep, models={"yaml.load": load, "yaml.safe_load": load}, may_raise=mr2))
    used = fell = False
    for o in outs:
        rep.ob("loaded", "start", o.kind == "return", "an unreadable configuration file stops the program", last_site(o))
        if o.kind != "return":
            continue
        cf = o.value.a[0] if o.value.k == "tup" else o.value
        h = o.state.obj(cf)
        if h is None:
            continue
        items = list(h.items)
        pos = [i for i, x in enumerate(items) if any(has_sym(y, "loaded") for y in x[1:] if isinstance(y, V))]
        keys = {cval(x[1]) for x in items if x[0] == "k" and x[1].k == "c"}
        if pos:
            used = True
            rep.ob("loaded", "file over defaults", not [x for x in items[pos[-1] + 1:] if x[0] == "k" and x[1].k == "c" and cval(x[1]) in s.options and not has_sym(x[2], "loaded")], "a default is put over the value in the file", last_site(o))
        else:
            fell = True
        rep.ob("loaded", "defaults kept", keys >= set(s.options), "options missing from the file have no value: %s" % sorted(set(s.options) - keys)[:3], last_site(o))
    rep.ob("loaded", "file used", used, "the values in the file are not used")
    rep.ob("loaded", "unreadable file", fell, "an unreadable file does not leave the defaults")


def mentions(e, o, v, leaf):
    return contains(e.snap(o.state, v), leaf) or contains(v, leaf)
