"""In-memory weights cache: M01..M05."""

from ..core import *  # noqa
from ..core import AnalysisError
from ..engine import ClassInfo
from ..values import *  # noqa
from ..values import C, CH, CLS, EXC, EXT, FALSE, H, NONE, REF, SYM, T, TRUE, TUP, V
from . import prop

INTEREST = {
    "acquire", "release", "acquirefail", "setattr", "getattr", "setitem", "delitem", "mut", "read", "call", "loop", "raise",
    "find", "branch", "handler",
}
LOAD = "scipy.sparse.load_npz"


def interest(ev, st, fr):
    if ev.kind == "setattr" and ev.name in FIELDS and ev.value.k == "ref" and isinstance(ev.old, V) and ev.old.k == "ref":
        ALIAS.add(ev.value)
    return ev.kind in INTEREST


FIELDS = set()


ALIAS = set()  # other objects that take the place of the cache's mapping, e.g. a fresh one


class Setup:
    """The process-wide cache object in an arbitrary (open) state, one per policy."""

    def __init__(self, rep):
        self.rep = rep
        self.eng = e = rep.engine()
        self.cache = e.lookup("utils.memcache:MEMORY_CACHE")
        h = e.state0.obj(self.cache)
        rep.need(h is not None and h.kind == "inst", "the process-wide memory cache object is gone")
        self.cls = h.cls
        s0 = e.state0
        self.locks = [k for k, v in h.f.items() if s0.obj(v) is not None and s0.obj(v).kind == "lock"]
        self.dicts = [k for k, v in h.f.items() if all(s0.obj(w) is not None and s0.obj(w).kind == "dict" for w in (v.a if v.k == "ch" else (v,)))]
        rep.need(self.dicts, "the memory cache holds no mapping")
        cand = h.f[self.dicts[0]]
        self.items = cand.a[0] if cand.k == "ch" else cand
        self.fld = self.dicts[0]
        FIELDS.add(self.fld)
        # policy: the field holding (one of) the policy instances
        self.policy_field = None
        for k, v in h.f.items():
            for w in v.a if v.k == "ch" else (v,):
                o = s0.obj(w)
                if o is not None and o.kind == "inst":
                    self.policy_field = k
                    base = o.cls.repo_mro()[-1]
        rep.need(self.policy_field, "no policy object in the memory cache")
        self.policies = {}
        for c in [base] + e.subclasses(base):
            nm = e.class_attr(c, "name", s0)
            if nm is not None and nm.k == "c" and isinstance(cval(nm), str) and not e.is_abstract(c):
                self.policies[cval(nm)] = c
        rep.need(set(self.policies) >= {"off", "unlimited", "lru", "largest"}, "policies found: %s" % sorted(self.policies))
        self._roles(h)

    def _roles(self, h):
        """Field roles, read off the public statistics tuple."""
        e = self.eng
        st = self.state("lru", scalar_all=True)
        fn = e.lookup("utils.memcache:memory_cache_info")
        outs = [o for o in e.explore(fn, [], st=st, interest=interest) if o.kind == "return"]
        self.rep.need(outs, "memory_cache_info() never returns")
        v = outs[0].value
        self.rep.need(v.k == "nt", "memory_cache_info() does not return a named tuple")
        names = v.a[0].a[1]
        self.role = {}
        for n, x in zip(names, v.a[1:]):
            if x.k == "sym" and x.a[0].startswith("f:"):
                self.role[n] = x.a[0][2:]
        self.info_value = dict(zip(names, v.a[1:]))
        for n in ("hits", "misses", "maxsize", "currsize"):
            self.rep.need(n in names, "statistics lost the field %s" % n)
        self.cur = self.role.get("currsize")
        self.max = self.role.get("maxsize")
        self.rep.need(self.cur and self.max, "currsize/maxsize are not plain fields of the cache")
        # strict: the remaining boolean option
        cand = [k for k, x in h.f.items() if "strict" in k.lower()]
        self.rep.need(cand, "no strict-mode field")
        self.strict = cand[0]

    def state(self, policy, limit=None, strict=None, scalar_all=False, items=None):
        e = self.eng
        st = e.state0.fork()
        h = st.obj(self.cache)
        for k, v in h.f.items():
            o = st.obj(v)
            if k in self.dicts:
                if v.k == "ch":
                    v = self.items
                    h = h.with_f(k, v)
                st.put(v.a[0], H("dict", None, {}, items if items is not None else (("s", SYM("old-items")),)))
            elif scalar_all and o is None and v.k in ("c", "ch", "t", "sym") and not (v.k == "ch" and any(x.k == "ref" for x in v.a)):
                h = h.with_f(k, SYM("f:" + k, "num"))
        if hasattr(self, "cur"):
            for k in ("hits", "misses", "currsize"):
                if k in self.role:
                    h = h.with_f(self.role[k], SYM(k, "num"))
            h = h.with_f(self.max, limit if limit is not None else SYM("maxsize", "num"))
            h = h.with_f(self.strict, strict if strict is not None else SYM("strict"))
        st.put("policy", H("inst", self.policies[policy], {}))
        # let the policy know its cache the way its constructor does
        ph = H("inst", self.policies[policy], {k: v for k, v in self._policy_fields(policy).items()})
        st.put("policy", ph)
        h = h.with_f(self.policy_field, REF("policy"))
        st.put(self.cache.a[0], h)
        if policy in ("lru", "largest"):
            st.facts[T("lt", C(0), SYM("maxsize", "num"))] = True  # established when the policy was adopted (M05)
        return st

    def _policy_fields(self, policy):
        h = self.eng.state0.obj(self.cache)
        for w in walk(h.f[self.policy_field]):
            o = self.eng.state0.obj(w) if w.k == "ref" else None
            if o is not None and o.f:
                return o.f
        return {}

    # the lookup history: db.find(in, out, method) on a database with an arbitrary index
    def lookup(self, policy, faults=True, source=None, **kw):
        e = self.eng
        st = self.state(policy, **kw)
        return self.lookup_from(st, faults, source)

    def db(self, st, source=None):
        e = self.eng
        dbc = e.lookup("backends.db:MatrixDb.from_path")
        res = e.explore(dbc, [source if source is not None else SYM("source", "path")], st=st, opaque=self.opaque())
        res = [o for o in res if o.kind == "return"]
        self.rep.need(len(res) == 1, "MatrixDb.from_path is not a plain constructor")
        return res[0].state, res[0].value

    def opaque(self):
        def find(e, st, f, args, kw, fr, node):
            a = list(args[1:]) + [kw[k] for k in sorted(kw)]
            miss = st.fork()
            miss.facts[T("found")] = False
            st.facts[T("found")] = True
            e.emit(st, "find", fr, node, args=a, kwargs=kw, found=True)
            e.emit(miss, "find", fr, node, args=a, kwargs=kw, found=False)
            return [(st, SYM("entry", "obj")), (miss, NONE)]

        def load(e, st, f, args, kw, fr, node):
            return [(st, NONE)]

        def gs(e, st, f, args, kw, fr, node):
            x = args[-1]
            return [(st, x if x.k == "t" and x.a[0] == "gs" else T("gs", x))]

        def isnone(e, st, f, args, kw, fr, node):
            return None

        return {
            "backends.db.MatrixIndex.find": find,
            "backends.db.MatrixIndex.load": load,
            "gridspec.GridSpec.from_dict": gs,
        }

    def lookup_from(self, st, faults=True, source=None):
        e = self.eng
        st, db = self.db(st, source)
        h = st.obj(db)
        fn = e.bind(e.class_attr(h.cls, "find", st), db, h.cls, st)

        def mr(name, fr, node):
            if faults and name in (LOAD, "enter:builtins.open", ".nbytes"):
                return [EXC(EXT("?"))]

        def assume(a, s):
            if a.k == "t" and a.a[0] == "is" and NONE in a.a[1:]:
                o = a.a[1] if a.a[2] == NONE else a.a[2]
                if o.k == "t" and o.a[0] in ("gs", LOAD):
                    return False
            return None

        outs = e.explore(
            fn, [SYM("in", "grid"), SYM("out", "grid"), SYM("method", "str")], st=st, interest=interest, may_raise=mr,
            opaque=self.opaque(), assume=assume,
        )
        return self.rep.count(outs)

    def others(self, policy):
        """The other public operations on the cache, as (name, outcomes)."""
        e = self.eng
        res = []
        for nm in ("clear_memory_cache", "memory_cache_info"):
            outs = e.explore(e.lookup("utils.memcache:" + nm), [], st=self.state(policy), interest=interest)
            res.append((nm, self.rep.count(outs)))
        res.append(("configuration update", self.update(policy)))
        return res

    def callbacks(self):
        """Configuration callbacks that belong to the cache object."""
        e = self.eng
        cfg = e.state0.obj(e.lookup("utils.config:CONFIG"))
        out = []
        for k, v in cfg.f.items():
            o = e.state0.obj(v)
            if o is not None and o.kind == "list":
                for x in o.items:
                    if x.k == "fn" and x.a[2] == self.cache and x not in out:
                        out.append(x)
        return out

    def cfg_opaque(self):
        def get(e, st, f, args, kw, fr, node):
            if len(args) >= 2 and args[1].k == "c":
                n = cval(args[1])
                return [(st, SYM("cfg:%s" % n, "opt" if "maximum" in n else "any"))]
            return None

        return {"utils.config.Config.get": get}

    def update(self, policy, assume=None, **kw):
        e = self.eng
        cbs = self.callbacks()
        if not cbs:
            return []
        st = self.state(policy, **kw)
        return self.rep.count(e.explore(cbs[0], [], st=st, interest=interest, opaque=self.cfg_opaque(), assume=assume))

    # -- helpers over events
    def isitems(self, v):
        return v == self.items or v in ALIAS

    def itemsref(self, o):
        return o.state.obj(self.cache).f[self.fld]

    def touches_items(self, ev):
        if ev.kind in ("mut", "setitem", "delitem", "read"):
            return self.isitems(ev.get("obj"))
        if ev.kind == "loop":
            it = ev.get("iter")
            return isinstance(it, V) and any(self.isitems(x) for x in walk(it))
        return False

    def guarded(self, ev):
        if self.touches_items(ev):
            return True
        if ev.kind in ("setattr", "getattr") and ev.get("obj") == self.cache:
            names = {self.cur, self.role.get("hits"), self.role.get("misses")}
            if ev.kind == "setattr":
                names |= {self.max, self.strict, self.policy_field} | set(self.dicts)
            return ev.name in names
        return False


def short(q):
    return q.rpartition(":")[2]


@prop("M01")
def m01(rep):
    rep.rule("lockset", "every access to the cache's entries, byte count, counters and limits holds one common lock")
    rep.rule("one-section", "membership test, weight loading and insertion happen in one uninterrupted critical section")
    rep.rule("released", "every exit (return or raise) leaves no lock held")
    rep.rule("no-self-deadlock", "a plain lock is never taken again by the thread that holds it")
    rep.rule("one-load", "a lookup loads weights at most once and a hit loads nothing")
    s = Setup(rep)
    rep.need(s.locks, "the memory cache has no lock")
    for pol in sorted(s.policies):
        runs = [("lookup", s.lookup(pol))] + s.others(pol)
        for name, outs in runs:
            subj = "%s/%s" % (name, pol)
            rep.ob("released", subj, True)
            rep.ob("no-self-deadlock", subj, True)
            rep.need(outs or name == "configuration update", "%s has no outcome under policy %s" % (name, pol))
            for o in outs:
                rep.ob("released", subj, not o.state.held, "the lock is still held when %s %s" % (name, "returns" if o.kind == "return" else "raises"), last_site(o), o.events)
            for ev in s.eng.deadlocks:
                rep.ob("no-self-deadlock", subj, False, "takes a lock it already holds", ev.site)
            s.eng.deadlocks.clear()
    lockset = None
    seen = {}
    for pol in sorted(s.policies):
        for name, outs in [("lookup", s.lookup(pol, faults=False))] + s.others(pol):
            for o in outs:
                for ev in o.events:
                    if s.guarded(ev):
                        k = (name, ev.site, ev.kind, ev.get("name"))
                        seen[k] = (seen[k][0] & set(ev.held), ev) if k in seen else (set(ev.held), ev)
    rep.need(seen, "no access to the cache contents was found")
    common = None
    for held, ev in seen.values():
        if held:
            common = held if common is None else (common & held or common)
    for (name, site, kind, nm), (held, ev) in sorted(seen.items(), key=lambda x: str(x[0])):
        subj = "%s %s.%s" % (name, short(site), nm or ev.get("how") or kind)
        ok = bool(common) and bool(held & common)
        rep.ob("lockset", subj, ok, "%s of cache state without holding the cache lock" % kind, site)
    for pol in sorted(s.policies):
        outs = s.lookup(pol, faults=False)
        for o in outs:
            idx_test = [i for i, ev in enumerate(o.events) if s.touches_items(ev) and ev.kind in ("read",)]
            ins = [i for i, ev in enumerate(o.events) if ev.kind == "setitem" and s.isitems(ev.obj)]
            loads = [i for i, ev in enumerate(o.events) if ev.kind == "call" and ev.name == LOAD]
            rep.ob("one-load", pol, len(loads) <= 1, "weights are loaded %d times for one request" % len(loads), o.events[loads[-1]].site if loads else None)
            if ins and idx_test:
                # the last membership test that precedes the load must be in the same section as the insertion
                tests = [i for i in idx_test if i < ins[-1] and o.events[i].how in ("in", "get", "index", "setdefault", "pop")]
                first = tests[0] if tests else idx_test[0]
                if loads:
                    before = [i for i in tests if i < loads[0]]
                    rep.ob("one-section", pol, bool(before), "weights are loaded without first testing the cache", o.events[loads[0]].site)
                    first = before[-1] if before else first
                rel = [ev for ev in o.events[first:ins[-1]] if ev.kind in ("release", "acquire") and any(ev.lock == l for l in common or ())]
                rep.ob("one-section", pol, not rel, "the lock is dropped between the cache test and the insertion", rel[0].site if rel else None, rel)
            elif ins:
                rep.ob("one-section", pol, False, "inserts without testing for an existing entry", o.events[ins[0]].site)


# ------------------------------------------------------------------------------ accounting
def norm(v, s):
    """Drop versions and loop labels; rewrite what an arg-max implies."""
    memo = {}

    def rec(x):
        if not isinstance(x, V):
            return tuple(rec(y) if isinstance(y, V) else y for y in x) if isinstance(x, tuple) else x
        r = memo.get(x)
        if r is None:
            a = [rec(y) if isinstance(y, (V, tuple)) else y for y in x.a]
            r = V(x.k, *a)
            if x.k == "t":
                if x.a[0] == "ver":
                    r = a[1]
                elif x.a[0] == "kwopt" and a[1].k == "t" and a[1].a[0] == "item":
                    r = a[1]
                elif x.a[0] == "elem":
                    r = T("elem", a[1])
                elif x.a[0] in ("popval", "popkey"):
                    r = T(*a[:4])
                elif x.a[0] == "item" and a[1].k == "t" and a[1].a[0] in ("builtins.max", "builtins.min"):
                    r = argbest(r)
            memo[x] = r
        return r

    return rec(v)


def argbest(r):
    """item(max([(f(k), k) for k ...]), 0) is f(item(max(...), 1))."""
    m, i = r.a[1], r.a[2]
    if not (is_c(i, int) and len(m.a) > 1 and m.a[1].k == "t" and m.a[1].a[0] == "list" and len(m.a[1].a) == 2 and m.a[1].a[1].k == "star"):
        return r
    tup = m.a[1].a[1].a[0]
    if tup.k != "tup":
        return r
    me = tup.a[cval(i)] if -len(tup.a) <= cval(i) < len(tup.a) else None
    if me is None or (me.k == "t" and me.a[0] == "elem"):
        return r
    for j, t in enumerate(tup.a):
        if t.k == "t" and t.a[0] == "elem" and contains(me, t):
            return subst(me, t, T("item", m, C(j)))
    return r


def subst(v, a, b):
    if v == a:
        return b
    if not isinstance(v, V) or not v.a:
        return v
    return V(v.k, *[subst(x, a, b) if isinstance(x, V) else x for x in v.a])


def lin(v):
    """Linear form {atom: coefficient} of an arithmetic term."""
    out = {}

    def add(x, c):
        if x.k == "c" and isinstance(cval(x), (int, float)) and not isinstance(cval(x), bool):
            out[None] = out.get(None, 0) + c * cval(x)
        elif x.k == "t" and x.a[0] == "bin:Add":
            add(x.a[1], c)
            add(x.a[2], c)
        elif x.k == "t" and x.a[0] == "bin:Sub":
            add(x.a[1], c)
            add(x.a[2], -c)
        elif x.k == "t" and x.a[0] == "neg":
            add(x.a[1], -c)
        elif x.k == "t" and x.a[0] == "builtins.max" and len(x.a) == 3 and C(0) in x.a[1:]:
            add(x.a[2] if x.a[1] == C(0) else x.a[1], c)  # byte counts are never negative while they are exact
        else:
            out[x] = out.get(x, 0) + c

    add(v, 1)
    return {k: c for k, c in out.items() if c != 0}


def ladd(a, b, s=1):
    out = dict(a)
    for k, c in b.items():
        out[k] = out.get(k, 0) + s * c
    return {k: c for k, c in out.items() if c != 0}


def size_field(s, outs):
    """The record field whose value is a function of the loaded weights only (their size)."""
    for o in outs:
        for ev in o.events:
            if ev.kind == "setitem" and s.isitems(ev.obj) and ev.value.k == "nt":
                names = ev.value.a[0].a[1]
                if "size" in names:
                    return "size"
                for n, x in zip(names, ev.value.a[1:]):
                    if any(y.k == "t" and y.a[0] == "bin:Add" for y in walk(x)):
                        return n
    return None


def sized(val, fld):
    if val.k == "nt":
        names = val.a[0].a[1]
        if fld in names:
            return val.a[1 + names.index(fld)]
    return T("attr", val, C(fld))


class Account:
    """Ghost accounting: recorded bytes minus the sum of the sizes of the entries held."""

    def __init__(self, s, fld):
        self.s, self.fld = s, fld

    def run(self, o):
        s = self.s
        cur = lin(SYM("currsize", "num"))
        ghost = dict(cur)
        sums = {}
        facts = o.state.facts
        for ev in o.events:
            for x in ev.d.values():
                if isinstance(x, V):
                    for y in walk(x):
                        if y.k == "t" and y.a[0] == "ver" and y.a[1] == s.items and y not in sums:
                            sums[y] = dict(ghost)
            if ev.kind == "setattr" and ev.obj == s.cache and ev.name == s.fld:
                ghost = {} if s.isitems(ev.value) and ev.value != s.items else lin(T("unknown-mapping"))
            elif ev.kind == "setattr" and ev.obj == s.cache and ev.name == s.cur:
                old = self.form(ev.old, sums)
                if old != cur:
                    ghost = ladd(old, ladd(cur, ghost, -1), -1)  # a loop widened the value; the difference is kept
                    cur = old
                cur = self.form(ev.value, sums)
                if self.never_negative(ev, facts):
                    cur = old
            elif ev.kind == "setitem" and s.isitems(ev.obj):
                ghost = ladd(ghost, self.form(sized(ev.value, self.fld), sums))
                if not self.absent(ev.key, facts):
                    ghost = ladd(ghost, self.form(T("attr", T("item", s.items, ev.key), C(self.fld)), sums), -1)
            elif ev.kind == "delitem" and s.isitems(ev.obj):
                ghost = ladd(ghost, self.form(T("attr", T("item", s.items, ev.key), C(self.fld)), sums), -1)
            elif ev.kind == "mut" and s.isitems(ev.obj):
                if ev.name == "clear":
                    ghost = {}
                elif ev.name == "pop":
                    ghost = ladd(ghost, self.form(T("attr", T("item", s.items, ev.args[0]), C(self.fld)), sums), -1)
                elif ev.name == "popitem":
                    r = ev.get("result")
                    v = r.a[1] if r is not None else T("popval", s.items)
                    ghost = ladd(ghost, self.form(sized(v, self.fld), sums), -1)
                elif ev.name in ("update", "setdefault"):
                    ghost = ladd(ghost, lin(T("unknown-" + ev.name)))
        last = self.form(o.state.obj(s.cache).f[s.cur], sums)
        if last != cur:
            ghost = ladd(last, ladd(cur, ghost, -1), -1)
            cur = last
        d = ladd(cur, ghost, -1)
        if d and not cur and empty_at_end(s, o):
            d = {}
        return d, cur

    def never_negative(self, ev, facts):
        """`x = 0` taken only when x < 0: cannot happen while the accounting is exact."""
        return ev.value == C(0) and any(
            v and a.k == "t" and a.a[0] == "lt" and a.a[1] == ev.old and a.a[2] == C(0) for a, v in facts.items()
        )

    def absent(self, key, facts):
        for a, v in facts.items():
            if not v and a.k == "t" and a.a[0] == "in" and a.a[1] == key and contains(a.a[2], self.s.items):
                return True
        return False

    def form(self, v, sums):
        f = lin(v)
        out = {}
        for a, c in f.items():
            if a is not None and a.k == "t" and a.a[0] == "builtins.sum":
                g = self.total(a, sums)
                if g is not None:
                    out = ladd(out, {k: c * x for k, x in g.items()})
                    continue
            out = ladd(out, {(norm(a, self.s) if a is not None else None): c})
        # flatten again: normalising can expose sums of atoms
        res = {}
        for a, c in out.items():
            if a is None:
                res = ladd(res, {None: c})
            else:
                res = ladd(res, {k: c * x for k, x in lin(a).items()})
        return res

    def total(self, a, sums):
        """sum(<size of x> for x in entries) -> the ghost total at that moment."""
        l = a.a[1]
        if l.k == "t" and l.a[0] == "list" and len(l.a) == 2 and l.a[1].k == "star":
            e = norm(l.a[1].a[0], self.s)
            if e == T("attr", T("item", self.s.items, T("elem", self.s.items)), C(self.fld)):
                vs = [y for y in walk(l) if y.k == "t" and y.a[0] == "ver" and y.a[1] == self.s.items]
                if vs and len(set(vs)) == 1 and vs[0] in sums:
                    return sums[vs[0]]
        return None


def empty_at_end(s, o):
    h = o.state.obj(s.itemsref(o))
    if not h.items:
        return True
    r = T("ver", s.itemsref(o), C(h.ver))
    return o.state.facts.get(T("truthy", r)) is False or o.state.facts.get(T("eq", C(0), T("builtins.len", r))) is True


def at_most(facts, acc, cur, lim):
    """Is cur <= lim implied by a recorded comparison?"""
    for a, v in facts.items():
        if a.k == "t" and a.a[0] == "lt":
            x, y = acc.form(a.a[1], {}), acc.form(a.a[2], {})
            if v and x == cur and y == lim:
                return True
            if not v and x == lim and y == cur:
                return True
            # differences: lt(x, y) with x - y == cur - lim
            if v and ladd(x, y, -1) == ladd(cur, lim, -1):
                return True
            if not v and ladd(y, x, -1) == ladd(cur, lim, -1):
                return True
    return False


def raw_form(o, s, acc):
    return acc.form(o.state.obj(s.cache).f[s.cur], {})


@prop("M02")
def m02(rep):
    rep.rule("exact", "at every exit the recorded byte count equals the sum of the sizes of the entries held")
    rep.rule("bounded", "under a size-limited policy an operation that added an entry or changed the limit ends with the byte count within the limit or the cache empty")
    rep.rule("true-size", "the size recorded for an entry is computed from the weights that are stored with it")
    rep.rule("statistics", "hits, misses and current size are reported and maintained exactly")
    s = Setup(rep)
    fld = None
    runs = {}
    for pol in sorted(s.policies):
        runs[pol] = [("lookup", s.lookup(pol))] + s.others(pol)
        fld = fld or size_field(s, runs[pol][0][1])
    rep.need(fld, "entries are not records with a size")
    acc = Account(s, fld)
    limited = ("lru", "largest")
    for pol, rr in runs.items():
        for name, outs in rr:
            subj = "%s/%s" % (name, pol)
            for o in outs:
                d, cur = acc.run(o)
                neg = any(v and a.k == "t" and a.a[0] == "lt" and a.a[2] == C(0) and acc.form(a.a[1], {}) != {} and not contains(a.a[1], SYM("maxsize", "num")) and not has_sym_prefix(a.a[1], "cfg:") and (contains(a.a[1], SYM("currsize", "num")) or has_sym_prefix(a.a[1], "loop:")) for a, v in o.state.facts.items())
                if neg:
                    continue  # only reachable with a negative byte count, which `exact` excludes
                rep.ob("exact", subj, not d, "byte count and entries disagree by %s" % show_lin(d), last_item_site(s, o), item_events(s, o))
                if pol in limited or name == "configuration update":
                    ins = [ev for ev in o.events if ev.kind == "setitem" and s.isitems(ev.obj)]
                    upd = name == "configuration update" and any(ev.kind == "setattr" and ev.obj == s.cache and ev.name == s.max for ev in o.events)
                    ph = o.state.obj(o.state.obj(s.cache).f[s.policy_field])
                    now = cval(s.eng.class_attr(ph.cls, "name", o.state)) if ph is not None else pol
                    if (ins or upd) and now in limited and o.kind == "return":
                        lim = acc.form(o.state.obj(s.cache).f[s.max], {})
                        ok = empty_at_end(s, o) or at_most(o.state.facts, acc, raw_form(o, s, acc), lim)
                        rep.ob("bounded", subj, ok, "may end above the configured limit", last_item_site(s, o), item_events(s, o))
                for ev in o.events:
                    if ev.kind == "setitem" and s.isitems(ev.obj) and ev.value.k == "nt":
                        sz = sized(ev.value, fld)
                        data = [x for n, x in zip(ev.value.a[0].a[1], ev.value.a[1:]) if n != fld]
                        loaded = {x for y in data for x in walk(deref(o.state, y)) if x.k == "t" and x.a[0] == LOAD}
                        used = {x for x in walk(deref(o.state, sz)) if x.k == "t" and x.a[0] == LOAD}
                        parts = {cval(x.a[2]) for x in walk(sz) if x.k == "t" and x.a[0] == "attr" and is_c(x.a[2], str)}
                        ok = sz == C(0) or (used and used <= loaded and {"data", "indices", "indptr", "nbytes"} <= parts)
                        rep.ob("true-size", subj, ok, "recorded size %s is not the memory of the stored weights" % show(sz), ev.site)
                stats(rep, s, name, pol, subj, o)
    for n in ("hits", "misses", "maxsize", "currsize"):
        rep.ob("statistics", "reported " + n, n in s.role, "the reported %s is not the maintained value" % n)
    cnt = s.info_value.get("count")
    rep.ob("statistics", "reported count", cnt is not None and norm(cnt, s) == T("builtins.len", s.items), "count is not the number of entries held")


def deref(st, v):
    return v


def stats(rep, s, name, pol, subj, o):
    f = o.state.obj(s.cache).f
    h, m = f.get(s.role.get("hits")), f.get(s.role.get("misses"))
    if h is None or m is None:
        return
    dh, dm = ladd(lin(h), lin(SYM("hits", "num")), -1), ladd(lin(m), lin(SYM("misses", "num")), -1)
    if name == "lookup" and o.kind == "return":
        loads = [ev for ev in o.events if ev.kind == "call" and ev.name == LOAD]
        finds = [ev for ev in o.events if ev.kind == "find"]
        if pol == "off":
            rep.ob("statistics", subj, not dh, "a lookup with caching off counts as a hit", last_site(o))
        elif loads or finds:
            rep.ob("statistics", subj, not dh and dm == {None: 1}, "a miss changes (hits, misses) by (%s, %s)" % (show_lin(dh), show_lin(dm)), last_item_site(s, o))
        else:
            rep.ob("statistics", subj, dh == {None: 1} and not dm, "a hit changes (hits, misses) by (%s, %s)" % (show_lin(dh), show_lin(dm)), last_item_site(s, o))
    if name == "lookup" and o.kind == "raise":
        loads = [i for i, ev in enumerate(o.events) if ev.kind == "call" and ev.name == LOAD]
        failed = not loads or any(ev.kind == "raise" for ev in o.events[loads[-1] :][:2])
        if failed:
            rep.ob("statistics", subj + " fails", not dh and not dm, "a lookup that fails changes (hits, misses) by (%s, %s)" % (show_lin(dh), show_lin(dm)), last_item_site(s, o))
    if name == "clear_memory_cache" and o.kind == "return":
        ok = h == C(0) and m == C(0) and f[s.cur] == C(0) and empty_at_end(s, o)
        rep.ob("statistics", subj, ok, "clearing leaves hits=%s misses=%s size=%s" % (show(h), show(m), show(f[s.cur])), last_site(o))
    if name == "memory_cache_info":
        rep.ob("statistics", subj, not dh and not dm, "reading statistics changes them", last_site(o))


def has_sym_prefix(v, p):
    return any(x.k == "sym" and str(x.a[0]).startswith(p) for x in walk(v))


def show_lin(d):
    if not d:
        return "0"
    return " ".join("%+g*%s" % (c, "1" if k is None else show(k, 3)) for k, c in d.items())


def item_events(s, o):
    return [ev for ev in o.events if s.touches_items(ev) or (ev.kind == "setattr" and ev.obj == s.cache)]


def last_item_site(s, o):
    e = item_events(s, o)
    return e[-1].site if e else last_site(o)


# ------------------------------------------------------------------------------ identity of entries
INJECTIVE = {
    "digest", ".encode", "json.dumps", "tuple", "list", "dict", "fstr", "builtins.str", "str", "builtins.repr", "gs", "bin:Add", "fmt", ".join", "kw",
    "os.fspath", "copy", "d.items", "sorted-items",
}


def carries(v, leaf):
    """Is `leaf` recoverable from v: reachable only through information-preserving operations?"""
    if v == leaf:
        return True
    if v.k in ("tup", "kw", "star", "spread"):
        return any(isinstance(x, V) and carries(x, leaf) for x in v.a)
    if v.k == "t" and (v.a[0] in INJECTIVE or (v.a[0] == "sorted" and v.a[1].k == "t" and v.a[1].a[0] == "d.items")):
        return any(isinstance(x, V) and carries(x, leaf) for x in v.a[1:])
    return False


def ambiguous(v):
    """String concatenations without separators: two different inputs can give the same key."""
    bad = []
    for x in walk(v):
        if x.k == "t" and x.a[0] == "fstr":
            prev_dyn = False
            for y in x.a[1:]:
                dyn = y.k != "c"
                if dyn and prev_dyn:
                    bad.append(x)
                prev_dyn = dyn
        elif x.k == "t" and x.a[0] == "bin:Add" and all(y.k != "c" for y in x.a[1:]) and not any(y.k == "tup" or (y.k == "t" and y.a[0] in ("tuple", "list")) for y in x.a[1:]):
            bad.append(x)
        elif x.k == "t" and x.a[0] == ".join" and x.a[1] == C(""):
            bad.append(x)
    return bad


@prop("M03")
def m03(rep):
    rep.rule("key-complete", "the cache key determines the input grid, output grid, method and weights source of the request")
    rep.rule("key-agrees", "the key tested, the key read on a hit and the key written on a miss are the same")
    rep.rule("hit-value", "a hit returns exactly what was stored under the key")
    rep.rule("stored-value", "what is stored under the key is exactly what the miss returned")
    rep.rule("no-negative", "a request without weights, or whose loading failed, stores nothing")
    s = Setup(rep)
    fields = set()
    for pol in sorted(s.policies):
        if pol == "off":
            continue
        outs = s.lookup(pol)
        nins = 0
        for o in outs:
            ins = [ev for ev in o.events if ev.kind == "setitem" and s.isitems(ev.obj)]
            found = o.state.facts.get(T("found"))
            loads = [ev for ev in o.events if ev.kind == "call" and ev.name == LOAD]
            if ins:
                nins += 1
                key = ins[-1].key
                for nm, leaf in (("input grid", SYM("in", "grid")), ("output grid", SYM("out", "grid")), ("method", SYM("method", "str"))):
                    rep.ob("key-complete", "%s (%s)" % (nm, pol), carries(key, leaf), "the key does not determine the %s" % nm, ins[-1].site)
                rep.ob("key-complete", "weights source (%s)" % pol, source_in_key(key), "the key does not determine which inventory the weights come from", ins[-1].site)
                rep.ob("key-complete", "unambiguous (%s)" % pol, not ambiguous(key), "parts of the key are run together", ins[-1].site)
                rep.ob("key-complete", "order (%s)" % pol, ordered(key), "input and output grid are interchangeable in the key", ins[-1].site)
                for ev in o.events:
                    if ev is ins[-1]:
                        break
                    if ev.kind == "read" and s.isitems(ev.obj) and ev.get("key") is not None and not contains(ev.key, s.items):
                        rep.ob("key-agrees", pol, ev.key == key, "cache tested with a different key than the one written", ev.site)
                if o.kind == "return":
                    v = ins[-1].value
                    if v.k == "nt":
                        hit = [n for n, x in zip(v.a[0].a[1], v.a[1:]) if x == o.value]
                        rep.ob("stored-value", pol, bool(hit), "the stored entry does not hold the value that was returned", ins[-1].site)
                        fields.update(hit)
                    else:
                        rep.ob("stored-value", pol, v == o.value, "the stored entry is not the value that was returned", ins[-1].site)
                rep.ob("no-negative", pol, bool(loads) and found is True, "an entry is stored although no weights were loaded", ins[-1].site)
            if o.kind == "raise":
                rep.ob("no-negative", pol + " failure", not (ins and not loads), "a failed request leaves an entry", last_site(o))
        rep.need(nins, "no path under policy %s stores an entry" % pol)
        hits = [o for o in outs if o.kind == "return" and not any(ev.kind in ("find",) or (ev.kind == "call" and ev.name == LOAD) for ev in o.events)]
        rep.ob("hit-value", pol + " exists", bool(hits), "no lookup is ever served from the cache")
        for o in hits:
            keys = [ev.key for ev in o.events if ev.kind == "read" and s.isitems(ev.obj) and ev.get("key") is not None]
            v = norm(o.value, s)
            ok = False
            for k in keys:
                ent = T("item", s.items, norm(k, s))
                alts = [T("attr", ent, C(f)) for f in fields] + [ent] if fields else [ent]
                if v in alts:
                    ok = True
            rep.ob("hit-value", pol, ok, "a hit returns %s" % show(v), last_item_site(s, o))
    # no other writer of the entries
    m03_backends(rep)


def source_in_key(key):
    for x in walk(key):
        if x.k == "sym" and x.a[0] == "source":
            return True
        if x.k == "t" and x.a[0] in ("builtins.id", "id", "builtins.hash"):
            return True
    return False


def ordered(key):
    """Swapping the two grids changes the key term."""
    a, b, t = SYM("in", "grid"), SYM("out", "grid"), SYM("!tmp")
    sw = subst(subst(subst(key, a, t), b, a), t, b)
    return canon_sets(sw) != canon_sets(key)


def canon_sets(v):
    if not isinstance(v, V) or not v.a:
        return v
    a = [canon_sets(x) if isinstance(x, V) else x for x in v.a]
    r = V(v.k, *a)
    if v.k == "t" and v.a[0] in ("sorted", "set") and a[1:]:
        inner = a[1]
        if isinstance(inner, V) and (inner.k == "tup" or (inner.k == "t" and inner.a[0] in ("list", "tuple", "set"))):
            xs = inner.a if inner.k == "tup" else inner.a[1:]
            return T("sorted", *sorted(xs, key=show))
        if v.a[0] == "set":
            return T("set", *sorted([x for x in a[1:]], key=show))
    return r


def m03_backends(rep):
    """Backend objects are reused only for the same backend and the same options."""
    rep.rule("backend-reuse", "a backend object is reused only for the same backend name and options, and is built with the options asked for")
    e = rep.engine()
    get = e.lookup("backends:get_backend")
    st = e.state0.fork()
    # an arbitrary history of earlier requests
    maker = e.lookup("backends:MAKER")
    mh = st.obj(maker)
    memos = [v for k, v in mh.f.items() if st.obj(v) is not None and st.obj(v).kind == "dict"]
    mod = st.get(e.modules["earthkit.regrid.backends"])
    memos += [v for k, v in mod.f.items() if st.obj(v) is not None and st.obj(v).kind == "dict" and v not in memos]
    registry = []
    caches = []
    for m in memos:
        h = st.obj(m)
        if any(x[0] == "k" and x[2].k in ("cls", "ext", "mod") for x in h.items):
            registry.append(m)
        else:
            caches.append(m)
            st.put(m.a[0], H("dict", None, {}, (("s", SYM("old-backends")),)))
    def scan(ev, s, fr):
        return ev.kind in ("setitem", "read", "new", "memocall")

    mkw = {"inventory": SYM("inventory", "str")}
    outs = rep.count(e.explore(get, [C("precomputed")], mkw, st=st, interest=scan))
    made = [ev for o in outs for ev in o.events if ev.kind == "new"]
    rep.need(made, "get_backend never builds a backend")
    for o in outs:
        for ev in o.events:
            if ev.kind == "setitem" and ev.obj in caches:
                rep.ob("backend-reuse", "name in key", carries(ev.key, C("precomputed")) or any(x == C("precomputed") for x in walk(ev.key)), "the reuse key omits the backend name", ev.site)
                rep.ob("backend-reuse", "options in key", has_sym(ev.key, "inventory"), "the reuse key omits the backend options", ev.site)
                rep.ob("backend-reuse", "unambiguous", not ambiguous(ev.key), "parts of the reuse key are run together", ev.site)
                for r in o.events:
                    if r.kind == "read" and r.obj == ev.obj and r.get("key") is not None:
                        rep.ob("backend-reuse", "same key", r.key == ev.key, "looked up under a different key than stored", r.site)
                rep.ob("backend-reuse", "stored object", ev.value == o.value, "the object stored is not the one returned", ev.site)
    ncls = 0
    for o in outs:
        for ev in o.events:
            if ev.kind == "new" and o.kind == "return" and ev.obj == o.value:
                ncls += 1
                a = list(ev.args) + [x for x in (ev.get("kwargs") or {}).values()]
                h = o.state.obj(o.value)
                ok = any(has_sym(x, "inventory") for x in a) or any(has_sym(x, "inventory") for x in h.f.values())
                rep.ob("backend-reuse", "built with options", ok, "a new backend is built without the options of the request", ev.site)


# ------------------------------------------------------------------------------ policies
def victims(s, o):
    """(event, key-or-entry term) of every eviction on a path."""
    for ev in o.events:
        if ev.kind == "delitem" and s.isitems(ev.obj):
            yield ev, ev.key
        elif ev.kind == "mut" and s.isitems(ev.obj) and ev.name in ("pop", "popitem"):
            yield ev, (ev.args[0] if ev.name == "pop" else ev.result.a[0])


def is_largest(k, s, fld):
    k = norm(k, s)
    for x in walk(k):
        if x.k == "t" and x.a[0] == "builtins.max" and len(x.a) > 1 and first_is_size(x.a[1], s, fld):
            return True
        if x.k == "t" and x.a[0] == "elem" and x.a[1].k == "t" and x.a[1].a[0] == "sortedby":
            sb = x.a[1]
            if sb.a[3] == TRUE and first_is_size(sb.a[1], s, fld):
                return True
    return False


def first_is_size(lst, s, fld):
    if not (lst.k == "t" and lst.a[0] == "list" and len(lst.a) == 2 and lst.a[1].k == "star"):
        return False
    el = lst.a[1].a[0]
    if el.k == "tup" and el.a:
        el = el.a[0]
        if el.k == "tup" and el.a:
            el = el.a[0]
    el = norm(el, s)
    return el == T("attr", T("item", s.items, T("elem", s.items)), C(fld))


def is_smallest(k, s, fld):
    k = norm(k, s)
    return any(x.k == "t" and x.a[0] == "builtins.min" and len(x.a) > 1 and first_is_size(x.a[1], s, fld) for x in walk(k))


def is_oldest(ev, k, s):
    if ev.kind == "mut" and ev.name == "popitem":
        return ev.last.k == "c" and not cval(ev.last)
    k = norm(k, s)
    if k == T("firstkey", s.items):
        return True
    return k.k == "t" and k.a[0] == "elem" and k.a[1] == s.items  # for key in list(items): ... in order


@prop("M04")
def m04(rep):
    rep.rule("off", "with caching off nothing is ever stored")
    rep.rule("kept", "with caching on, weights that were loaded are stored before they are returned")
    rep.rule("unlimited", "the unlimited policy never evicts during a lookup")
    rep.rule("lru", "the lru policy evicts the least recently used entry, and under every policy a hit makes an entry the most recent one, as the policy may change")
    rep.rule("largest", "the largest policy evicts the entry with the largest recorded size")
    rep.rule("room-first", "under a limit, space for weights that fit the limit is freed before they are loaded")
    rep.rule("strict", "in strict mode weights estimated larger than the free space raise ValueError without being loaded")
    rep.rule("not-strict", "outside strict mode the size limit never makes a lookup fail")
    rep.rule("estimate", "the size estimate comes from the index entry of the requested weights")
    s = Setup(rep)
    lim = {}
    fld = None
    allouts = {pol: s.lookup(pol) for pol in sorted(s.policies)}
    for pol, outs in allouts.items():
        fld = fld or size_field(s, outs)
    rep.need(fld, "entries are not records with a size")
    acc = Account(s, fld)
    for pol, outs in allouts.items():
        rep.ob("off", "explored", True)
        for o in outs:
            ins = [ev for ev in o.events if ev.kind == "setitem" and s.isitems(ev.obj)]
            loads = [ev for ev in o.events if ev.kind == "call" and ev.name == LOAD]
            ev_out = list(victims(s, o)) + [(ev, NONE) for ev in o.events if ev.kind == "mut" and s.isitems(ev.obj) and ev.name == "clear"]
            touched = [ev for ev in o.events if ev.kind == "mut" and s.isitems(ev.obj) and ev.name == "move_to_end"]
            if pol == "off":
                rep.ob("off", "lookup", not ins, "stores an entry with caching off", ins[0].site if ins else None)
                if o.kind == "return" and o.state.facts.get(T("found")) is True:
                    rep.ob("off", "loads", len(loads) == 1, "does not load the weights itself", last_site(o))
                continue
            if o.kind == "return" and loads and o.state.facts.get(T("found")) is True:
                rep.ob("kept", pol, bool(ins), "loaded weights are not stored", last_item_site(s, o))
            if o.kind == "return" and not loads and not any(ev.kind == "find" for ev in o.events):
                # the policy may become lru later
                rep.ob("lru", "recency under " + pol, refreshes(s, o), "a hit does not become the most recently used entry", last_item_site(s, o))
            if pol == "unlimited":
                rep.ob("unlimited", "lookup", not ev_out, "an entry is evicted", ev_out[0][0].site if ev_out else None)
            elif pol == "lru":
                for ev, k in ev_out:
                    rep.ob("lru", "victim", k != NONE and is_oldest(ev, k, s), "evicts %s, not the least recently used entry" % show(k), ev.site)
                for ev in ins:
                    rep.ob("lru", "insert at end", not any(t.kwargs and t.kwargs.get("last") == FALSE for t in touched), "a new entry becomes the oldest", ev.site)
            elif pol == "largest":
                for ev, k in ev_out:
                    rep.ob("largest", "victim", k != NONE and is_largest(k, s, fld), "evicts %s, not the largest entry" % show(norm(k, s)), ev.site)
            if pol in ("lru", "largest"):
                room(rep, s, pol, o, acc, loads, ev_out)
    # evictions must exist under limited policies
    for pol in ("lru", "largest"):
        rep.ob(pol, "evicts at all", any(True for o in allouts[pol] for _ in victims(s, o)), "nothing is ever evicted under a size limit")


def refreshes(s, o):
    keys = [ev.key for ev in o.events if ev.kind == "read" and s.isitems(ev.obj) and ev.how in ("in", "index", "get") and ev.get("key") is not None]
    removed = None
    for ev in o.events:
        if ev.kind == "mut" and s.isitems(ev.obj) and ev.name == "move_to_end" and ev.args and ev.args[0] in keys:
            last = (ev.get("kwargs") or {}).get("last", ev.args[1] if len(ev.args) > 1 else TRUE)
            if last.k == "c" and cval(last):
                return True
        if (ev.kind == "delitem" and s.isitems(ev.obj) and ev.key in keys) or (ev.kind == "mut" and s.isitems(ev.obj) and ev.name == "pop" and ev.args[0] in keys):
            removed = True
        if ev.kind == "setitem" and s.isitems(ev.obj) and ev.key in keys and removed:
            return True
    return False


def room(rep, s, pol, o, acc, loads, evs):
    """Facts known before loading: estimate vs. capacity."""
    est = [x for a in o.state.facts for x in walk(a) if x.k == "t" and x.a[0] == "item" and x.a[2] == C("memory")]
    if o.state.facts.get(T("found")) is not True:
        return
    if est:
        rep.ob("estimate", pol, all(has_sym(x, "entry") for x in est), "the estimate is not taken from the entry that will be loaded", last_site(o))
    facts = o.state.facts
    e0 = est[0] if est else None
    strict = facts.get(T("truthy", SYM("strict")))
    err = o.kind == "raise" and is_exc(o.value, "ValueError")
    here = s.eng.relpath(s.cls.module)
    if err and strict is not True and not loads and last_raise(o).startswith(here):
        rep.ob("not-strict", pol, False, "raises ValueError although strict mode is off", last_raise(o))
    elif o.kind == "return" and loads:
        rep.ob("not-strict", pol, True)
    if not loads:
        if err and strict is True:
            rep.ob("strict", pol + " raises", True)
        return
    rep.ob("room-first", pol + " estimate consulted", e0 is not None, "weights are loaded without consulting their size", loads[0].site)
    if e0 is None:
        return
    # byte count at the moment of loading
    cur = lin(SYM("currsize", "num"))
    items_ver = None
    for ev in o.events:
        if ev is loads[0]:
            break
        if ev.kind == "setattr" and ev.obj == s.cache and ev.name == s.cur:
            cur = acc.form(ev.value, {})
            old = acc.form(ev.old, {})
            if any(v and a.k == "t" and a.a[0] == "lt" and a.a[1] == ev.old and a.a[2] == C(0) for a, v in facts.items()):
                return  # unreachable while the byte count is exact
    mx = lin(SYM("maxsize", "num"))
    need = ladd(cur, acc.form(e0, {}))
    fits = at_most(facts, acc, need, mx)
    emptied = any(v is False and a.k == "t" and a.a[0] == "truthy" and a.a[1].k == "t" and a.a[1].a[0] == "ver" and a.a[1].a[1] == s.items for a, v in facts.items())
    toobig = at_most_strict(facts, acc, mx, acc.form(e0, {}))
    free_now = ladd(mx, cur, -1)
    rep.ob("room-first", pol, fits or emptied or toobig, "weights that fit the limit are loaded before room is made for them", loads[0].site)
    if strict is True:
        ok = fits or at_most(facts, acc, acc.form(e0, {}), free_now)
        rep.ob("strict", pol, ok, "weights larger than the free space are loaded in strict mode", loads[0].site)
    else:
        rep.ob("strict", pol + " consulted", strict is not None or fits or at_most(facts, acc, acc.form(e0, {}), free_now), "strict mode is not consulted before loading", loads[0].site)


def at_most_strict(facts, acc, x, y):
    """x < y implied."""
    for a, v in facts.items():
        if a.k == "t" and a.a[0] == "lt" and v:
            if ladd(acc.form(a.a[1], {}), acc.form(a.a[2], {}), -1) == ladd(x, y, -1):
                return True
    return False


def last_raise(o):
    for ev in reversed(o.events):
        if ev.kind == "raise":
            return ev.site
    return last_site(o)


@prop("M05")
def m05(rep):
    rep.rule("registered", "the cache is told about configuration changes")
    rep.rule("adopts", "after a configuration change the cache uses the configured policy, limit and strict mode")
    rep.rule("applies-now", "a change of policy or limit is applied to the entries already held")
    rep.rule("rejects", "an unknown policy, or a limited policy without a positive limit, raises ValueError")
    s = Setup(rep)
    e = s.eng
    rep.ob("registered", "weights cache", bool(s.callbacks()), "no configuration callback reaches the memory cache")
    if not s.callbacks():
        return
    for pol in sorted(s.policies):
        outs = s.update(pol)
        rep.need(outs, "the configuration callback has no outcome")
        for o in outs:
            h = o.state.obj(s.cache)
            ph = o.state.obj(h.f[s.policy_field])
            now = cval(e.class_attr(ph.cls, "name", o.state)) if ph is not None else "?"
            f = o.state.facts
            want = None
            cp = cfg_sym(s, o, "policy")
            if o.kind == "return":
                r = e.resolve(cp, o.state) if cp is not None else None
                same = any(v and a.k == "t" and a.a[0] == "eq" and cp in a.a[1:] and cval_in(a, now) for a, v in f.items())
                rep.ob("adopts", "policy from %s" % pol, cp is not None and same, "ends with policy %r not known to be the configured one" % now, last_item_site(s, o))
                mx, strict = h.f[s.max], h.f[s.strict]
                if now in ("lru", "largest"):
                    rep.ob("adopts", "limit from %s" % pol, same_as_cfg(s, o, mx, "maximum-weights", SYM("maxsize", "num")), "limit is %s" % show(mx), last_item_site(s, o))
                    rep.ob("adopts", "strict from %s" % pol, same_as_cfg(s, o, strict, "strict", SYM("strict")), "strict mode is %s" % show(strict), last_item_site(s, o))
                if now == "off":
                    changed = any(ev.kind == "setattr" and ev.obj == s.cache and ev.name in (s.policy_field,) for ev in o.events)
                    if changed:
                        rep.ob("applies-now", "switch off from %s" % pol, empty_at_end(s, o), "entries survive switching the cache off", last_item_site(s, o))
                if now == "unlimited":
                    changed = any(ev.kind == "setattr" and ev.obj == s.cache and ev.name == s.policy_field for ev in o.events)
                    if changed:
                        rep.ob("adopts", "unlimited from %s" % pol, mx == NONE, "the unlimited policy keeps the limit %s" % show(mx), last_item_site(s, o))
                if now in ("lru", "largest"):
                    ch = any(ev.kind == "setattr" and ev.obj == s.cache and ev.name in (s.policy_field, s.max) for ev in o.events)
                    if ch:
                        red = any(ev.kind in ("read", "mut", "delitem") and s.isitems(ev.obj) for ev in o.events)
                        rep.ob("applies-now", "limit applied from %s" % pol, red, "entries held are not reduced to the new limit", last_item_site(s, o))
            else:
                unknown = not any(v and a.k == "t" and a.a[0] == "eq" and cp in a.a[1:] for a, v in f.items()) if cp is not None else False
                if not (unknown and pol != "x"):
                    pass
                rep.ob("rejects", "error kind from %s" % pol, is_exc(o.value, "ValueError"), "a rejected configuration raises %s" % exc_name(o.value), last_raise(o))
    # a limited policy without a limit
    for pol in ("lru", "largest"):
        for nm, val in (("None", NONE), ("0", C(0)), ("negative", C(-1))):
            cls = s.policies[pol]
            st = s.state(pol, limit=val)
            outs = rep.count(e.explore(CLS(cls), [s.cache], st=st, interest=interest))
            bad = [o for o in outs if o.kind == "return" or not is_exc(o.value, "ValueError")]
            rep.ob("rejects", "%s with limit %s" % (pol, nm), not bad, "accepted, or fails with %s instead of ValueError" % (exc_name(bad[0].value) if bad and bad[0].kind == "raise" else "nothing"), last_raise(bad[0]) if bad else None)


def cval_in(a, x):
    return any(y.k == "c" and cval(y) == x for y in a.a[1:])


def cfg_sym(s, o, part):
    for a in list(o.state.facts):
        for x in walk(a):
            if x.k == "sym" and str(x.a[0]).startswith("cfg:") and part in x.a[0]:
                return x
    return None


def same_as_cfg(s, o, v, part, before):
    if v.k == "sym" and str(v.a[0]).startswith("cfg:") and part in v.a[0]:
        return True
    if v == before:
        return any(r and a.k == "t" and a.a[0] == "eq" and before in a.a[1:] and any(y.k == "sym" and str(y.a[0]).startswith("cfg:") and part in y.a[0] for y in a.a[1:]) for a, r in o.state.facts.items())
    return False
