"""Models of the builtins and libraries the analysed repository calls."""

import builtins as _pyb
import os
import re

from .values import *  # noqa

MUT_LIST = {"append", "extend", "insert", "pop", "remove", "clear", "reverse", "sort", "appendleft", "popleft"}
NOISE = ("logging.", "warnings.", "builtins.print", "traceback.")


class Models:
    def __init__(self, eng):
        self.e = eng

    # ------------------------------------------------------------------ entry points
    def call_ext(self, name, recv, args, kw, st, fr, node):
        e = self.e
        m = e.models.get(name)
        if m is not None:
            r = m(e, st, recv, args, kw, fr, node)
            if r is not None:
                return r
        if name.startswith(NOISE):
            if name == "logging.getLogger":
                return [(st, EXT("logging.LOG"))]
            return [(st, NONE)]
        fn = getattr(self, "x_" + name.replace(".", "_"), None)
        if fn is not None:
            r = fn(st, args, kw, fr, node)
            if r is not None:
                return r
        short = name.rpartition(".")[2]
        if name.startswith("builtins.") and isinstance(getattr(_pyb, short, None), type) and issubclass(getattr(_pyb, short), BaseException):
            return [(st, EXC(EXT(name), *args))]
        if name in ("re.search", "re.match", "re.fullmatch") and len(args) == 2 and not kw and all(is_c(a, str) for a in args):
            return [(st, matched(short, cval(args[0]), cval(args[1])))]
        # constant folding of pure functions
        if name in FOLD and args and not kw and all(a.k == "c" for a in args):
            try:
                return [(st, C(FOLD[name](*[cval(a) for a in args])))]
            except Exception as ex:
                return e.raise_b(st, type(ex).__name__, str(ex), fr, node)
        return self.generic(name, EXT(name), args, kw, st, fr, node)

    def generic(self, name, f, args, kw, st, fr, node, recv=None):
        e = self.e
        from .engine import PURE_EXT, PURE_METHODS

        meth = name.rpartition(".")[2]
        pure = name in PURE_EXT or (recv is not None and meth in PURE_METHODS)
        sargs = [e.snap(st, a) for a in args]
        skw = {k: e.snap(st, v) for k, v in kw.items()}
        parts = list(sargs) + [V("kw", k, skw[k]) for k in sorted(skw)]
        if recv is not None:
            parts = [e.snap(st, recv)] + parts
            op = "." + meth
        else:
            op = name
            if f.k not in ("ext",):
                parts = [f] + parts
        if not pure:
            parts.append(C(e.uid(st, node, fr, "c")))
        t = T(op, *parts)
        if name in ("struct.pack", "struct.unpack") or not pure:
            pass
        e.emit(st, "call", fr, node, name=op if recv is not None else name, f=f, recv=recv, args=list(args), kwargs=dict(kw), result=t)
        if e.may_raise is not None and not pure:
            for ex in e.may_raise(op if recv is not None else name, fr, node) or ():
                s2 = st.fork()
                e.raise_(s2, ex, fr, node)
        return [(st, t)]

    def call_super_ext(self, st, self_, name, after, args, kw, fr, node):
        if name == "__init__":
            h = st.obj(self_)
            if h is not None and h.cls is not None and "builtins.dict" in h.cls.ext_bases():
                return self.dict_init(st, self_, args, kw, fr, node)
            self.e.emit(st, "superinit", fr, node, obj=self_, args=args, kwargs=kw)
            if h is not None:
                st.put(self_.a[0], h.with_f("__extinit__", TUP(args + [V("kw", k, v) for k, v in sorted(kw.items())])))
            return [(st, NONE)]
        return self.call_method(st, self_, name, args, kw, fr, node)

    def call_method(self, st, recv, name, args, kw, fr, node):
        e = self.e
        m = e.models.get("." + name)
        if m is not None:
            r = m(e, st, recv, args, kw, fr, node)
            if r is not None:
                return r
        if recv.k == "t" and recv.a[0] == "re.compile" and len(recv.a) == 2 and is_c(recv.a[1], str) and name in ("search", "match", "fullmatch") and len(args) == 1 and not kw and is_c(args[0], str):
            return [(st, matched(name, cval(recv.a[1]), cval(args[0])))]
        if recv.k == "t" and recv.a[0] == "matched" and not kw and all(a.k == "c" for a in args) and name in ("group", "groups", "start", "end", "span", "groupdict", "__getitem__"):
            try:
                r = getattr(getattr(re, cval(recv.a[1]))(cval(recv.a[2]), cval(recv.a[3])), name)(*[cval(a) for a in args])
            except Exception as ex:
                return e.raise_b(st, type(ex).__name__, str(ex), fr, node)
            return [(st, self.lift(st, r, fr, node))]
        h = st.obj(recv)
        if h is not None:
            if h.kind == "dict" or (h.kind == "inst" and h.cls is not None and "builtins.dict" in h.cls.ext_bases()):
                r = self.dict_method(st, recv, name, args, kw, fr, node)
                if r is not None:
                    return r
            elif h.kind == "list":
                r = self.list_method(st, recv, name, args, kw, fr, node)
                if r is not None:
                    return r
            elif h.kind == "set":
                r = self.set_method(st, recv, name, args, kw, fr, node)
                if r is not None:
                    return r
            elif h.kind == "lock":
                return self.lock_method(st, recv, name, args, kw, fr, node)
            elif h.kind == "hash":
                return self.hash_method(st, recv, name, args, kw, fr, node)
            elif h.kind == "inst" and h.cls is not None and "threading.Thread" in h.cls.ext_bases() and name == "start":
                e.emit(st, "threadstart", fr, node, obj=recv)
                if recv not in st.threads:
                    st.threads = st.threads + (recv,)
                return [(st, NONE)]
        if recv.k == "ext" and recv.a[0].startswith("logging."):
            return [(st, NONE)]
        if recv.k == "c":
            if not kw and all(a.k == "c" or a.k == "tup" and name in ("startswith", "endswith") and all(x.k == "c" for x in a.a) for a in args) and name not in ("format",):
                try:
                    r = getattr(cval(recv), name)(*[cval(a) if a.k == "c" else tuple(cval(x) for x in a.a) for a in args])
                    return [(st, self.lift(st, r, fr, node))]
                except Exception as ex:
                    return e.raise_b(st, type(ex).__name__, str(ex), fr, node)
            if name == "join" and len(args) == 1:
                seq = e.concrete_iter(st, args[0])
                if seq is not None:
                    if all(is_c(x, str) for x in seq):
                        return [(st, C(cval(recv).join(cval(x) for x in seq)))]
                    return [(st, T(".join", recv, T("list", *[e.snap(st, x) for x in seq])))]
            if name == "format" and is_c(recv, str):
                if not kw and all(st.obj(a) is None for a in args):
                    v = spelled(cval(recv), "{", list(args))
                    if v is not None and all(x.k == "c" for x in v):
                        return [(st, C("".join(str(cval(x)) for x in v)))]
                    if v is not None:
                        return [(st, T("fstr", *[e.snap(st, x) for x in v]))]
                return [(st, T("fmt", recv, *([e.snap(st, a) for a in args] + [V("kw", k, e.snap(st, v)) for k, v in sorted(kw.items())])))]
        if recv.k == "cls" and name == "__subclasses__":
            subs = [CLS(c) for c in e.classes() if recv in c.bases]
            return [(st, e.new(st, H("list", None, {}, tuple(subs)), node, fr))]
        if recv.k == "cls" and "builtins.dict" in recv.a[0].ext_bases() and name == "fromkeys":
            return self.generic("." + name, recv, args, kw, st, fr, node, recv=recv)
        if name in ("items", "keys", "values") and not args and not kw and recv.k in ("sym", "t", "ch"):
            return [(st, T("d." + name, recv))]
        if name == "copy" and not args and recv.k in ("sym", "t"):
            return [(st, T("copy", recv, C(e.uid(st, node, fr, "cp"))))]
        if name in ("wait", "wait_for") and recv.k == "t":
            pass
        return self.generic("." + name, T("attr", recv, C(name)), args, kw, st, fr, node, recv=recv)

    def lift(self, st, r, fr, node):
        if isinstance(r, (list,)):
            return self.e.new(st, H("list", None, {}, tuple(self.lift(st, x, fr, node) for x in r)), node, fr)
        if isinstance(r, tuple):
            return TUP([self.lift(st, x, fr, node) for x in r])
        return C(r)

    # ------------------------------------------------------------------ dicts
    def dict_init(self, st, ref, args, kw, fr, node):
        h = st.obj(ref)
        items = tuple(h.items)
        out_states = []
        for a in args[:1]:
            items = self._upd(st, items, a)
        for k, v in kw.items():
            if k == "**":
                items = items + (("s", v),)
            else:
                from .engine import dict_put

                items = dict_put(items, C(k), v)
        st.put(ref.a[0], h.with_items(items))
        return [(st, ref)]

    def _upd(self, st, items, a):
        from .engine import dict_put

        e = self.e
        h = st.obj(a)
        if h is not None and h.kind in ("dict", "inst"):
            return tuple(e.dict_spread(items, st, a))
        seq = e.concrete_iter(st, a)
        if seq is not None and all(x.k == "tup" and len(x.a) == 2 for x in seq):
            for x in seq:
                items = dict_put(items, x.a[0], x.a[1])
            return items
        return tuple(items) + (("s", e.snap(st, a)),)

    def dict_lookup(self, st, o, key, default, fr, node, mode):
        """mode: index (KeyError), get (default), pop."""
        e = self.e
        h = st.obj(o)
        e.emit(st, "read", fr, node, obj=o, how=mode, key=key)
        ks = e.resolve(key, st) if key.k in ("sym", "t") else key
        hits = [x for x in h.items if x[0] == "k" and x[1] == ks]
        if not hits and key != ks:
            hits = [x for x in h.items if x[0] == "k" and x[1] == key]
        spreads_after = False
        out = []
        if hits:
            i = h.items.index(hits[-1])
            later = [x for x in h.items[i + 1:] if x[0] == "s"]
            if not later:
                return [(st, hits[-1][2])]
            return [(st, T("lookup", e.snap(st, o), key))]
        if is_open_any_items(h.items) or (not h.items and h.kind == "inst" and False):
            v = T("item", e.verref(o, st), key)
            sp = [x[1] for x in h.items if x[0] == "s"]
            if len(sp) == 1 and ks.k == "c":
                ent = _entries_lookup(sp[0], ks)
                v = ent if ent is not None else T("item", sp[0], ks)
            if mode == "index":
                if e.may_raise is not None:
                    for ex in e.may_raise("getitem", fr, node) or ():
                        e.raise_(st.fork(), ex, fr, node)
                return [(st, v)]
            if default is not None and h.kind == "dict" and key.k != "c" and not e.joining:
                # an arbitrary key of an arbitrary mapping: present or not
                atom = T("in", e.snap(st, key), e.verref(o, st))
                r = e.fact(atom, st)
                res = []
                if r is not False:
                    s2 = st.fork() if r is None else st
                    s2.facts[atom] = True
                    res.append((s2, v))
                if r is not True:
                    st.facts[atom] = False
                    res.append((st, default))
                return res
            return [(st, T("kwopt", v, default) if default is not None and mode != "index" else v)]
        keys = [x for x in h.items if x[0] == "k"]
        unk = ks.k not in ("c", "cls", "ext", "fn") or any(x[1].k not in ("c", "cls", "ext", "fn") for x in keys)
        if not keys:
            unk = False
        if unk and len(keys) <= 40:
            cur = st
            missing = True
            for x in keys:
                if distinct(ks, x[1]):
                    continue
                eqv = self.e.mk_eq(e.snap(cur, key), e.snap(cur, x[1]))
                r = e.truth(eqv, cur)
                if r is True:
                    out.append((cur, x[2]))
                    missing = False
                    break
                if r is False:
                    continue
                if e.joining:
                    out.append((cur.fork(), x[2]))
                    continue
                s2 = cur.fork()
                s2.facts[eqv] = True
                e.emit(s2, "branch", fr, node, atom=eqv, taken=True)
                out.append((s2, x[2]))
                cur.facts[eqv] = False
            if missing:
                inatom = T("in", e.snap(st, key), e.verref(o, st))
                known_in = st.facts.get(inatom) is True
                if not known_in:
                    if mode == "index":
                        e.raise_b(cur, "KeyError", show(key), fr, node)
                    elif default is not None:
                        out.append((cur, default))
                    elif mode == "pop":
                        e.raise_b(cur, "KeyError", show(key), fr, node)
            return out
        if mode == "get":
            return [(st, default if default is not None else NONE)]
        if default is not None:
            return [(st, default)]
        return e.raise_b(st, "KeyError", show(key), fr, node)

    def dict_method(self, st, o, name, args, kw, fr, node):
        from .engine import dict_put

        e = self.e
        h = st.obj(o)
        if name == "get" and 1 <= len(args) <= 2:
            return self.dict_lookup(st, o, args[0], args[1] if len(args) > 1 else NONE, fr, node, "get")
        if name == "__getitem__" and args:
            return self.dict_lookup(st, o, args[0], None, fr, node, "index")
        if name == "pop" and args:
            e.emit(st, "mut", fr, node, obj=o, name="pop", args=args)
            res = self.dict_lookup(st, o, args[0], args[1] if len(args) > 1 else None, fr, node, "pop")
            out = []
            for s, v in res:
                hh = s.obj(o)
                k = e.resolve(args[0], s)
                s.put(o.a[0], hh.with_items([x for x in hh.items if not (x[0] == "k" and x[1] in (k, args[0]))]))
                out.append((s, v))
            return out
        if name == "popitem":
            last = kw.get("last", args[0] if args else TRUE)
            if not is_open_any_items(h.items) and h.items:
                idx = -1 if e.truth(last, st) else 0
                x = h.items[idx]
                st.put(o.a[0], h.with_items([y for y in h.items if y is not x]))
                r = TUP([x[1], x[2]])
                e.emit(st, "mut", fr, node, obj=o, name="popitem", args=args, kwargs=kw, result=r, last=last)
                return [(st, r)]
            if not h.items:
                return e.raise_b(st, "KeyError", "popitem", fr, node)
            u = C(e.uid(st, node, fr, "pi"))
            st.put(o.a[0], h.with_items(h.items))
            r = TUP([T("popkey", o, last, u), T("popval", o, last, u)])
            e.emit(st, "mut", fr, node, obj=o, name="popitem", args=args, kwargs=kw, result=r, last=last)
            return [(st, r)]
        if name in ("items", "keys", "values"):
            e.emit(st, "read", fr, node, obj=o, how=name)
            if is_open_any_items(h.items):
                return [(st, T("d." + name, e.verref(o, st)))] if True else None
            its = {
                "items": lambda x: TUP([x[1], x[2]]),
                "keys": lambda x: x[1],
                "values": lambda x: x[2],
            }[name]
            return [(st, e.new(st, H("list", None, {"view": o}, tuple(its(x) for x in h.items)), node, fr))]
        if name == "copy":
            return [(st, e.new(st, H("dict", None, {}, h.items), node, fr))]
        if name == "update":
            e.emit(st, "mut", fr, node, obj=o, name="update", args=args, kwargs=kw)
            items = h.items
            for a in args[:1]:
                items = self._upd(st, items, a)
            for k, v in kw.items():
                items = tuple(items) + (("s", v),) if k == "**" else dict_put(items, C(k), v)
            st.put(o.a[0], h.with_items(items))
            return [(st, NONE)]
        if name == "setdefault":
            k = args[0]
            d = args[1] if len(args) > 1 else NONE
            keys = [x for x in h.items if x[0] == "k" and x[1] == k]
            if keys:
                return [(st, keys[-1][2])]
            e.emit(st, "mut", fr, node, obj=o, name="setdefault", args=args)
            if is_open_any_items(h.items):
                v = T("kwopt", T("item", e.snap(st, o), k), d)
                st.put(o.a[0], h.with_items(dict_put(h.items, k, v)))
                return [(st, v)]
            st.put(o.a[0], h.with_items(dict_put(h.items, k, d)))
            return [(st, d)]
        if name == "clear":
            e.emit(st, "mut", fr, node, obj=o, name="clear", args=())
            st.put(o.a[0], h.with_items(()))
            return [(st, NONE)]
        if name == "move_to_end":
            e.emit(st, "mut", fr, node, obj=o, name="move_to_end", args=args, kwargs=kw)
            keys = [x for x in h.items if x[0] == "k" and x[1] == args[0]]
            if keys and len(keys) == 1:
                rest = [x for x in h.items if x is not keys[0]]
                last = kw.get("last", args[1] if len(args) > 1 else TRUE)
                st.put(o.a[0], h.with_items(rest + keys if e.truth(last, st) else keys + rest))
            else:
                st.put(o.a[0], h.with_items(h.items))
            return [(st, NONE)]
        if name == "__setitem__":
            return [(s, NONE) for s in e.setitem(st, o, args[0], args[1], fr, node)]
        if name == "__contains__":
            return e.contains_(args[0], o, st, fr, node)
        return None

    # ------------------------------------------------------------------ lists, sets
    def list_method(self, st, o, name, args, kw, fr, node):
        e = self.e
        h = st.obj(o)
        if name in MUT_LIST:
            e.emit(st, "mut", fr, node, obj=o, name=name, args=args, kwargs=kw)
        if name == "append":
            st.put(o.a[0], h.with_items(h.items + (args[0],)))
            return [(st, NONE)]
        if name == "appendleft":
            st.put(o.a[0], h.with_items((args[0],) + h.items))
            return [(st, NONE)]
        if name == "extend":
            seq = e.concrete_iter(st, args[0])
            items = tuple(seq) if seq is not None else tuple(e.open_items(st, args[0]))
            st.put(o.a[0], h.with_items(h.items + items))
            return [(st, NONE)]
        if name == "insert":
            if is_c(args[0], int) and not is_open_any_items(h.items):
                l = list(h.items)
                l.insert(cval(args[0]), args[1])
                st.put(o.a[0], h.with_items(l))
            else:
                st.put(o.a[0], h.with_items(h.items + (OPEN, args[1])))
            return [(st, NONE)]
        if name in ("pop", "popleft"):
            idx = cval(args[0]) if args and is_c(args[0], int) else (0 if name == "popleft" else -1)
            if args and not is_c(args[0], int):
                idx = None
            items = list(h.items)
            if not items:
                return e.raise_b(st, "IndexError", "pop from empty list", fr, node)
            if idx is not None:
                rng = items[: idx + 1] if idx >= 0 else items[idx:]
                if not any(x.k in ("open", "star") for x in rng) and -len(items) <= idx < len(items):
                    v = items.pop(idx)
                    st.put(o.a[0], h.with_items(items))
                    return [(st, v)]
            st.put(o.a[0], h.with_items(h.items))
            return [(st, T("popped", o, args[0] if args else C(-1), C(e.uid(st, node, fr, "pop"))))]
        if name == "clear":
            st.put(o.a[0], h.with_items(()))
            return [(st, NONE)]
        if name == "remove":
            if args[0] in h.items:
                l = list(h.items)
                l.remove(args[0])
                st.put(o.a[0], h.with_items(l))
            elif not is_open_any_items(h.items) and (not h.items or all(x.k == "c" for x in h.items) and args[0].k == "c"):
                return e.raise_b(st, "ValueError", "list.remove", fr, node)
            else:
                st.put(o.a[0], h.with_items((OPEN,)))
            return [(st, NONE)]
        if name in ("reverse", "sort"):
            if not is_open_any_items(h.items):
                if name == "reverse":
                    st.put(o.a[0], h.with_items(h.items[::-1]))
                    return [(st, NONE)]
                if not kw and all(x.k == "c" for x in h.items):
                    try:
                        st.put(o.a[0], h.with_items(sorted(h.items, key=cval)))
                        return [(st, NONE)]
                    except Exception:
                        pass
            gen = [x.a[0] if x.k == "star" else x for x in h.items if x.k != "open"]
            st.put(o.a[0], h.with_items(tuple(V("star", x) for x in gen) if OPEN not in h.items else (OPEN,) + tuple(gen)))
            return [(st, NONE)]
        if name == "copy":
            return [(st, e.new(st, H("list", None, {}, h.items), node, fr))]
        if name in ("index", "count"):
            if not is_open_any_items(h.items) and all(x.k == "c" for x in h.items) and args[0].k == "c":
                try:
                    return [(st, C(getattr([cval(x) for x in h.items], name)(cval(args[0]))))]
                except Exception as ex:
                    return e.raise_b(st, type(ex).__name__, str(ex), fr, node)
            return [(st, T("." + name, e.snap(st, o), args[0]))]
        return None

    def set_method(self, st, o, name, args, kw, fr, node):
        e = self.e
        h = st.obj(o)
        if name == "add":
            e.emit(st, "mut", fr, node, obj=o, name=name, args=args)
            if args[0] not in h.items:
                st.put(o.a[0], h.with_items(h.items + (args[0],)))
            return [(st, NONE)]
        if name in ("discard", "remove"):
            e.emit(st, "mut", fr, node, obj=o, name=name, args=args)
            st.put(o.a[0], h.with_items([x for x in h.items if x != args[0]]))
            return [(st, NONE)]
        if name == "update":
            e.emit(st, "mut", fr, node, obj=o, name=name, args=args)
            items = list(h.items)
            for a in args:
                seq = e.concrete_iter(st, a)
                for x in seq if seq is not None else e.open_items(st, a):
                    if x not in items:
                        items.append(x)
            st.put(o.a[0], h.with_items(items))
            return [(st, NONE)]
        if name == "copy":
            return [(st, e.new(st, H("set", None, {}, h.items), node, fr))]
        return None

    # ------------------------------------------------------------------ locks
    def lock_method(self, st, o, name, args, kw, fr, node):
        e = self.e
        if name in ("acquire", "__enter__"):
            blocking = kw.get("blocking", args[0] if args else TRUE)
            timeout = kw.get("timeout", args[1] if len(args) > 1 else None)
            if e.truth(blocking, st) is True and (timeout is None or timeout == C(-1)):
                return [(s, TRUE) for s in e.acquire(st, o, fr, node)]
            fail = st.fork()
            e.emit(fail, "acquirefail", fr, node, lock=o)
            return [(s, TRUE) for s in e.acquire(st, o, fr, node)] + [(fail, FALSE)]
        if name in ("release", "__exit__"):
            e.release(st, o, fr, node)
            return [(st, NONE)]
        if name == "locked":
            return [(st, C(True) if o in st.held else T("locked", o, C(e.uid(st, node, fr, "lk"))))]
        if name in ("wait", "wait_for"):
            if name == "wait" or not args:
                e.emit(st, "wait", fr, node, lock=o, args=args, kwargs=kw)
                return self.cond_wait(st, o, fr, node)
            out, todo = [], [(st, 0)]
            while todo:
                s0, k = todo.pop()
                for s1, v in e.call(args[0], [], {}, s0, fr, node):
                    yes, no = e.branch(v, s1, fr, node)
                    out += [(s2, v) for s2 in yes]
                    for s2 in no:
                        if k < 2:
                            e.emit(s2, "wait", fr, node, lock=o, args=args, kwargs=kw)
                            todo += [(s3, k + 1) for s3, _ in self.cond_wait(s2, o, fr, node)]
            return out
        if name in ("notify", "notify_all", "set", "notifyAll"):
            e.emit(st, "notify", fr, node, lock=o, name=name)
            return [(st, NONE)]
        return self.generic("." + name, T("attr", o, C(name)), args, kw, st, fr, node, recv=o)

    def cond_wait(self, st, o, fr, node):
        e = self.e
        if e.joining:
            return [(st, NONE)]
        if st.thread != "main":
            fr.ctl.raises.append((st, EXC(EXT("!blocked"))))
            return []
        if e.serve and st.threads:
            out = []
            states = [st]
            for th in st.threads:
                nxt = []
                for s in states:
                    nxt += self.run_thread(s, th, fr, node)
                states = nxt
            return [(s, NONE) for s in states]
        self.havoc_owner(st, o)
        return [(st, TRUE)]

    def run_thread(self, st, th, fr, node):
        """Let a started thread run until it blocks."""
        e = self.e
        held, st.held = st.held, ()
        st.thread = "thread:" + str(th.a[0])
        e.emit(st, "switch", fr, node, to=th, waiting=held)
        run = e.class_attr(st.obj(th).cls, "run", st)
        from .engine import Ctl, Frame

        tfr = Frame(None, fr.env, fr.module, parent=None)
        res = []
        depth_keep = e.in_request
        e.in_request = 0
        try:
            r = e.call_fn(e.bind(run, th, st.obj(th).cls, st), [], {}, st, tfr, node) if run is not None and run.k == "fn" else []
        finally:
            e.in_request = depth_keep
        for s, _ in r:
            e.emit(s, "threadexit", fr, node, obj=th, how="return")
            res.append(s)
        for s, x in tfr.ctl.raises:
            if not (x.k == "exc" and x.a[0] == EXT("!blocked")):
                e.emit(s, "threadexit", fr, node, obj=th, how="raise", exc=x)
            res.append(s)
        for s in res:
            s.thread = "main"
            s.held = held
        return e.merge(res)

    def havoc_owner(self, st, o):
        """Another thread may change the fields guarded by a condition while it is waited on."""
        for oid in list(st.heap):
            h = st.heap[oid]
            if h.kind == "inst" and any(v == o for v in h.f.values()):
                for k, v in list(h.f.items()):
                    if v.k in ("c", "t", "sym", "exc", "ch") and v != o:
                        h = h.with_f(k, T("shared", REF(oid), C(k), C(h.ver)))
                st.heap[oid] = H(h.kind, h.cls, h.f, h.items, h.ver + 1)

    # ------------------------------------------------------------------ hashes
    def hash_method(self, st, o, name, args, kw, fr, node):
        h = st.obj(o)
        e = self.e
        if name == "update":
            st.put(o.a[0], h.with_items(h.items + tuple(e.snap(st, a) for a in args)))
            return [(st, NONE)]
        if name in ("hexdigest", "digest"):
            return [(st, T("digest", h.f["algo"], *[e.snap(st, x) for x in h.items]))]
        if name == "copy":
            return [(st, e.new(st, H("hash", None, h.f, h.items), st and node, fr))]
        return self.generic("." + name, o, args, kw, st, fr, node, recv=o)

    def _hash(self, algo, st, args, fr, node):
        return [(st, self.e.new(st, H("hash", None, {"algo": C(algo)}, tuple(self.e.snap(st, a) for a in args)), node, fr))]

    def x_hashlib_sha256(self, st, args, kw, fr, node):
        return self._hash("sha256", st, args, fr, node)

    def x_hashlib_md5(self, st, args, kw, fr, node):
        return self._hash("md5", st, args, fr, node)

    def x_hashlib_sha1(self, st, args, kw, fr, node):
        return self._hash("sha1", st, args, fr, node)

    def x_hashlib_sha512(self, st, args, kw, fr, node):
        return self._hash("sha512", st, args, fr, node)

    def x_hashlib_new(self, st, args, kw, fr, node):
        return self._hash(cval(args[0]) if args and args[0].k == "c" else "?", st, args[1:], fr, node)

    # ------------------------------------------------------------------ threading
    def _lock(self, kind, st, fr, node, extra=None):
        return [(st, self.e.new(st, H("lock", None, {"kind": C(kind)}), node, fr))]

    def x_threading_Lock(self, st, args, kw, fr, node):
        return self._lock("Lock", st, fr, node)

    def x_threading_RLock(self, st, args, kw, fr, node):
        return self._lock("RLock", st, fr, node)

    def x_threading_Condition(self, st, args, kw, fr, node):
        lk = args[0] if args else kw.get("lock")
        if lk is not None and st.obj(lk) is not None and st.obj(lk).kind == "lock":
            return [(st, lk)]
        return self._lock("Condition", st, fr, node)

    def x_threading_Event(self, st, args, kw, fr, node):
        return self._lock("Event", st, fr, node)

    # ------------------------------------------------------------------ builtins
    def x_builtins_dict(self, st, args, kw, fr, node):
        r = self.e.new(st, H("dict"), node, fr)
        return self.dict_init(st, r, args, kw, fr, node)

    x_collections_OrderedDict = x_builtins_dict

    def x_collections_defaultdict(self, st, args, kw, fr, node):
        r = self.e.new(st, H("dict", None, {}, (("s", SYM("defaultdict")),)), node, fr)
        return [(st, r)]

    def _mkseq(self, kind, st, args, fr, node):
        e = self.e
        if not args:
            return [(st, e.new(st, H(kind), node, fr) if kind != "tuple" else TUP(()))]
        seq = e.concrete_iter(st, args[0])
        if seq is not None:
            if kind == "set":
                seq = list(dict.fromkeys(seq))
            if kind == "tuple":
                return [(st, TUP(seq))]
            return [(st, e.new(st, H(kind, None, {}, tuple(seq)), node, fr))]
        h = st.obj(args[0])
        if h is not None and h.kind in ("list", "set"):
            return [(st, e.new(st, H("list" if kind != "set" else "set", None, {}, h.items), node, fr))]
        a = args[0]
        if kind == "tuple" and a.k in ("sym", "t"):
            return [(st, T("tuple", a))]
        el = e.elem_of(a, "*", st, fr, node)
        return [(st, e.new(st, H("list" if kind != "set" else "set", None, {"src": a}, (V("star", el),)), node, fr))]

    def x_builtins_list(self, st, args, kw, fr, node):
        return self._mkseq("list", st, args, fr, node)

    def x_collections_deque(self, st, args, kw, fr, node):
        return self._mkseq("list", st, args, fr, node)

    def x_builtins_set(self, st, args, kw, fr, node):
        return self._mkseq("set", st, args, fr, node)

    x_builtins_frozenset = x_builtins_set

    def x_builtins_tuple(self, st, args, kw, fr, node):
        return self._mkseq("tuple", st, args, fr, node)

    def x_builtins_iter(self, st, args, kw, fr, node):
        return [(st, args[0])]

    def x_builtins_next(self, st, args, kw, fr, node):
        e = self.e
        seq = e.concrete_iter(st, args[0])
        if seq is not None:
            if seq:
                return [(st, seq[0])]
            if len(args) > 1:
                return [(st, args[1])]
            return e.raise_b(st, "StopIteration", "", fr, node)
        h = st.obj(args[0])
        first = self.first_of(st, args[0])
        if first is not None:
            e.emit(st, "read", fr, node, obj=args[0], how="first")
            out = [(st.fork(), args[1])] if len(args) > 1 else []
            return out + [(st, first)]
        out = []
        if len(args) > 1:
            out.append((st.fork(), args[1]))
        if h is not None and h.kind == "list":
            gen = [x.a[0] if x.k == "star" else x for x in h.items if x.k != "open"]
            if gen:
                out.append((st, CH(gen)))
                return out
        out.append((st, T("elem", args[0], C(e.uid(st, node, fr, "next")))))
        return out

    def first_of(self, st, it):
        """The first element an iteration yields, where its identity matters."""
        e = self.e
        h = st.obj(it)
        if h is not None and (h.kind == "dict" or (h.kind == "inst" and h.cls is not None and "builtins.dict" in h.cls.ext_bases())):
            return T("firstkey", e.verref(it, st))
        if it.k == "t" and it.a[0] in ("d.items", "d.keys", "d.values"):
            k = T("firstkey", it.a[1])
            return {"d.keys": k, "d.values": T("item", it.a[1], k), "d.items": TUP([k, T("item", it.a[1], k)])}[it.a[0]]
        if it.k == "t" and it.a[0] == "sortedby":
            return sorted_at(it, 0)
        if it.k == "t" and it.a[0] in ("list", "iter", "tuple") and len(it.a) == 2 and isinstance(it.a[1], V) and it.a[1].k == "t":
            return self.first_of(st, it.a[1])
        return None

    def keyed(self, st, it, key, fr, node):
        """list(star(tup(key(x), x))) for a generic element x of `it`; None if undecided."""
        e = self.e
        el = e.elem_of(it, e.uid(st, node, fr, "key"), st, fr, node)
        if el.k == "ch":
            return None
        if key is None or key == NONE:
            return T("list", V("star", e.snap(st, el))), False
        res = e.call(key, [el], {}, st.fork(), fr, node)
        if len(res) != 1:
            return None
        return T("list", V("star", TUP([e.snap(st, res[0][1]), e.snap(st, el)]))), True

    def x_builtins_object(self, st, args, kw, fr, node):
        return [(st, self.e.new(st, H("inst", None), node, fr, "object"))]

    def x_builtins_sorted(self, st, args, kw, fr, node):
        e = self.e
        seq = e.concrete_iter(st, args[0])
        if seq is not None:
            if all(x.k == "c" for x in seq) and not (set(kw) - {"reverse"}):
                try:
                    return [(st, e.new(st, H("list", None, {}, tuple(sorted(seq, key=cval, reverse=bool(kw.get("reverse", FALSE).a[1])))), node, fr))]
                except Exception:
                    pass
            if all(x.k == "tup" and x.a and x.a[0].k == "c" for x in seq) and not kw:
                try:
                    return [(st, e.new(st, H("list", None, {}, tuple(sorted(seq, key=lambda x: cval(x.a[0])))), node, fr))]
                except Exception:
                    pass
            if len(seq) <= 1:
                return [(st, e.new(st, H("list", None, {}, tuple(seq)), node, fr))]
        kd = self.keyed(st, args[0], kw.get("key"), fr, node) if seq is None and not (set(kw) - {"key", "reverse"}) else None
        if kd is not None and (kw or kd[0].a[1].a[0].k == "tup"):
            t = T("sortedby", kd[0], C(kd[1]), kw.get("reverse", FALSE))
            e.emit(st, "call", fr, node, name="builtins.sorted", f=EXT("builtins.sorted"), recv=None, args=list(args), kwargs=dict(kw), result=t)
            return [(st, t)]
        t = T("sorted", e.snap(st, args[0]), *[V("kw", k, v) for k, v in sorted(kw.items())])
        e.emit(st, "call", fr, node, name="builtins.sorted", f=EXT("builtins.sorted"), recv=None, args=list(args), kwargs=dict(kw), result=t)
        if kw:
            return [(st, T("sorted", args[0]))] if not kw else [(st, T("sortedby", args[0], *[V("kw", k, v) for k, v in sorted(kw.items())]))]
        return [(st, T("sorted", args[0]))]

    def x_builtins_enumerate(self, st, args, kw, fr, node):
        e = self.e
        seq = e.concrete_iter(st, args[0])
        start = kw.get("start", args[1] if len(args) > 1 else C(0))
        if seq is not None and is_c(start, int):
            return [(st, e.new(st, H("list", None, {}, tuple(TUP([C(i + cval(start)), x]) for i, x in enumerate(seq))), node, fr))]
        return [(st, T("enumerate", args[0]))]

    def x_builtins_zip(self, st, args, kw, fr, node):
        e = self.e
        seqs = [e.concrete_iter(st, a) for a in args]
        if all(s is not None for s in seqs):
            return [(st, e.new(st, H("list", None, {}, tuple(TUP(x) for x in zip(*seqs))), node, fr))]
        return [(st, T("zip", *args))]

    def x_builtins_map(self, st, args, kw, fr, node):
        e = self.e
        if len(args) != 2:
            return None
        seq = e.concrete_iter(st, args[1])
        if seq is not None:
            cur = [(st, [])]
            for x in seq:
                nxt = []
                for s, acc in cur:
                    for s2, v in e.call(args[0], [x], {}, s, fr, node):
                        nxt.append((s2, acc + [v]))
                cur = nxt
            return [(s, e.new(s, H("list", None, {}, tuple(acc)), node, fr)) for s, acc in cur]
        el = e.elem_of(args[1], e.uid(st, node, fr, "map"), st, fr, node)
        out = []
        for s, v in e.call(args[0], [el], {}, st, fr, node):
            out.append((s, e.new(s, H("list", None, {}, (V("star", v),)), node, fr)))
        return out

    def x_builtins_any(self, st, args, kw, fr, node):
        return self._anyall(st, args, "or")

    def x_builtins_all(self, st, args, kw, fr, node):
        return self._anyall(st, args, "and")

    def _anyall(self, st, args, op):
        e = self.e
        seq = e.concrete_iter(st, args[0])
        if seq is None:
            h = st.obj(args[0])
            if h is not None and h.kind == "list":
                return [(st, T("any" if op == "or" else "all", e.snap(st, args[0])))]
            return [(st, T("any" if op == "or" else "all", args[0]))]
        rest = []
        for x in seq:
            r = e.truth(x, st)
            if r is True and op == "or":
                return [(st, TRUE)]
            if r is False and op == "and":
                return [(st, FALSE)]
            if r is None:
                rest.append(x)
        if not rest:
            return [(st, C(op == "and"))]
        return [(st, T(op, *rest) if len(rest) > 1 else (rest[0] if rest[0].k == "t" and rest[0].a[0] in ("eq", "is", "in", "lt", "not", "isinstance", "and", "or") else T("bool", rest[0])))]

    def x_builtins_bool(self, st, args, kw, fr, node):
        if not args:
            return [(st, FALSE)]
        e = self.e
        out = []
        h = st.obj(args[0])
        if h is not None and h.kind == "inst":
            t, f = e.branch(args[0], st, fr, node)
            return [(s, TRUE) for s in t] + [(s, FALSE) for s in f]
        r = e.truth(args[0], st)
        if r is not None:
            return [(st, C(r))]
        v = args[0]
        if v.k == "t" and v.a[0] in ("eq", "is", "in", "lt", "not", "isinstance", "and", "or", "bool"):
            return [(st, v)]
        return [(st, T("bool", e.snap(st, v)))]

    def x_builtins_staticmethod(self, st, args, kw, fr, node):
        return [(st, V("smeth", args[0]))] if len(args) == 1 else None

    def x_builtins_classmethod(self, st, args, kw, fr, node):
        return [(st, V("cmeth", args[0]))] if len(args) == 1 else None

    def x_builtins_property(self, st, args, kw, fr, node):
        get = args[0] if args else kw.get("fget")
        put = args[1] if len(args) > 1 else kw.get("fset")
        return [(st, V("prop", get, put))] if get is not None else None

    def x_contextlib_contextmanager(self, st, args, kw, fr, node):
        return [(st, V("cmfn", args[0]))] if len(args) == 1 and args[0].k == "fn" else None

    def x_builtins_super(self, st, args, kw, fr, node):
        if len(args) == 2 and args[0].k == "cls":
            return [(st, V("super", args[0].a[0], args[1]))]
        return None

    def x_builtins_len(self, st, args, kw, fr, node):
        e = self.e
        v = args[0]
        if v.k == "tup":
            return [(st, C(len(v.a)))]
        if v.k == "c" and isinstance(cval(v), (str, bytes)):
            return [(st, C(len(cval(v))))]
        h = st.obj(v)
        if h is not None:
            if h.kind in ("list", "set", "dict") or (h.kind == "inst" and h.cls is not None and "builtins.dict" in h.cls.ext_bases()):
                e.emit(st, "read", fr, node, obj=v, how="len")
                if not is_open_any_items(h.items):
                    return [(st, C(len(h.items)))]
                return [(st, T("builtins.len", e.verref(v, st)))]
            if h.kind == "inst":
                m = e.class_attr(h.cls, "__len__", st)
                if m is not None and m.k == "fn":
                    return e.call(e.bind(m, v, h.cls, st), [], {}, st, fr, node)
        return [(st, T("builtins.len", e.snap(st, v)))]

    def x_builtins_str(self, st, args, kw, fr, node):
        e = self.e
        if not args:
            return [(st, C(""))]
        if args[0].k == "c":
            return [(st, C(str(cval(args[0]))))]
        return [(st, T("str", e.snap(st, args[0])))]

    def x_builtins_callable(self, st, args, kw, fr, node):
        v = args[0]
        if v.k in ("fn", "cls", "part", "ext", "memo", "cmfn"):
            return [(st, TRUE)]
        if v.k in ("c", "tup"):
            return [(st, FALSE)]
        h = st.obj(v)
        if h is not None:
            return [(st, C(h.kind == "inst" and self.e.class_attr(h.cls, "__call__", st) is not None))]
        if v.k == "sym" and v.a[1] == "fn":
            return [(st, TRUE)]
        if self.e.truth(self.e.cmp_is(v, NONE), st) is True:
            return [(st, FALSE)]
        r = st.facts.get(T("truthy", T("callable", v)))
        return [(st, T("callable", v) if r is None else C(r))]

    def x_builtins_isinstance(self, st, args, kw, fr, node):
        return self.isinstance_(st, args[0], args[1])

    def isinstance_(self, st, v, cls):
        e = self.e
        if cls.k == "tup":
            alts = list(cls.a)
        elif cls.k == "t" and cls.a[0] == "bin:BitOr":
            alts = [cls.a[1], cls.a[2]]
        else:
            alts = [cls]
        rs = [self._isinst(st, v, c) for c in alts]
        if True in rs:
            return [(st, TRUE)]
        if all(r is False for r in rs):
            return [(st, FALSE)]
        atoms = [T("isinstance", v, c) for c, r in zip(alts, rs) if r is None]
        t = atoms[0] if len(atoms) == 1 else T("or", *atoms)
        r = e.truth(t, st)
        return [(st, t if r is None else C(r))]

    def _isinst(self, st, v, c):
        e = self.e
        if v.k == "ch":
            rs = {self._isinst(st, x, c) for x in v.a}
            return rs.pop() if len(rs) == 1 else None
        h = st.obj(v)
        name = c.a[0] if c.k == "ext" else None
        if h is not None:
            if h.kind == "inst":
                if c.k == "cls":
                    return h.cls is not None and h.cls.is_sub(c.a[0])
                if name:
                    return h.cls is not None and (name in h.cls.ext_bases() or name == "builtins.object") or (name == "collections.abc.Mapping" and "builtins.dict" in h.cls.ext_bases())
            kinds = {"list": ("builtins.list", "collections.abc.Sequence", "collections.abc.Iterable"), "dict": ("builtins.dict", "collections.abc.Mapping", "collections.OrderedDict"), "set": ("builtins.set", "builtins.frozenset")}
            if h.kind in kinds and name:
                return name in kinds[h.kind]
            return False if c.k in ("ext", "cls") else None
        if v.k == "c" and name:
            if name.startswith("builtins."):
                t = getattr(_pyb, name[9:], None)
                return isinstance(cval(v), t) if isinstance(t, type) else None
            if name in ("numbers.Number",):
                return isinstance(cval(v), (int, float))
            return False
        if v.k == "c":
            return False
        if v.k == "tup" and name:
            return name in ("builtins.tuple", "builtins.object", "collections.abc.Sequence", "collections.abc.Iterable")
        if v.k == "exc":
            r = e.exc_match(v, c)
            return r
        if v.k in ("fn", "cls", "mod"):
            return False if name not in ("builtins.object", "builtins.type", "collections.abc.Callable") else None
        if v.k == "sym":
            hint = v.a[1]
            if isinstance(hint, str) and "." in hint and name:
                return name == hint or name == "builtins.object"
            if hint == "str" and name:
                return name == "builtins.str"
            if hint in ("fn", "obj", "array", "grid") and name and name.startswith("builtins."):
                return {"grid": "dict"}.get(hint) == name[9:]
        if v.k == "t" and v.a[0] in ("str", "fstr", "os.path.join", "os.path.expanduser", "os.path.abspath", "os.path.realpath", "os.path.basename", "os.path.dirname", "builtins.str", "digest", "fmt") and name:
            return name == "builtins.str"
        if v.k == "t" and v.a[0] == "item" and v.a[1] == EXT("os.environ") and name:
            return name == "builtins.str"
        if st.facts.get(T("is", v, NONE)) is True and name:
            return name == "builtins.object"
        return None

    def x_builtins_issubclass(self, st, args, kw, fr, node):
        if args[0].k == "cls" and args[1].k == "cls":
            return [(st, C(args[0].a[0].is_sub(args[1].a[0])))]
        return None

    def x_builtins_type(self, st, args, kw, fr, node):
        h = st.obj(args[0])
        if h is not None and h.kind == "inst" and h.cls is not None:
            return [(st, CLS(h.cls))]
        if args[0].k == "c":
            return [(st, EXT("builtins." + args[0].a[0]))]
        if h is not None and h.kind in ("list", "dict", "set"):
            return [(st, EXT("builtins." + h.kind))]
        if args[0].k == "tup":
            return [(st, EXT("builtins.tuple"))]
        if args[0].k == "exc":
            return [(st, args[0].a[0])]
        if args[0].k in ("t", "sym") and self._isinst(st, args[0], EXT("builtins.str")):
            return [(st, EXT("builtins.str"))]
        return [(st, T("type", args[0]))]

    def x_builtins_getattr(self, st, args, kw, fr, node):
        e = self.e
        o, n = args[0], args[1]
        n = e.resolve(n, st)
        if is_c(n, str):
            if len(args) > 2:
                r = self.has(st, o, cval(n))
                if r is False:
                    return [(st, args[2])]
                if r is None:
                    s2 = st.fork()
                    return [(s2, args[2])] + self._getattrs(st, o, cval(n), fr, node)
            return self._getattrs(st, o, cval(n), fr, node)
        if n.k == "ch" and all(is_c(x, str) for x in n.a):
            out = []
            for s, w in e.split(n, st):
                out += self._getattrs(s, o, cval(w), fr, node)
            return out
        t = T("getattr", o, n)
        e.emit(st, "call", fr, node, name="builtins.getattr", f=EXT("builtins.getattr"), recv=None, args=list(args), kwargs={}, result=t)
        return [(st, t)]

    def _getattrs(self, st, o, n, fr, node):
        out = []
        for s, w in self.e.split(o, st):
            out += self.e.getattr_(s, w, n, fr, node)
        return out

    def has(self, st, o, n):
        e = self.e
        if o.k == "ch":
            rs = {self.has(st, x, n) for x in o.a}
            return rs.pop() if len(rs) == 1 else None
        h = st.obj(o)
        if h is not None and h.kind == "inst":
            if n in h.f or e.class_attr(h.cls, n, st) is not None:
                return True
            return None if h.cls is None or h.cls.ext_bases() or e.class_attr(h.cls, "__getattr__", st) is not None else False
        if o.k == "cls":
            if e.class_attr(o.a[0], n, st) is not None:
                return True
            return None if o.a[0].ext_bases() else False
        if o.k == "mod":
            hh = st.get(e.modules.get(o.a[0]))
            return bool(hh is not None and n in hh.f or (o.a[0] + "." + n) in e.trees)
        if o.k == "c":
            return hasattr(cval(o), n)
        if o.k == "fn":
            return n in ("__name__", "__call__", "__qualname__", "__doc__")
        if h is not None and h.kind in ("list", "dict", "set"):
            return hasattr({"list": list, "dict": dict, "set": set}[h.kind], n)
        if o.k == "sym" and len(o.a) > 1 and o.a[1] in ("str", "bytes", "int", "float", "bool"):
            return hasattr({"str": str, "bytes": bytes, "int": int, "float": float, "bool": bool}[o.a[1]], n)
        return None

    def x_builtins_hasattr(self, st, args, kw, fr, node):
        if is_c(args[1], str):
            m = self.e.models.get("hasattr")
            if m is not None:
                r = m(self.e, st, args[0], cval(args[1]))
                if r is not None:
                    return [(st, C(r))]
            r = self.has(st, args[0], cval(args[1]))
            if r is not None:
                return [(st, C(r))]
        t = T("hasattr", args[0], args[1])
        r = st.facts.get(T("truthy", t))
        return [(st, t if r is None else C(r))]

    def x_builtins_setattr(self, st, args, kw, fr, node):
        e = self.e
        n = e.resolve(args[1], st)
        if is_c(n, str):
            out = []
            for s, o in e.split(args[0], st):
                out += [(x, NONE) for x in e.setattr_(s, o, cval(n), args[2], fr, node)]
            return out
        e.emit(st, "setattr", fr, node, obj=args[0], name=n, value=args[2])
        return [(st, NONE)]

    def x_builtins_min(self, st, args, kw, fr, node):
        return self._minmax("builtins.min", min, st, args, kw, fr, node)

    def x_builtins_max(self, st, args, kw, fr, node):
        return self._minmax("builtins.max", max, st, args, kw, fr, node)

    def _minmax(self, name, f, st, args, kw, fr, node):
        e = self.e
        vals = args
        if len(args) == 1:
            vals = e.concrete_iter(st, args[0])
        if vals and all(x.k == "c" for x in vals) and not kw:
            try:
                return [(st, C(f(cval(x) for x in vals)))]
            except Exception as ex:
                return e.raise_b(st, type(ex).__name__, str(ex), fr, node)
        if len(args) == 1 and vals is None and not (set(kw) - {"key"}):
            kd = self.keyed(st, args[0], kw.get("key"), fr, node)
            if kd is not None:
                t = T(name, kd[0])
                if kd[1]:
                    t = T("item", t, C(1))
                e.emit(st, "call", fr, node, name=name, f=EXT(name), recv=None, args=list(args), kwargs=dict(kw), result=t)
                return [(st, t)]
        snaps = [e.snap(st, a) for a in args]
        t = T(name, *(snaps + [V("kw", k, v) for k, v in sorted(kw.items())]))
        e.emit(st, "call", fr, node, name=name, f=EXT(name), recv=None, args=list(args), kwargs=dict(kw), result=t)
        return [(st, t)]

    def x_builtins_sum(self, st, args, kw, fr, node):
        e = self.e
        seq = e.concrete_iter(st, args[0])
        if seq is not None and all(x.k == "c" for x in seq):
            try:
                return [(st, C(sum(cval(x) for x in seq)))]
            except Exception:
                pass
        if seq is not None:
            states = [(st, args[1] if len(args) > 1 else kw.get("start", C(0)))]
            for x in seq:
                states = [r for s, acc in states for r in e.binop("Add", acc, x, s, fr, node)]
            return states
        return [(st, T("builtins.sum", e.snap(st, args[0])))]

    def x_functools_wraps(self, st, args, kw, fr, node):
        return [(st, V("wraps", *args))]

    def x_functools_partial(self, st, args, kw, fr, node):
        return [(st, V("part", args[0], tuple(args[1:]), tuple(sorted(kw.items()))))]

    def x_functools_reduce(self, st, args, kw, fr, node):
        return None

    def x_collections_namedtuple(self, st, args, kw, fr, node):
        e = self.e
        seq = e.concrete_iter(st, args[1])
        if seq is not None and is_c(args[1], str):
            names = cval(args[1]).replace(",", " ").split()
        elif seq is not None:
            names = [cval(x) for x in seq]
        else:
            return None
        return [(st, V("ntc", cval(args[0]), tuple(names)))]

    def x_copy_deepcopy(self, st, args, kw, fr, node):
        memo = {}
        e = self.e
        e.emit(st, "copy", fr, node, obj=args[0], deep=True)
        return [(st, self._deep(st, args[0], memo, fr, node))]

    def _deep(self, st, v, memo, fr, node):
        e = self.e
        if v.k == "ref":
            if v in memo:
                return memo[v]
            h = st.obj(v)
            if h is None or h.kind in ("lock", "cls", "env"):
                return v
            r = e.new(st, H(h.kind, h.cls, {}, ()), node, fr, "dc")
            memo[v] = r
            f = {k: self._deep(st, x, memo, fr, node) for k, x in h.f.items()}
            if h.kind in ("list", "set"):
                items = tuple(self._deep(st, x, memo, fr, node) if x.k not in ("open", "star") else x for x in h.items)
            elif h.kind == "hash":
                items = h.items
            else:
                items = tuple(("k", x[1], self._deep(st, x[2], memo, fr, node)) if x[0] == "k" else x for x in h.items)
            st.put(r.a[0], H(h.kind, h.cls, f, items))
            return r
        if v.k == "tup":
            return TUP([self._deep(st, x, memo, fr, node) for x in v.a])
        if v.k == "ch":
            return V("ch", *[self._deep(st, x, memo, fr, node) for x in v.a])
        if v.k in ("sym", "t"):
            return T("copy", v, C(e.uid(st, node, fr, "dcp")))
        return v

    def x_copy_copy(self, st, args, kw, fr, node):
        h = st.obj(args[0])
        if h is not None and h.kind not in ("lock", "cls", "env"):
            return [(st, self.e.new(st, H(h.kind, h.cls, h.f, h.items), node, fr, "cp"))]
        if args[0].k in ("sym", "t"):
            return [(st, T("copy", args[0], C(self.e.uid(st, node, fr, "cp"))))]
        return [(st, args[0])]

    # ------------------------------------------------------------------ imports, static paths
    def x_importlib_import_module(self, st, args, kw, fr, node):
        e = self.e
        n = e.resolve(args[0], st)
        if not is_c(n, str):
            return None
        name = cval(n)
        pk = kw.get("package", args[1] if len(args) > 1 else None)
        if name.startswith(".") and pk is not None and is_c(pk, str):
            lvl = len(name) - len(name.lstrip("."))
            base = cval(pk)
            for _ in range(lvl - 1):
                base = base.rpartition(".")[0]
            name = base + "." + name.lstrip(".")
        if name in e.trees:
            st, m = e.import_module(name, st)
            return [(st, m)]
        if name.startswith(e.pkg + "."):
            return e.raise_b(st, "ImportError", name, fr, node)
        e.emit(st, "call", fr, node, name="importlib.import_module", f=EXT("importlib.import_module"), recv=None, args=list(args), kwargs=dict(kw), result=EXT(name))
        return [(st, EXT(name))]

    def _static_path(self, a):
        return is_c(a, str) and cval(a).startswith(self.e.root + os.sep)

    def x_os_listdir(self, st, args, kw, fr, node):
        if args and self._static_path(args[0]) and os.path.isdir(cval(args[0])):
            names = sorted(n for n in os.listdir(cval(args[0])) if n != "__pycache__" and not n.endswith(".pyc"))
            return [(st, self.e.new(st, H("list", None, {}, tuple(C(n) for n in names)), node, fr))]
        return None

    def env_lookup(self, st, key, default, fr, node):
        """os.environ[key] / os.environ.get(key, default): set or not."""
        e = self.e
        atom = T("in", e.snap(st, key), EXT("os.environ"))
        r = e.truth(atom, st)
        out = []
        if r is not False:
            s2 = st.fork() if r is None else st
            s2.facts[atom] = True
            out.append((s2, T("item", EXT("os.environ"), key)))
        if r is not True:
            s2 = st
            s2.facts[atom] = False
            if default is None:
                out += e.raise_b(s2, "KeyError", "environment", fr, node)
            else:
                out.append((s2, default))
        return out

    def x_os_getenv(self, st, args, kw, fr, node):
        if not args or kw.keys() - {"default"}:
            return None
        return self.env_lookup(st, args[0], args[1] if len(args) > 1 else kw.get("default", NONE), fr, node)

    def x_os_environ_get(self, st, args, kw, fr, node):
        return self.x_os_getenv(st, args, kw, fr, node)

    def x_os_path_isdir(self, st, args, kw, fr, node):
        if args and self._static_path(args[0]):
            return [(st, C(os.path.isdir(cval(args[0]))))]
        return None

    def x_os_path_splitext(self, st, args, kw, fr, node):
        if is_c(args[0], str):
            return [(st, TUP([C(x) for x in os.path.splitext(cval(args[0]))]))]
        return [(st, TUP([T("splitext0", args[0]), T("splitext1", args[0])]))]

    def x_os_path_split(self, st, args, kw, fr, node):
        if is_c(args[0], str):
            return [(st, TUP([C(x) for x in os.path.split(cval(args[0]))]))]
        return [(st, TUP([T("os.path.dirname", args[0]), T("os.path.basename", args[0])]))]

    def x_os_path_expanduser(self, st, args, kw, fr, node):
        if args[0] == NONE:
            return self.e.raise_b(st, "TypeError", "expanduser(None)", fr, node)
        return [(st, T("os.path.expanduser", args[0]))]

    def x_os_path_join(self, st, args, kw, fr, node):
        e = self.e
        if any(a == NONE for a in args):
            return e.raise_b(st, "TypeError", "os.path.join(None)", fr, node)
        if all(is_c(a, str) for a in args):
            return [(st, C(os.path.join(*[cval(a) for a in args])))]
        flat = []
        for a in args:
            if a.k == "t" and a.a[0] == "os.path.join" and not flat:
                flat += a.a[1:]
            else:
                flat.append(a)
        return [(st, T("os.path.join", *[e.snap(st, a) for a in flat]))]


FOLD = {
    "os.path.dirname": os.path.dirname,
    "os.path.basename": os.path.basename,
    "builtins.int": int,
    "builtins.float": float,
    "builtins.abs": abs,
    "builtins.round": round,
    "builtins.ord": ord,
    "builtins.chr": chr,
    "builtins.repr": repr,
    "builtins.pow": pow,
    "math.floor": __import__("math").floor,
    "math.ceil": __import__("math").ceil,
    "struct.calcsize": __import__("struct").calcsize,
    "os.fspath": os.fspath,
}


def sorted_at(t, i):
    """Element 0 / -1 of a sortedby term, as an argmin/argmax."""
    lst, proj, rev = t.a[1], t.a[2], t.a[3]
    if rev.k != "c":
        return None
    big = (i == -1) != bool(rev.a[1])
    m = T("builtins.max" if big else "builtins.min", lst)
    return T("item", m, C(1)) if proj.a[1] else m


def is_open_any_items(items):
    for x in items:
        if isinstance(x, tuple):
            if x[0] == "s":
                return True
        elif x.k in ("open", "star"):
            return True
    return False


def _entries_lookup(t, key):
    return None


def matched(how, pat, text):
    """A pattern tried on a text that is known."""
    return T("matched", C(how), C(pat), C(text)) if getattr(re, how)(pat, text) else NONE
