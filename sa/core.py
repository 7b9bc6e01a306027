"""Reports, known findings and evidence: the part of the machinery shared by all properties."""

import json
import os
import time

from .engine import AnalysisError, Engine  # noqa
from .values import *  # noqa
from .values import V

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SA_REPO", "/repo")
FINDINGS = os.path.join(VERIF, "known_findings.txt")
EVIDENCE = os.environ.get("SA_EVIDENCE", os.path.join(VERIF, "evidence"))


ASSUMPTIONS = [
    "The models in sa/models.py describe the Python, numpy, scipy, sqlite3, threading and os calls the code makes.",
    "Loops are taken zero times and once over an arbitrary element unless their contents are known.",
    "Only paths through the entry points named by the rules are interpreted; code outside the package may call those in any order.",
]


class Report:
    """Collects the obligations of one property and their outcome."""

    def __init__(self, prop, tier="quick"):
        self.prop = prop
        self.tier = tier
        self.obligations = {}  # (rule, subject) -> ok
        self.violations = []  # dicts
        self.rules = {}
        self.seen = set()
        self.paths = 0
        self.events = 0
        self.engines = []
        self.t0 = time.time()

    # engines ---------------------------------------------------------------
    def engine(self):
        e = Engine(REPO)
        e.load_all()
        self.engines.append(e)
        return e

    def count(self, outs):
        self.paths += len(outs)
        self.events += sum(len(o.events) for o in outs)
        return outs

    # obligations -----------------------------------------------------------
    def rule(self, rid, text):
        self.rules[rid] = text

    def ob(self, rule, subject, ok, why="", site=None, trace=None):
        """One obligation: `rule` must hold for `subject`."""
        k = (rule, subject)
        self.obligations[k] = self.obligations.get(k, True) and bool(ok)
        if not ok and k not in self.seen:
            self.seen.add(k)
            self.violations.append(
                {
                    "property": self.prop,
                    "rule": rule,
                    "rule_text": self.rules.get(rule, ""),
                    "subject": subject,
                    "why": why,
                    "site": site,
                    "trace": [str(x)[:400] for x in (trace or ())][:60],
                }
            )
        return ok

    def gone(self, what):
        raise AnalysisError("%s: %s" % (self.prop, what))

    def need(self, cond, what):
        if not cond:
            self.gone(what)

    # results ---------------------------------------------------------------
    def coverage(self):
        rules = {}
        for (r, s), ok in self.obligations.items():
            d = rules.setdefault(r, {"text": self.rules.get(r, ""), "obligations": 0, "violated": 0})
            d["obligations"] += 1
            d["violated"] += 0 if ok else 1
        fn, cs, un, st = set(), set(), set(), 0
        for e in self.engines:
            fn |= e.stats_funcs
            cs |= e.stats_sites
            un |= {"%s@%s" % x for x in e.unsupported}
            st += e.stats_states
        return rules, sorted(fn), cs, sorted(un), st


def load_findings():
    out = []
    try:
        with open(FINDINGS) as f:
            for line in f:
                line = line.rstrip("\n")
                if line.startswith("finding: "):
                    d = {}
                    rest = line[len("finding: "):]
                    head, _, text = rest.partition(" :: ")
                    for part in head.split(" | "):
                        k, _, v = part.partition("=")
                        d[k.strip()] = v.strip()
                    d["text"] = text
                    out.append(d)
    except FileNotFoundError:
        pass
    return out


def is_known(v, findings):
    for f in findings:
        if f.get("property") == v["property"] and f.get("rule") == v["rule"] and f.get("subject") == v["subject"]:
            return f
    return None


def write_evidence(rep, tier, seed, wall, viol, known, error=None):
    rules, fn, cs, un, st = rep.coverage()
    nob = len(rep.obligations)
    d = {
        "property": rep.prop,
        "tier": tier,
        "seed": seed,
        "level": "other",
        "coverage": {
            "explanation": (
                "Static analysis of the current source under %s: interprocedural dataflow over abstract states; "
                "no repository code was run. %d obligations over %d abstract paths; see rules." % (REPO, nob, rep.paths)
            ),
            "obligations": nob,
            "obligations_violated": sum(1 for ok in rep.obligations.values() if not ok),
            "abstract_paths": rep.paths,
            "path_events": rep.events,
            "statements_interpreted": st,
            "functions_analysed": len(fn),
            "functions": fn,
            "rules": rules,
            "obligation_list": sorted("%s: %s%s" % (r, s, "" if ok else " [violated]") for (r, s), ok in rep.obligations.items())[:400],
            "unsupported_constructs": un,
            "known_findings_reported": known,
            "violation_list": viol,
        },
        "assumptions": ASSUMPTIONS,
        "wall_s": round(wall, 3),
        "violations": len(viol),
    }
    if error:
        d["coverage"]["analysis_error"] = error
    p = os.path.join(EVIDENCE, rep.prop + ".json")
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, "w") as f:
        json.dump(d, f, indent=1)


# --------------------------------------------------------------------------- helpers shared by the rules
def terms(v, op):
    """All sub-terms T(op, ...) of a value."""
    return [x for x in walk(v) if x.k == "t" and x.a[0] == op]


def has_sym(v, name):
    return any(x.k == "sym" and x.a[0] == name for x in walk(v))


def exc_name(v):
    if v.k != "exc":
        return "?"
    c = v.a[0]
    if c.k == "ext":
        return c.a[0].replace("builtins.", "")
    if c.k == "cls":
        return c.a[0].name
    return show(c)


def is_exc(v, name):
    """Is the raised value certainly an instance of builtin exception `name`?"""
    import builtins

    c = v.a[0]
    names = c.a[0].ext_bases() if c.k == "cls" else [c.a[0]]
    want = getattr(builtins, name)
    for n in names:
        o = getattr(builtins, str(n).replace("builtins.", ""), None)
        if isinstance(o, type) and issubclass(o, want):
            return True
    return False


def lin(v):
    """Linear form {atom: coefficient} of an arithmetic term."""
    out = {}

    def add(x, c):
        if x.k == "c" and isinstance(cval(x), (int, float)) and not isinstance(cval(x), bool):
            out[None] = out.get(None, 0) + c * cval(x)
        elif x.k == "t" and x.a[0] == "bin:Add":
            add(x.a[1], c)
            add(x.a[2], c)
        elif x.k == "t" and x.a[0] == "bin:Sub":
            add(x.a[1], c)
            add(x.a[2], -c)
        elif x.k == "t" and x.a[0] == "neg":
            add(x.a[1], -c)
        else:
            out[x] = out.get(x, 0) + c

    add(v, 1)
    return {k: c for k, c in out.items() if c != 0}


def line_of(ev):
    return ev.site


def last_site(o, default=""):
    return o.events[-1].site if o.events else default
