"""python3 -m sa.run <PROPERTY> [--tier quick|thorough]"""

import argparse
import json
import os
import sys
import time
import traceback

from . import core
from .core import AnalysisError, Report, load_findings, is_known, write_evidence


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args(argv)
    sys.setrecursionlimit(20000)
    from .rules import REGISTRY

    if a.prop not in REGISTRY:
        print("unknown property", a.prop)
        return 2
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t = time.time()
    rep = Report(a.prop, a.tier)
    try:
        REGISTRY[a.prop](rep)
        if not rep.obligations:
            raise AnalysisError("no obligations were generated")
    except AnalysisError as e:
        print("NO ANSWER property=%s: %s" % (a.prop, e))
        write_evidence(rep, a.tier, seed, time.time() - t, [], [], error=str(e))
        if not rep.violations:
            return 2
    except Exception:
        traceback.print_exc()
        write_evidence(rep, a.tier, seed, time.time() - t, [], [], error=traceback.format_exc())
        if not rep.violations:
            return 2
    findings = load_findings()
    known, fresh = [], []
    for v in rep.violations:
        f = is_known(v, findings)
        (known if f else fresh).append((v, f))
    for v, f in known:
        print("KNOWN-FINDING: property=%s %s [%s: %s]" % (a.prop, f["text"], v["rule"], v["subject"]))
    ev_v = [{"rule": v["rule"], "subject": v["subject"], "site": v["site"], "why": v["why"]} for v, _ in fresh]
    write_evidence(rep, a.tier, seed, time.time() - t, ev_v, ["%s: %s" % (v["rule"], v["subject"]) for v, _ in known])
    if fresh:
        d = os.path.join(core.EVIDENCE, "reports")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, a.prop + ".json")
        with open(p, "w") as fh:
            json.dump([v for v, _ in fresh], fh, indent=1)
        for v, _ in fresh:
            print("%s: [%s] %s: %s" % (v["site"], v["rule"], v["subject"], v["why"]))
            if v["rule_text"]:
                print("    rule: %s" % v["rule_text"])
            if a.v:
                for x in v["trace"]:
                    print("      ", x)
        print("VIOLATION property=%s replay=%s" % (a.prop, p))
        return 1
    print("OK property=%s obligations=%d paths=%d wall=%.1fs" % (a.prop, len(rep.obligations), rep.paths, time.time() - t))
    return 0


if __name__ == "__main__":
    sys.exit(main())
