"""Mutation bench (development only; no check uses it): python3 tools/mut.py CASES.py [name-filter]
CASES.py defines CASES = [(name, [(file, old, new), ...], [properties to run], expected)], expected "bug" or "same"."""
import json, os, time, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(sys.argv[1]).read(), ns)
flt = sys.argv[2] if len(sys.argv) > 2 else ""
R = "src/earthkit/regrid/"

def run(case):
    name, edits, props, exp = case
    d = tempfile.mkdtemp(prefix="mut.")
    try:
        shutil.copytree(os.environ.get("MUT_SRC", "/repo") + "/src", d + "/src", ignore=shutil.ignore_patterns("__pycache__"))
        for f, old, new in edits:
            p = os.path.join(d, R + f)
            s = open(p).read()
            if old not in s:
                return name, exp, "BAD EDIT: " + old[:60]
            open(p, "w").write(s.replace(old, new, 1))
            try:
                compile(open(p).read(), p, "exec")
            except SyntaxError as x:
                return name, exp, "BAD EDIT: %s" % x
        res = []
        if props == "ALL":
            props = [c["property"] for c in json.load(open(os.path.join(VERIF, "MANIFEST.json")))["checks"]]
        for pr in props:
            ev = os.path.join(d, "ev")
            t0 = time.time()
            r = subprocess.run([sys.executable, "-m", "sa.run", pr], cwd=VERIF, capture_output=True, text=True, timeout=890,
                               env={**os.environ, "SA_REPO": d, "SA_EVIDENCE": ev})
            if time.time() - t0 > 60:
                print("# %s %s took %.0f s" % (name, pr, time.time() - t0), flush=True)
            line = next((l for l in r.stdout.splitlines() if "[" in l and r.returncode == 1), r.stdout[:150] + r.stderr[-600:])
            res.append((pr, r.returncode, line[:230]))
        if exp == "bug":
            ok = any(rc == 1 for _, rc, _ in res)
        else:
            ok = all(rc == 0 for _, rc, _ in res)
        return name, exp, ("ok  " if ok else "XX  ") + "; ".join("%s=%d %s" % (p, rc, l.replace("\n", " ")) for p, rc, l in res if rc)
    finally:
        shutil.rmtree(d)

cases = [c for c in ns["CASES"] if flt in c[0]]
with ThreadPoolExecutor(8) as ex:
    for name, exp, r in ex.map(run, cases):
        print("%-28s %-4s %s" % (name, exp, r), flush=True)
