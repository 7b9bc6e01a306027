"""DESIGN.md from tools/design/*.md (development only): fills in the table of planted bugs and the size of the benches."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
text = "".join(open(os.path.join(V, "tools/design", f)).read() for f in ("head.md", "props.md", "tail.md"))
bugs = sames = 0
for f in glob.glob(V + "/tools/cases_*.py"):
    ns = {}
    exec(open(f).read(), ns)
    for c in ns["CASES"]:
        bugs, sames = bugs + (c[3] == "bug"), sames + (c[3] != "bug")
rows = []
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(os.path.join(V, "seeded", d, "meta.json")))
    rows.append("| %s | %s | %s |" % (d, m["property"], m["needs"]))
for k, v in (("{CASES}", bugs + sames), ("{BUGS}", bugs), ("{SAMES}", sames), ("{TABLE}", "\n".join(rows))):
    text = text.replace(k, str(v))
open(os.path.join(V, "DESIGN.md"), "w").write(text)
