"""Writes DESIGN.md from its parts, the planted bugs and the evidence at hand."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = os.path.join(V, "tools")
rows = json.load(open(os.path.join(T, "design_rows.json")))
cost = json.load(open(os.path.join(T, "design_cost.json")))
out = open(os.path.join(T, "design_top.md")).read().replace(
    "@@TABLE@@", "\n".join("| %s | %s | %s | %s | %s |" % (*r, cost.get(r[0], "")) for r in rows))
caught = json.load(open(os.path.join(T, "design_caught.json")))
bugs = []
for f in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    m = json.load(open(f)); i = os.path.basename(os.path.dirname(f))
    bugs.append("| %s | %s | %s |" % (i, " ".join(m["needs"].split()), caught.get(i, m["property"])))
missed = open(os.path.join(T, "design_missed.md")).read()
n = sum(1 for l in open(os.path.join(V, "known_findings.jsonl")) if l.strip())
out += open(os.path.join(T, "design_rest.md")).read().replace("@@BUGS@@", "\n".join(bugs)).replace("@@MISSED@@", missed).replace("@@NFIX@@", str(n))
open(os.path.join(V, "DESIGN.md"), "w").write(out)
