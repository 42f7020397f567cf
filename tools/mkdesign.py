"""Writes DESIGN.md from design/*.md parts and the tables that other files already hold."""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
body = open(os.path.join(V, "tools", "design.txt")).read()
L = json.load(open(os.path.join(V, "tools", "levels.json")))
P = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
K = json.load(open(os.path.join(V, "known_findings.json")))
if isinstance(K, dict): K = next(v for v in K.values() if isinstance(v, list))
S = [(os.path.basename(os.path.dirname(f)), json.load(open(f))) for f in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json")))]
t = ["| property | commit in /repo | defect |", "|---|---|---|"]
for e in sorted(K, key=lambda e: e["property"]):
    t.append("| %s | %s | %s |" % (e["property"], e["commit"], e["what"]))
body = body.replace("@@FIXES@@", "\n".join(t))
t = ["| planted bug | property | needs | caught by |", "|---|---|---|---|"]
also = json.load(open(os.path.join(V, "tools", "also.json")))
for n, m in sorted(S, key=lambda x: (x[1]["property"], x[0])):
    t.append("| %s | %s | %s | %s |" % (n, m["property"], m["needs"], also.get(n, m["property"])))
body = body.replace("@@SEEDS@@", "\n".join(t))
open(os.path.join(V, "DESIGN.md"), "w").write(body)
