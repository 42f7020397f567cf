"""Writes known_findings.json: every defect repaired by a "fix:" commit (status fixed suppresses nothing)."""
import subprocess, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = {"4aad4e3": "C02", "d83226a": "C23", "fe2bd12": "C22", "3316c3b": "C22", "bb82ad9": "C17", "b7bcd78": "C24", "4164384": "C05", "36d07a8": "C08",
        "2bf5b6d": "C14", "28424fc": "C14", "4992bab": "C14", "db9c0b1": "C14", "7b31bf3": "C12", "df41c8a": "C27", "d133e3e": "C27", "cd1d319": "C26", "c83e113": "C13",
        "5940d22": "C15", "dcfbaf9": "C15", "b3f0c65": "C15", "d3d3e65": "C15", "fe1c523": "C16", "28ecfb6": "C20", "16278ee": "C21", "68e7ea9": "C21", "0ba9b8f": "C21",
        "f32c2be": "C24", "d20eb84": "C22", "490ee1f": "C22", "535ccf2": "C23", "6426e9b": "C23", "b906285": "C23", "9b69b73": "C23", "74a403d": "C23", "5a6f7ad": "C01"}
old = [e for e in (json.load(open(V + "/known_findings.json")) if os.path.exists(V + "/known_findings.json") else []) if e.get("status") == "known"]
out = []
for l in subprocess.run("git -C /repo log --reverse --format='%h %s'", shell=True, capture_output=True, text=True).stdout.splitlines():
    h, s = l.split(" ", 1)
    if not s.startswith("fix:"): continue
    p = PROP[h[:7]]
    body = s[4:].strip()
    out.append(dict(status="fixed", property=p, commit=h[:7], entry="fixed: property=%s %s %s" % (p, h[:7], body), what=body))
json.dump(old + out, open(V + "/known_findings.json", "w"), indent=1)
print(len(old), "known", len(out), "fixed")
