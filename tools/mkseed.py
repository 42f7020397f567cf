"""Builds /verif/seeded/<id>/ from tools/seeds/<batch>.py (development aid, not used by any check).
A batch defines SEEDS = [dict(id, prop, needs, breaks, file, old, new, demo, kit)]; kit: demo uses the federated harness."""
import sys, os, subprocess, shutil, tempfile, json, textwrap
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}; exec(open(sys.argv[1]).read(), ns)
only = sys.argv[2:]
HEAD = "import sys, os\nsys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\nos.environ['VERIF_REPO'] = os.getcwd()\nimport realcode\nrealcode.compat()\n"
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
for s in ns["SEEDS"]:
    if only and s["id"] not in only: continue
    D = os.path.join(V, "seeded", s["id"]); shutil.rmtree(D, ignore_errors=True); os.makedirs(D)
    for f in ["realcode.py", "drv.py"] + s.get("kit", []): shutil.copy(os.path.join(V, "lib", f), D)
    shutil.copytree(os.path.join(V, "lib/shims"), D + "/shims", ignore=shutil.ignore_patterns("__pycache__"))
    open(D + "/demo.py", "w").write(HEAD + textwrap.dedent(s["demo"]))
    open(D + "/demo.sh", "w").write('#!/bin/bash\n# run with cwd = repository\nS=$(mktemp -d); trap "rm -rf $S" EXIT\nD=$(cd "$(dirname "$0")" && pwd)\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPATH= \nexec 3< <(:)\nR=$PWD\ncd "$S" && cat > go.py <<P\nimport os, sys, runpy\nos.chdir("$S")\nP\nVERIF_SRC="$R" timeout 250 python3-vt "$D/demo.py"\n')
    open(D + "/meta.json", "w").write(json.dumps(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), indent=1) + "\n")
    # simple launcher: repository in $VERIF_SRC, scratch cwd (the logger writes into the cwd)
    open(D + "/demo.sh", "w").write('#!/bin/bash\nD=$(cd "$(dirname "$0")" && pwd); R=$PWD; S=$(mktemp -d); trap \'rm -rf "$S"\' EXIT\ncd "$S"; VERIF_REPO="$R" PYTHONDONTWRITEBYTECODE=1 timeout 250 python3-vt "$D/demo.py"\n')
    open(D + "/demo.py", "w").write(HEAD.replace("os.environ['VERIF_REPO'] = os.getcwd()\n", "") + textwrap.dedent(s["demo"]))
    os.chmod(D + "/demo.sh", 0o755)
    w = tempfile.mkdtemp(prefix="seed_"); c = w + "/repo"
    try:
        sh("git clone -q /repo %s" % c)
        eds = s.get("edits") or [(s["file"], s["old"], s["new"])]
        bad = [f for f, o, n in eds if open(c + "/" + f).read().count(o) < 1]
        if bad: print(s["id"], "NO MATCH", bad); continue
        a = sh(D + "/demo.sh", cwd=c)
        for f, o, n in eds:
            t = open(c + "/" + f).read(); open(c + "/" + f, "w").write(t.replace(o, n, 1))
        open(D + "/patch.diff", "w").write(sh("git diff", cwd=c).stdout)
        b = sh(D + "/demo.sh", cwd=c)
        t = sh("python3-vt -m pytest -q computing/test_d_table.py", cwd=c)
        st = sh("git status --short", cwd=c).stdout
        ok = a.returncode == 0 and b.returncode != 0 and t.returncode == 0
        print(s["id"], "OK" if ok else "BAD", "clean rc", a.returncode, "patched rc", b.returncode, "tests", t.returncode, (b.stdout + b.stderr).strip().splitlines()[-1:] , "" if ok else a.stderr[-800:] + b.stderr[-300:])
    finally: shutil.rmtree(w, ignore_errors=True)
