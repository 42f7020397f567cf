"""Development aid: applies textual mutations to scratch copies of /repo and reports which checks notice.
Usage: python3 tools/mutate.py FILE   where FILE defines MUTS = [(name, file, old, new, [props])]."""
import sys, os, subprocess, shutil, tempfile, concurrent.futures as cf
ns = {}; exec(open(sys.argv[1]).read(), ns)
only = sys.argv[2:]
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def run(m):
    name, f, old, new, props = m
    w = tempfile.mkdtemp(prefix="mut_"); c = w + "/repo"
    try:
        shutil.copytree(os.environ.get("MUT_REPO", "/repo"), c, ignore=shutil.ignore_patterns(".git", "img"))
        p = os.path.join(c, f); s = open(p).read()
        if s.count(old) < 1: return name, "NO MATCH"
        open(p, "w").write(s.replace(old, new, 1))
        res = []
        t = subprocess.run(["python3-vt", "-m", "pytest", "-q", "-x", "computing/test_d_table.py"], cwd=c, capture_output=True)
        if t.returncode: res.append("TESTS FAIL")
        for q in props:
            e = dict(os.environ, VERIF_REPO=c, VERIF_NOEVIDENCE="1")
            r = subprocess.run(["python3-vt", V + "/run.py", q], cwd=V, env=e, capture_output=True, text=True)
            cl = sorted({l.split("clauses")[1].split("event")[0].strip() for l in r.stdout.splitlines() if l.startswith("rejected")})
            res.append("%s=%s %s" % (q, {0: "MISSED", 1: "caught"}.get(r.returncode, "rc%d %s" % (r.returncode, r.stdout[-300:])), cl[:2]))
        return name, "; ".join(res)
    finally: shutil.rmtree(w, ignore_errors=True)
with cf.ThreadPoolExecutor(3) as ex:
    for n, r in ex.map(run, [m for m in ns["MUTS"] if not only or m[0] in only]): print(n, "->", r, flush=True)
