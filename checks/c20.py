"""C20: files generated from the specification read back; splits of every entry point compared; entry points run up to training."""
DESIGN = [dict(module="FilesMC", cfg="FilesMC_none.cfg", min_states=30000)] + \
         [dict(module="FilesMC", cfg="FilesMC_%s.cfg" % f, expect=x) for f, x in (("last", "Reading"), ("blank", "Reading"), ("header", "Reading"), ("seed", "Aligned"), ("round", "Parts"), ("gap", "Parts"))] + \
         [dict(module="FilesMC", cfg="FilesMC_thorough.cfg", min_states=500000, thorough=True, timeout=2400)]
GEN = [dict(name="f", module="FilesMC", cfg="FilesMC_gen.cfg", simulate=dict(quick=400, thorough=5000), depth=6, timeout=600)]
TRACE = "FilesTrace"
CHUNK = 150
MUST_SEE = ["read", "split", "entry", "program"]
ASSUMPTIONS = ["numbers are multiples of a quarter, written in several notations", "cells hold no commas or quotes"]

def drive(tier, seed, gen):
    import realcode
    realcode.compat()
    import os, csv, sys, importlib, contextlib, io
    import numpy as np
    from i_o import utils
    from drv import rng, attempt
    def quarter(x):
        try:
            w = float(x) * 4
            return int(w) if w == int(w) and abs(w) < 10**8 else 10**9
        except Exception: return 10**9 + 1
    def text(q, r):
        v = q / 4
        return r.choice([repr(v), "%.2f" % v, "%+.2f" % v, "%e" % v, "%.6f" % v, " %.2f" % v, "%.2f " % v] + (["%d" % v] if v == int(v) else [])) if v or r.random() < .8 else r.choice(["0", "-0", "0.0", "-0.0"])
    def write(path, head, cells, blanks, term, r):
        eol = r.choice(["\n", "\n", "\n", "\r\n"])
        body = eol.join([",".join(head)] + [",".join(c) for c in cells]) + (eol if term or blanks else "") + (eol * blanks if term else eol * max(0, blanks - 1) + r.choice(["", " "]) if blanks else "")
        with open(path, "w", newline="") as f: f.write(body)
    def split_events(n, num, den, sd, mods, r, shuffle):
        ev = []
        for m in mods:
            rows = ["r%d" % j for j in range(n)]; o, x = attempt(lambda: m.data_split(list(rows), num / den, bool(shuffle), sd), 20)
            e = dict(op="split", out=o, n=n, num=num, den=den, shuffle=shuffle, exact=int(n * (num / den)), a=[], b=[])
            if o == "ok":
                o2, z = attempt(lambda: ([int(v[1:]) + 1 for v in x[0]], [int(v[1:]) + 1 for v in x[1]]), 5)
                if o2 == "ok": e["a"], e["b"] = z
                else: e["out"] = o2
            ev.append(e); r2 = __import__("random"); r2.random()      # the next party's generator is in another state
        return ev
    def modules():
        out = []
        for name in ("guest", "host", "test_xgboost"):
            with contextlib.redirect_stdout(io.StringIO()): out.append(importlib.import_module(name))
        return out
    mods = modules()
    class Stop(Exception): pass
    def entry(role, path, hosts, num, den, rows, head, lab):
        """Runs the real entry point; training and prediction are replaced by recorders."""
        m = mods[0] if role == "guest" else mods[1]; got = []
        names = dict(guest=("HeteroSecureBoostingTreeGuest", "TransferInstGuest"), host=("HeteroSecureBoostingTreeHost", "TransferInstHost"))[role]
        if not all(hasattr(m, k) for k in names): return None      # the recorders cannot be put in place
        cls = getattr(m, names[0]); saved = {k: getattr(m, k) for k in names}; argv = sys.argv
        class Rec(cls):
            def fit(self, data_instances=None, *a, **k): got.append(data_instances)
            def predict(self, data_instances=None, *a, **k): got.append(data_instances); raise Stop()
        class Link:
            def __init__(self, *a, **k): pass
        setattr(m, names[0], Rec); setattr(m, names[1], Link)
        def main():
            with contextlib.redirect_stdout(io.StringIO()):
                try: (m.test_hetero_secure_boost_guest if role == "guest" else m.test_hetero_seucre_boost_host)()
                except Stop: pass
        try:
            if role == "guest": sys.argv = ["guest.py", path, str(hosts), str(num / den), "CLASSIFICATION", "10099"]
            else: sys.argv = ["host.py", path, str(num / den), "10099", "0"]
            o, v = attempt(main, 30)
        finally:
            sys.argv = argv
            for k, x in saved.items(): setattr(m, k, x)
        e = dict(op="entry", out=o, n=len(rows), a=[], b=[], keysok=1, cells=1, header=1)
        if o == "ok" and len(got) == 2:
            idx = {c[0]: j + 1 for j, c in enumerate(rows)}
            for k, t in zip("ab", got):
                for pos, (key, v) in enumerate(t.collect()):
                    j = idx.get(v.inst_id, 0); e[k].append(j); e["keysok"] &= int(key == pos)
                    if j:
                        f = [float(x) for x in rows[j - 1][2 if lab else 1:]]; e["cells"] &= int(list(v.features) == f and (not lab or v.label == rows[j - 1][1]))
                e["header"] &= int(t.schema.get("header") == head[2 if lab else 1:])
        elif o == "ok": e["out"] = "not both tables"
        return e
    import threading
    runs = []
    for k in range(3 if tier == "quick" else 8):
        t = threading.Thread(target=lambda k=k: runs.append(program(rng(seed, "prog", k), k, mods[0])), daemon=True); t.start(); runs.append(t)
    for i, g in enumerate(gen["f"]):
        r = rng(seed, "c20", i); lab = g["lab"]; n = len(g["rows"]); w = len(g["rows"][0]) if n else 4; skip = 2 if lab else 1
        if not lab: w -= 1
        w = max(w, skip); ids = r.sample(range(5 * n + 5), n)
        head = [r.choice(["id", "ID", "key"])] + (["y"] if lab else []) + r.sample(["x%d" % c for c in range(9)] + ["age", "id2", "y"], w - skip)
        if i % 6 == 1: head = [r.choice(["%s", "%s ", " %s", "my %s"]) % h for h in head]      # blanks belong to names and ids
        cells, nums = [], []
        for j, row in enumerate(g["rows"]):
            q = [c * r.choice([1, -1]) for c in row[skip:w]]; nums.append(q)
            cells.append([r.choice(["%d", "u%d", "00%d"] + ([" %d", "%d ", "u %d", "\t%d"] if i % 6 == 1 else [])) % ids[j]] + ([r.choice(["1", "0", "-1", "yes", "1.0", " 1"])] if lab else []) + [text(c, r) for c in q])
        path = "data_%d.csv" % i
        write(path, head, cells, g["blanks"], g["term"], r)
        o, x = attempt(lambda: (utils.read_from_csv_with_lable if lab else utils.read_from_csv_with_no_lable)(path), 20)
        e = dict(op="read", out=o, lab=int(lab), head=head, rows=cells, nums=nums, header=[], ids=[], feats=[], labels=[])
        if o == "ok":
            o2, _ = attempt(lambda: e.update(header=list(x[0]), ids=[str(v) for v in x[1]], feats=[[quarter(v) for v in f] for f in x[2]], labels=[str(v) for v in x[3]] if lab else []), 10)
            if o2 != "ok": e["out"] = o2
        k, d, s = g["cut"]; ev = [e]
        yield dict(id="f%d" % i, ev=ev)
        m = r.choice([n, n, r.randint(0, 60)])
        yield dict(id="s%d" % i, ev=split_events(m, k, d, s, mods + mods[::-1], r, 1))
        yield dict(id="o%d" % i, ev=split_events(m, k, d, r.choice([None, s]), mods, r, 0))
        if lab and n > 1 and w > skip and i % 5 == 0 and len({c[0] for c in cells}) == n:
            hp = "host_%d.csv" % i; hc = [[c[0]] + c[2:] for c in cells]; write(hp, [head[0]] + head[2:], hc, g["blanks"], g["term"], r)
            es = [entry("guest", path, 1, max(1, k), d, cells, head, True), entry("host", hp, 1, max(1, k), d, hc, [head[0]] + head[2:], False)]
            if None not in es: yield dict(id="e%d" % i, ev=es)
            os.remove(hp)
        os.remove(path)
    base = os.path.join(realcode.REPO, "data")
    for dp, _, fs in sorted(os.walk(base)):
        for f in sorted(fs):
            if not f.endswith(".csv"): continue
            p = os.path.join(dp, f); lab = "guest" in f
            with open(p, newline="") as h: raw = [q for q in csv.reader(h) if q]
            head, rows = raw[0], raw[1:]; o, x = attempt(lambda: (utils.read_from_csv_with_lable if lab else utils.read_from_csv_with_no_lable)(p), 60)
            lim = 400 if tier == "quick" else 10**9
            e = dict(op="read", out=o, lab=int(lab), head=head, rows=rows[:lim], nums=[[repr(float(c)) for c in q[2 if lab else 1:]] for q in rows[:lim]], header=[], ids=[], feats=[], labels=[])
            if o == "ok":
                e.update(header=list(x[0]), ids=[str(v) for v in x[1]], feats=[[repr(float(v)) for v in q] for q in x[2]], labels=[str(v) for v in x[3]] if lab else [])
                if len(e["ids"]) == len(rows):
                    for key in ("ids", "feats", "labels"): e[key] = e[key][:lim]
            yield dict(id="data_" + f, ev=[e])

    for t in [x for x in runs if isinstance(x, threading.Thread)]: t.join()
    for x in runs:
        if isinstance(x, dict): yield dict(id="program%d" % x.pop("k"), ev=[x])

def program(r, k, guest):
    """The programs themselves, as separate processes over loopback, on files whose training part every host column splits
    by label and whose test part has a known number of labels turned round; the guest prints the share predicted right."""
    import os, socket, subprocess, time, re, sys, realcode
    from drv import attempt
    d = os.path.abspath("prog%d" % k); os.mkdir(d)
    hosts = 1 + k % 2; classes = 3 if k % 3 == 2 else 2; n = r.randint(16, 22)
    names = r.sample(["no", "yes", "maybe", "7", "x"], classes); part = guest.data_split(list(range(n)), 0.7, True, 2)[0]
    # one host: its column is the class; two hosts: three kinds of rows, told apart only by the columns of both together
    while True:
        kind = [j % (classes if hosts == 1 else 3 if classes > 2 else 4) for j in range(n)]; r.shuffle(kind)
        if all(len([j for j in part if kind[j] == c]) > 1 for c in set(kind)): break
    y = kind if hosts == 1 or classes > 2 else [(0, 0, 1, 1)[c] for c in kind]
    cols = [[3 * c - 1 for c in y]] if hosts == 1 else [[int(c != 0) for c in kind], [int(c == 2) if classes > 2 else int(c != 1) for c in kind]]
    e = dict(op="program", k=k, out="ok", hosts=0, right=0, total=1, shown=[])
    rest = guest.data_split(list(range(n)), 0.7, True, 2)[1]; wrong = set(r.sample(sorted(rest), r.randint(0, len(rest) - 1)))
    same = [[j for j in range(n) if j not in rest and y[j] == c][0] for c in range(classes)]      # the guest's column alone never decides
    shown = [(c + 1) % classes if j in wrong else c for j, c in enumerate(y)]
    e["total"] = len(rest); e["right"] = len(rest) - len(wrong)
    with open(d + "/g.csv", "w") as f: f.write("id,y,a\n" + "".join("u%d,%s,%d\n" % (j, names[shown[j]], 1 if hosts > 1 or j in same else r.randint(0, 3)) for j in range(n)))
    for h in range(hosts):
        with open(d + "/h%d.csv" % h, "w") as f: f.write("id,c,d\n" + "".join("u%d,%d,%.2f\n" % (j, cols[h][j], 5.5 - cols[h][j]) for j in range(n)))
    with socket.socket() as s: s.bind(("127.0.0.1", 0)); port = s.getsockname()[1]
    def states():
        out = []
        for p in ("/proc/net/tcp", "/proc/net/tcp6"):
            try: out += [l.split()[3] for l in open(p).read().splitlines()[1:] if l.split()[1].endswith(":%04X" % port)]
            except OSError: pass
        return out
    def until(f, p):
        end = time.time() + 60
        while time.time() < end and p.poll() is None and not f(): time.sleep(.05)
    ps = []
    def go(name, *a):
        f = open("%s/%s.txt" % (d, "".join(a[:1])), "wb")
        p = subprocess.Popen([sys.executable, os.path.join(realcode.HERE, "prog.py"), name] + list(a), cwd=d, stdout=f, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL)
        ps.append(p); return p
    g = go("guest.py", "g.csv", str(hosts), "0.7", "CLASSIFICATION", str(port)); until(lambda: "0A" in states(), g)
    for h in range(hosts):
        p = go("host.py", "h%d.csv" % h, "0.7", str(port), str(h)); until(lambda: states().count("01") > h, p)
    end = time.time() + 150; out = []
    for p in ps:
        try: out.append("ok" if p.wait(max(.1, end - time.time())) == 0 else "failed")
        except subprocess.TimeoutExpired: out.append("hang")
    for p in ps:
        if p.poll() is None: p.kill(); p.wait()
    e["out"] = ([o for o in out if o != "ok"] or ["ok"])[0]; e["hosts"] = out[1:].count("ok")
    text = open(d + "/g.csv.txt", errors="replace").read()
    m = re.findall(r"accuracy is\s+\[?([-+.0-9e]+)", text)
    e["shown"] = [round(float(x) * 10**6) for x in m]
    e["n"] = hosts
    return e

def corrupt(t):
    import copy
    out = []
    for e in t["ev"]:
        u = copy.deepcopy(t); k = [x for x in u["ev"] if x["op"] == e["op"]][0]
        if e["op"] == "read" and e["ids"]: k["ids"] = k["ids"][1:]; out.append(u)
        if e["op"] == "split" and len(e["a"]) > 1: k["a"] = k["a"][1:]; out.append(u)
        if e["op"] == "program" and e["shown"]: k["shown"] = [k["shown"][0] + 2]; out.append(u)
        break
    return out
