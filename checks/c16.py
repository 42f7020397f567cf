"""C16: quantile binning of tables generated from the specification, dense and sparse, fitted and supplied split points."""
DESIGN = [dict(module="BinningMC", cfg="BinningMC_none.cfg", min_states=3000),
          dict(module="BinningMC", cfg="BinningMC_dup.cfg", expect="Ordered"),
          dict(module="BinningMC", cfg="BinningMC_shift.cfg", expect="Alike"),
          dict(module="BinningMC", cfg="BinningMC_last.cfg", expect="Agrees"),
          dict(module="BinningMC", cfg="BinningMC_strict.cfg", expect="Agrees"),
          dict(module="BinningMC", cfg="BinningMC_zero.cfg", expect="ZeroBin"),
          dict(module="BinningMC", cfg="BinningMC_thorough.cfg", min_states=50000, thorough=True, timeout=3000, heap="16g")]
GEN = [dict(name="t", module="BinningMC", cfg="BinningMC_gen.cfg", simulate=dict(quick=400, thorough=6000), depth=30, timeout=1500)]
TRACE = "BinningTrace"
CHUNK = 60
MUST_SEE = ["fit", "convert", "refused", "pass"]
ASSUMPTIONS = ["values are multiples of a quarter", "NaN is not used"]
NA = 10**8

def num(v):
    try:
        w = float(v) * 4
        return int(w) if w == int(w) and abs(w) < 10**7 else NA - 1
    except Exception: return NA - 2

MODE = [0]       # how the numbers of a table are written: as they are, packed within a hair of one and of minus one, or far from zero
def put(v):
    if not MODE[0] or v == 0 or v is None: return v
    k = abs(v) * 4; s = 1 if v > 0 else -1
    return s * (1 + k * 2.0**-44) if MODE[0] == 1 else s * (2.0**40 + k)
def get(x):
    if not MODE[0] or x == 0: return num(x)
    try:
        s = 1 if x > 0 else -1; k = (abs(float(x)) - 1) * 2.0**44 if MODE[0] == 1 else abs(float(x)) - 2.0**40
        return int(s * k) if k == int(k) and 0 < k < 10**7 else NA - 1
    except Exception: return NA - 2

def drive(tier, seed, gen):
    import realcode
    realcode.compat()
    import copy
    import numpy as np
    from computing.d_table import DTable
    from ml.feature.instance import Instance
    from ml.feature.sparse_vector import SparseVector
    from ml.feature.binning.quantile_binning import QuantileBinning
    from ml.param.feature_binning_param import FeatureBinningParam
    from drv import rng, attempt
    def table(keys, labels, rows, sparse, hdr, r):
        data = []
        for i, (k, row) in enumerate(zip(keys, rows)):
            if sparse:
                it = [(c, v) for c, v in enumerate(row) if v is not None]
                if sparse == 2: r.shuffle(it)
                f = SparseVector([c for c, _ in it], [put(v) for _, v in it], len(row))
            else: f = np.array([put(v) for v in row], dtype=float)
            data.append((k, Instance(inst_id=i, weight=1.0 + i % 3, features=f, label=labels[i])))
        t = DTable(True, data); t.schema = {"header": list(hdr)}
        return t
    def cells(v, m, bins=()):
        f = v.features; de = lambda c, x: num(x) if c in bins else get(x)
        if hasattr(f, "get_data"):
            d = dict(f.get_all_data())
            return [de(c, d[c]) if c in d else NA for c in range(m)] + [NA - 3 for c in d if c not in range(m)] + ([NA - 4] if f.get_shape() != m else [])
        return [de(c, x) for c, x in enumerate(f)]
    def pts(d, hdr): return [dict(c=hdr.index(k) + 1 if k in hdr else 0, sp=[get(x) for x in v]) for k, v in d.items()]
    def conv(ev, b, t, rows, keys, labels, hdr, cols, sp, m):
        e = dict(op="convert", cols=[], keys0=keys, meta0=[[str(l), i, 1 + i % 3] for i, l in enumerate(labels)], rows=[[NA if x is None else num(x) for x in row] for row in rows])
        kw = {}
        if cols is not None: kw["transform_cols_idx"] = cols
        if sp is not None: kw["split_points"] = sp
        o, x = attempt(lambda: b.convert_feature_to_bin(t, **kw), 60)
        use = sp if sp is not None else getattr(b, "split_points", {}) or {}
        e["sps"] = pts(use, hdr); e["used"] = sorted(p["c"] for p in e["sps"])
        e.update(out=o, keys1=[], meta1=[], got=[], header=0, zero=[], rep=[])
        e["cols"] = sorted(hdr.index(k) for k in use) if cols is None else list(cols)
        if o == "ok":
            try:
                nt, rep, zero = x
                got = list(nt.collect())
                e.update(keys1=[k for k, _ in got], meta1=[[str(v.label), v.inst_id, int(v.weight)] for _, v in got], got=[cells(v, m, e["cols"]) for _, v in got],
                         header=int((nt.schema or {}).get("header") == hdr), zero=[[int(c), int(z)] for c, z in sorted(zero.items())], rep=[[get(y) for y in q] for q in rep])
            except Exception as ex: e["out"] = "shape:" + type(ex).__name__
        ev.append(e)
    for i, g in enumerate(gen["t"]):
        MODE[0] = {3: 1, 8: 2}.get(i % 10, 0)
        r = rng(seed, "c16", i); n, nb = g["n"], g["nb"]; tab = g["tab"]; m = len(tab)
        if i % 25 == 11: tab = [r.sample(tab[r.randrange(m)], n) for _ in range(r.randint(11, 13))]; m = len(tab)      # more columns than one digit counts
        scale = r.choice([1, 1, .5, .25, 3]); rows = [[tab[c][j] * scale for c in range(m)] for j in range(n)]
        hdr = r.sample(["x%d" % c for c in range(m)] + ["age", "b", "z9", "X0", "Age", "x0 ", "x", "-1", "\u5e74\u9f84", "a.b"], m)
        keys = ["k%02d" % r.randint(0, 10) + "_%d" % j for j in range(n)]; labels = [r.choice([0, 1, -1]) for _ in range(n)]
        sel = -1 if r.random() < .5 else sorted(r.sample(range(m), r.randint(1, m)))
        if sel != -1 and r.random() < .3: r.shuffle(sel)
        sels = list(range(m)) if sel == -1 else list(sel)
        default = r.random() < .4
        par = lambda: FeatureBinningParam(bin_num=nb, cols=copy.copy(sel), **({} if default else dict(error=r.choice([0, 0.001]), head_size=r.choice([1, 4, 1000]), compress_thres=r.choice([1, 6, 1000]))))
        t = dict(id="t%d" % i, nb=nb, en=0 if n <= 400 else 1, ed=1000, sel=[c + 1 for c in sels], ev=[]); ev = t["ev"]
        srows = [[None if x == 0 and r.random() < .9 else x for x in row] for row in rows]
        other = [[r.choice(rows)[c] + r.choice([0, 0, .25, -.25, 100, -100]) for c in range(m)] for _ in range(r.randint(1, 6))]
        ok_, ol = ["n%d" % j for j in range(len(other))], [0] * len(other)
        for k, sparse in enumerate([0, r.choice([1, 2])]):
            rr = srows if sparse else rows
            T = table(keys, labels, rr, sparse, hdr, r); b = QuantileBinning(par(), "guest")
            o, sp = attempt(lambda: b.fit_split_points(T), 60)
            e = dict(op="fit", out=o, other=k, rows=[[NA if x is None else num(x) for x in row] for row in rr], sps=[])
            if o == "ok":
                o2, q = attempt(lambda: pts(sp, hdr)); e["out"] = o2; e["sps"] = q if o2 == "ok" else []
            ev.append(e)
            if e["out"] != "ok": break
            conv(ev, b, T, rr, keys, labels, hdr, None, None, m)
            sub = r.sample(sels, r.randint(1, len(sels)))
            conv(ev, b, T, rr, keys, labels, hdr, sub, None, m)
            orr = [[None if sparse and x == 0 else x for x in row] for row in other]
            conv(ev, b, table(ok_, ol, orr, sparse, hdr, r), orr, ok_, ol, hdr, None, None, m)
            o, x = attempt(lambda: b.convert_feature_to_bin(T, transform_cols_idx=None), 20)
            ev.append(dict(op="pass", out=o, rows=e["rows"], got=[cells(v, m) for _, v in x[0].collect()] if o == "ok" else []))
            bad = [c for c in range(m) if c not in sels] or [m]
            o, x = attempt(lambda: b.convert_feature_to_bin(T, transform_cols_idx=[bad[0]]), 20); ev.append(dict(op="refused", out=o))
            own = {h: [put(x) for x in sorted(r.sample(range(-8, 12), r.randint(0, 4)))] for h in hdr}
            conv(ev, QuantileBinning(FeatureBinningParam(bin_num=nb), "host"), T, rr, keys, labels, hdr, None, own, m)
            b2 = QuantileBinning(FeatureBinningParam(bin_num=nb, cols=[0, m]), "host")
            o, x = attempt(lambda: b2.fit_split_points(T), 20); ev.append(dict(op="refused", out=o))
        yield t
    MODE[0] = 0
    for i in range(4 if tier == "quick" else 30):       # long columns with the default error
        r = rng(seed, "c16big", i); n = r.choice([1500, 3000]); nb = r.choice([4, 10, 32, 33]); m = 2
        kinds = r.sample(["u", "few", "zeros", "neg", "sorted"], m); cols = []
        for kd in kinds:
            c = [dict(u=lambda: r.randint(-40, 40), few=lambda: r.choice([0, 1, 2]), zeros=lambda: r.choice([0] * 8 + [5, -3]), neg=lambda: -r.randint(1, 30), sorted=lambda: r.randint(-9, 60))[kd]() for _ in range(n)]
            if kd == "sorted": c.sort()
            cols.append(c)
        rows = [[float(c[j]) for c in cols] for j in range(n)]; sparse = i % 2; hdr = ["a", "b"]
        rr = [[None if sparse and x == 0 else x for x in row] for row in rows]
        T = table(["%d" % j for j in range(n)], [0] * n, rr, sparse, hdr, r); b = QuantileBinning(FeatureBinningParam(bin_num=nb), "guest")
        o, sp = attempt(lambda: b.fit_split_points(T), 120)
        ev = [dict(op="fit", out=o, other=0, rows=[[NA if x is None else num(x) for x in row] for row in rr], sps=pts(sp, hdr) if o == "ok" else [])]
        if o == "ok" and i % 2 == 0: conv(ev, b, T, rr, ["%d" % j for j in range(n)], [0] * n, hdr, None, None, m)
        yield dict(id="big%d" % i, nb=nb, en=1, ed=1000, sel=[1, 2], ev=ev)
    for i in range(1 if tier == "quick" else 8):       # hundreds of bins
        r = rng(seed, "c16bins", i); n = 700; nb = r.choice([300, 520]); hdr = ["a", "b"]
        cols = [[r.randint(-2000, 2000) / 4 for _ in range(n)], [r.choice([0, 0, 0, j]) for j in range(n)]]
        rr = [[None if i % 2 and x == 0 else x for x in row] for row in zip(*cols)]; ks = ["%d" % j for j in range(n)]
        T = table(ks, [0] * n, rr, i % 2, hdr, r); b = QuantileBinning(FeatureBinningParam(bin_num=nb), "guest"); ev = []
        o, sp = attempt(lambda: b.fit_split_points(T), 120)
        ev.append(dict(op="fit", out=o, other=0, rows=[[NA if x is None else num(x) for x in row] for row in rr], sps=pts(sp, hdr) if o == "ok" else []))
        if o == "ok": conv(ev, b, T, rr, ks, [0] * n, hdr, None, None, 2)
        yield dict(id="bins%d" % i, nb=nb, en=1, ed=1000, sel=[1, 2], ev=ev)

def corrupt(t):
    import copy
    out = []
    for e in t["ev"]:
        if e["op"] == "convert" and e["got"]:
            u = copy.deepcopy(t); f = [x for x in u["ev"] if x["op"] == "convert"][0]; f["zero"] = [[c, z + 1] for c, z in f["zero"]]; out.append(u)
            u = copy.deepcopy(t); f = [x for x in u["ev"] if x["op"] == "convert"][0]; f["keys1"] = f["keys1"][::-1] + ["x"]; out.append(u)
            break
    return out
