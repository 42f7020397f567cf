"""C15: quantile sketches, driven by insertion histories generated from the specification."""
DESIGN = [dict(module="SketchMC", cfg="SketchMC_none.cfg", min_states=20000),
          dict(module="SketchMC", cfg="SketchMC_droptail.cfg", expect="Kept"),
          dict(module="SketchMC", cfg="SketchMC_nodelta.cfg", expect="Ranks"),
          dict(module="SketchMC", cfg="SketchMC_head.cfg", expect="Kept"),
          dict(module="SketchMC", cfg="SketchMC_nozeros.cfg", expect="SparsePromise"),
          dict(module="SketchMC", cfg="SketchMC_cross.cfg", expect="SparsePromise"),
          dict(module="SketchMC", cfg="SketchMC_thorough.cfg", min_states=100000, thorough=True, timeout=3000, heap="16g")]
GEN = [dict(name="p", module="SketchMC", cfg="SketchMC_gen.cfg", simulate=dict(quick=700, thorough=10000), depth=90, timeout=1500)]
TRACE = "SketchTrace"
CHUNK = 300
MUST_SEE = ["insert", "query", "many", "zeros", "count", "touch"]
ASSUMPTIONS = ["errors and quantiles are dyadic fractions (or the default error), so that no rounding decides a rank", "NaN is not used"]

def num(v):
    try: return int(v * 4) if v * 4 == int(v * 4) and abs(v) < 10**6 else 10**8
    except Exception: return 10**8

def drive(tier, seed, gen):
    import realcode
    realcode.compat()
    import numpy as np
    from ml.feature.quantile_summaries import QuantileSummaries, SparseQuantileSummaries
    from drv import rng, attempt
    def look(q, ev, r, qs):
        for qn, qd in qs:
            o, x = attempt(lambda: q.query(qn / qd), 30)
            ev.append(dict(op="query", qn=qn, qd=qd, out=o, x=num(x) if o == "ok" else 10**8))
        c = getattr(q, "count", None)
        if isinstance(c, int): ev.append(dict(op="count", c=c))
        s = getattr(q, "sampled", None)
        if isinstance(s, list) and all(hasattr(x, "value") for x in s): ev.append(dict(op="samples", s=[num(x.value) for x in s]))
    hangs = 0
    for i, g in enumerate(gen["p"]):
        if hangs > 3: break
        r = rng(seed, "c15", i); en, ed = g["e"]; sparse = i % 3 == 2
        abn = [None, [], [7, "na"], ["", 3.0]][i % 4]
        q = (SparseQuantileSummaries if sparse else QuantileSummaries)(g["thres"], g["head"], en / ed if en else r.choice([0, 0.0]), abn)
        t = dict(id="s%d" % i, en=en, ed=ed, sparse=int(sparse), ev=[]); ev = t["ev"]
        style = r.choice(["r", "r", "a", "d", "z", "e"]); xs = [x for op, x in g["script"] if op == "insert"]
        if style == "a": xs.sort()
        if style == "d": xs.sort(reverse=True)
        if style == "z": xs = xs[::2] + xs[1::2][::-1]
        if style == "e": xs = sorted(xs, key=lambda x: abs(x - 15))      # from the middle outwards
        shift, scale = r.choice([(0, 1), (15, 1), (15, .5), (31, 1), (-1, .25), (12, 4)]); k = 0; ign = 0; acc = 0
        mk = r.choice([float, int, np.float64, str] if scale in (1, 4) else [float, np.float64])
        for op, x in g["script"]:
            if op == "insert":
                v = (xs[k] - shift) * scale; k += 1
                if sparse and v == 0 and r.random() < .7: v = 1 * scale
                if abn and v in abn: kind = "abnormal"; w = v
                else: kind = "num"; w = mk(v)
                o, _ = attempt(lambda: q.insert(w), 20)
                ev.append(dict(op="insert", x=num(v), kind=kind, out=o)); acc += kind == "num"; ign += kind != "num"
                if r.random() < .06:
                    w = r.choice(["abc", "", None, "1,2"] + ([[1]] if not sparse else [])) if r.random() < .6 or not abn else r.choice(abn)
                    o, _ = attempt(lambda: q.insert(w), 20)
                    ev.append(dict(op="insert", x=0, kind="other", out=o)); ign += 1
            else:
                if r.random() < .5: o, _ = attempt(lambda: q.compress(), 20)
                else: o, _ = attempt(lambda: q.query(r.choice([.25, .5, 1])), 20)
                ev.append(dict(op="touch", out=o))
        if sparse:
            z = r.choice([0, 0, 1, 2, len(xs), 3 * len(xs) + 1]); ev.append(dict(op="zeros", z=z)); q.set_total_count(acc + ign + z)
        qs = [(a, 16) for a in range(17)] + [(-1, 8), (9, 8), (1, 64), (63, 64), (2, 1)]
        if sparse: qs = [(a, 32) for a in range(33)] + [(-1, 8), (9, 8), (2, 1)]
        r.shuffle(qs)
        look(q, ev, r, qs)
        hangs += any(e.get("out") == "hang" for e in ev)
        yield t
    for i in range(150 if tier == "quick" else 2500):   # longer streams, small buffers: much compression
        if hangs > 3: break
        r = rng(seed, "c15mid", i); sparse = i % 4 == 3; ed = r.choice([4, 8, 16, 16, 32, 64]); hs, ct = r.choice([(3, 5), (3, 40), (20, 5), (20, 40), (50, 40), (1, 2)])
        q = (SparseQuantileSummaries if sparse else QuantileSummaries)(ct, hs, 1 / ed)
        n = r.choice([100, 400, 900]); few = r.sample([v for v in range(-400, 400) if v], 6); lo = r.randint(-300, 300); style = r.choice(["few", "uniform", "dense", "drift", "nested"])
        pick = {"few": lambda j: r.choice(few), "uniform": lambda j: r.randint(-400, 400), "dense": lambda j: r.choice([r.randint(-400, 400), lo + r.randint(0, 12)]),
                "drift": lambda j: j * 600 // n - 300 + r.randint(-20, 20), "nested": lambda j: (400 - j * 400 // n) * r.choice([-1, 1])}[style]
        xs = [x for x in (pick(j) for j in range(n)) if x or not sparse]; at = sorted(r.sample(range(len(xs) + 1), r.choice([0, 0, 2])) + [len(xs)])
        t = dict(id="mid%d" % i, en=1, ed=ed, sparse=int(sparse), ev=[]); ev = t["ev"]; done = 0
        for k in at:
            def put():
                for x in xs[done:k]: q.insert(x / 4)
            o, _ = attempt(put, 60); bag = {}; hangs += o == "hang"
            for x in xs[done:k]: bag[x] = bag.get(x, 0) + 1
            ev.append(dict(op="many", items=[[x, c] for x, c in sorted(bag.items())], out=o)); done = k
            if o != "ok": break
            if sparse: z = r.choice([0, n // 3, 2 * n]); q.set_total_count(done + z); ev.append(dict(op="zeros", z=z))
            if done: look(q, ev, r, [(a, 32) for a in range(33)])
        yield t
    for i in range(3 if tier == "quick" else 24):      # default sizes: full buffers, compression in earnest
        r = rng(seed, "c15big", i); sparse = i % 3 == 2
        q = (SparseQuantileSummaries if sparse else QuantileSummaries)()
        if i % 3 == 1: q = QuantileSummaries(error=1 / 64, head_size=500, compress_thres=700)
        t = dict(id="big%d" % i, en=1, ed=1000 if i % 3 != 1 else 64, sparse=int(sparse), ev=[]); ev = t["ev"]
        vals = [v / 4 for v in r.sample(range(-400, 400), 48) if v]; n = 0
        for part in range(3):
            w = [r.randint(1, 500) for _ in vals]; items = [(v, c) for v, c in zip(vals, w)]; seq = [v for v, c in items for _ in range(c)]
            how = r.choice(["shuffle", "sort", "back", "none"])
            if how == "shuffle": r.shuffle(seq)
            if how in ("sort", "back"): seq.sort(reverse=how == "back")
            def put():
                for v in seq: q.insert(v)
            o, _ = attempt(put, 120); n += len(seq)
            ev.append(dict(op="many", items=[[num(v), c] for v, c in items], out=o))
            z = 0
            if sparse: z = r.randint(0, 5000); q.set_total_count(n + z); ev.append(dict(op="zeros", z=z))
            look(q, ev, r, [(a, 64) for a in range(65)])
            if ev[-1]["op"] == "samples": ev[-1]["s"] = sorted(ev[-1]["s"]) if len(ev[-1]["s"]) > 10**5 else ev[-1]["s"]
        yield t

def corrupt(t):
    for e in t["ev"]:
        if e["op"] == "count": e["c"] += 1; return [t]
    return []
