"""C25: feature sampling: draws and the splits made with them, in boosters of every kind and in single trees."""
DESIGN = [dict(module="DrawMC", cfg="DrawMC_none.cfg", min_states=30000), dict(module="DrawMC", cfg="DrawMC_small.cfg", min_states=100),
          dict(module="DrawMC", cfg="DrawMC_all.cfg", min_states=20), dict(module="DrawMC", cfg="DrawMC_first.cfg", min_states=20)] + \
         [dict(module="DrawMC", cfg="DrawMC_%s.cfg" % f, expect=x) for f, x in (("rep", "Counts"), ("ceil", "Counts"), ("zero", "Counts"), ("old", "Owned"), ("other", "Owned"), ("reach", "NeverAll"), ("reach2", "Stuck"))] + \
         [dict(module="DrawMC", cfg="DrawMC_thorough.cfg", min_states=1000000, thorough=True, timeout=2400)]
GEN = []
TRACE = "DrawTrace"
CHUNK = 200
MUST_SEE = ["draw", "split", "trees", "node"]
ASSUMPTIONS = ["rates are given as decimal fractions whose product with the number of features is rounded exactly in floating point"]
RATES = [(1, 1), (1, 2), (4, 5), (1, 10), (3, 10), (1, 3), (7, 10), (9, 10), (1, 4), (0, 1), (99, 100)]

def drive(tier, seed, gen):
    import realcode
    realcode.compat()
    import contextlib
    import numpy as np
    import boost, boostcheck, treecheck, fed
    from drv import rng, attempt
    def exact(n, q): return int((q[0] / q[1]) * n) == n * q[0] // q[1]
    def flags(m):
        try: return [int(bool(x)) for x in list(m)]
        except Exception: return [9]
    # many draws: every kind of booster asked directly for masks
    k = 40 if tier == "quick" else 400
    kinds = [("guest", False), ("host", False), ("alone", True)]
    for i in range(k):
        r = rng(seed, "c25d", i); n = r.choice([1, 2, 3, 4, 5, 6, 7, 10, 13, 20]); q = r.choice([x for x in RATES if exact(n, x)]); sh = max(1, n * q[0] // q[1])
        what, alone = kinds[i % 3]; b = boost.data(r, nh=0 if alone else 1, rate=q[0] / q[1])
        times = 300 if sh * 12 >= n else 0; ev = []
        def draws():
            run = boost.make(b, alone); o = run.hosts[0] if what == "host" else run.guest
            np.random.seed(b["npseed"] % 2**32); out = []
            o.bin_split_points = np.empty(n, dtype=object)
            for t in range(max(5, times)): out.append(dict(op="draw", party=1 if what == "host" else 0, tree=t + 1, n=n, mask=flags(o.sample_valid_features())))
            return out
        o, v = attempt(draws, 20)
        if o == "ok" and v: yield dict(id="draws%d" % i, num=q[0], den=q[1], cover=int(times > 0), ev=v)
    # boosters
    @contextlib.contextmanager
    def masks(T, f):
        own = T.__dict__.get("set_valid_features"); old = T.set_valid_features
        def new(self, *a, **kw):
            f(self, a[0] if a else list(kw.values())[0]); return old(self, *a, **kw)
        T.set_valid_features = new
        try: yield
        finally:
            if own is None: del T.set_valid_features
            else: T.set_valid_features = own
    from ml.tree.hetero_decision_tree_host import HeteroDecisionTreeHost as HT
    bad = 0
    for i in range(24 if tier == "quick" else 300):
        r = rng(seed, "c25b", i); alone = i % 3 == 2; nh = 0 if alone else r.choice([1, 1, 2]); n = r.randint(5, 8)
        b = boost.data(r, nh=nh, n=n, depth=r.choice([1, 2, 3]), stop=False, trees=r.choice([2, 4, 7]), mode="strict", lr=.5, mingain=1e-3, minleaf=1)
        fs = [r.choice([1, 2, 3, 5, 6, 8]) for _ in range(nh + 1)]
        q = r.choice([x for x in RATES if all(exact(m, x) for m in fs)])
        if i % 4 == 1: fs = [r.choice([5, 6, 8])] * (nh + 1); q = (1, 2); b["trees"] = 5; b["depth"] = 1; b["lr"] = .1; b["task"] = "classification"; b["objective"] = "cross_entropy"; b["y"] = [j % 3 for j in range(n)]
        if i % 4 == 0: fs = [r.choice([5, 6, 8])] * (nh + 1); q = (1, 2); b["trees"] = 8; b["depth"] = 1; b["lr"] = .1; b["task"] = "regression"; b["objective"] = "lse"; b["y"] = [r.randint(-9, 9) for _ in range(n)]
        b["rate"] = q[0] / q[1]
        b["X"] = [[[r.randint(-6, 6) for _ in range(fs[p])] for _ in range(n)] for p in range(nh + 1)]
        ev = []; cnt = {}; num = {}
        def note(p):
            def f(tree, m):
                cnt[p] = cnt.get(p, 0) + 1; ev.append(dict(op="draw", party=p, tree=cnt[p], n=fs[p], mask=flags(m)))
            return f
        def host(tree, m):
            k = getattr(tree, "runtime_idx", 0); ix = fed.idx_of(b, nh); p = ix.index(k) + 1 if k in ix else 99
            note(p)(tree, m)
        with masks(boostcheck.tree_class(alone), note(0)), masks(HT, host):
            run = boost.fit(b, [r.randint(0, nh) for _ in range(9)], alone)
        ev.append(dict(op="run", out=run.out)); bad += run.out != "ok"
        if run.out == "ok":
            def splits():
                out = [dict(op="trees", n=len(run.guest.trees_), parties=nh + 1)]
                for t, m in enumerate(run.guest.trees_):
                    for nd in m.tree_:
                        if not nd.is_leaf: out.append(dict(op="split", party=fed.site_no(nd.sitename, b.get("idx")), tree=t + 1, fid=nd.fid))
                return out
            o, v = attempt(splits, 20)
            ev += v if o == "ok" else [dict(op="run", out=o)]
        yield dict(id="boost%d" % i, num=q[0], den=q[1], cover=2 if i % 4 < 2 and cnt.get(0, 0) == (8 if i % 4 == 0 else 15) else 0, dim=3 if i % 4 else 1, ev=ev)
        if bad > 3: return
    # single trees with sparse masks
    for i in range(60 if tier == "quick" else 1000):
        r = rng(seed, "c25t", i); d = fed.tree_data(r)
        for p in range(len(d["valid"])):
            d["valid"][p] = [int(r.random() < .4) for _ in d["valid"][p]]
            if not any(d["valid"][p]): d["valid"][p][r.randrange(len(d["valid"][p]))] = 1
        d.update(minum=0, minleaf=1, minsample=2)
        t = treecheck.one(d, r, "t%d" % i, "C25", predict=False, want=()); t["module"] = "TreeTrace"
        yield t
        bad += any(e["op"] == "run" and e["out"] != "ok" for e in t["ev"])
        if bad > 3: return

def corrupt(t):
    import copy
    out = []
    if t["id"].startswith("boost"):
        k = [e for e in t["ev"] if e["op"] == "split"]
        if k:
            u = copy.deepcopy(t); [e for e in u["ev"] if e["op"] == "split"][-1]["fid"] = 40; out.append(u)
            u = copy.deepcopy(t); u["ev"] = [e for e in u["ev"] if not (e["op"] == "draw" and e["tree"] == 2)]; out.append(u)
    if t["id"] == "draws0": u = copy.deepcopy(t); u["ev"][0]["mask"] = [0] * len(u["ev"][0]["mask"]); out.append(u)
    return out
