"""C08: histograms. TLC checks the scanning algorithm against the definition and generates cases; the real histogram code
is run on them with plain numbers, sealed and Paillier ciphertexts, in one piece and in parts."""
DESIGN = [dict(module="HistMC", cfg="HistMC_none.cfg", min_states=10000, actions=["Merge", "Accumulate"]),
          dict(module="HistMC", cfg="HistMC_finished.cfg", expect="Correct"),
          dict(module="HistMC", cfg="HistMC_zerotwice.cfg", expect="Correct"),
          dict(module="HistMC", cfg="HistMC_foreign.cfg", expect="Correct"),
          dict(module="HistMC", cfg="HistMC_thorough.cfg", min_states=100000, thorough=True, timeout=2400)]
GEN = [dict(name="c", module="HistMC", cfg="HistGen.cfg", simulate=dict(quick=400, thorough=5000), depth=60, timeout=1500)]
TRACE = "HistTrace"
CHUNK = 400
MUST_SEE = ["hist", "acc", "part", "merge"]
ASSUMPTIONS = ["gradients and hessians are small integers, so sums are exact"]

def plain(v, dec):
    import fed
    if isinstance(v, fed.Sealed): v = v.v
    elif not isinstance(v, (int, float)): v = dec(v)
    try: return int(v) if v == int(v) else -10**9
    except Exception: return -10**9

def drive(tier, seed, gen):
    import realcode, fed, copy
    import numpy as np
    from computing.d_table import DTable
    from ml.feature.instance import Instance
    from ml.feature.sparse_vector import SparseVector
    from ml.tree.feateur_histogram import FeatureHistogram as FH
    from drv import rng, attempt
    def wide(i):
        """More samples, bins and nodes than one byte or digit holds."""
        r = rng(seed, "c08wide", i); n = r.randint(330, 380); k = 1 if i % 2 == 0 else 12; nb = [2, r.randint(33, 40), 3]; q = r.random() < .5
        zero = [r.randrange(b) for b in nb]; nodes = [9 + j for j in range(k)]
        bins = [[r.choice([1] * 9 + [0, -1]) if k == 1 else r.randint(-1, 1), r.randint(-1, nb[1] - 1), r.randint(-1, 2)] for _ in range(n)]
        return dict(n=n, bin=bins, zero=zero, nb=nb, state=[int(r.random() < .97) for _ in range(n)], node=[r.choice(nodes) if r.random() < .97 else 3 for _ in range(n)],
                    g=[r.randint(-9, 9) for _ in range(n)], h=[r.randint(0, 3) for _ in range(n)], valid=[1, 1, int(q)], nodes=nodes)
    for i, c in enumerate(gen["c"] + [wide(j) for j in range(2 if tier == "quick" else 12)]):
        r = rng(seed, "c08", i); n = c["n"]; nf = len(c["nb"])
        kind = "512" if i % 40 == 7 and n < 50 else r.choice(["plain", "sealed"])
        e = fed.encrypter(kind)
        keys = ["k%d" % ((j * 5) % 13 if n < 13 else j) for j in range(n)] if i % 2 else [50 - j for j in range(n)]
        order = list(range(n)); r.shuffle(order)
        def rows(S):
            out = []
            for j in S:
                idx = [f for f in range(nf) if c["bin"][j][f] >= 0]; r.shuffle(idx)
                out.append((keys[j], (Instance(features=SparseVector(idx, [c["bin"][j][f] for f in idx], nf)), (c["state"][j], c["node"][j]))))
            return out
        gh = [(keys[j], (e.encrypt(c["g"][j]), e.encrypt(c["h"][j]))) for j in order] + [("unknown", (e.encrypt(99), e.encrypt(99)))]
        sp = np.empty(nf, dtype=object)
        for f in range(nf): sp[f] = np.array([float(x) for x in range(c["nb"][f] - 1)])
        spz = {f: c["zero"][f] for f in range(nf)}
        nm = {nd: k for k, nd in enumerate(c["nodes"])}
        valid = [bool(v) for v in c["valid"]]
        if all(valid) and i % 3 == 0: valid = None
        def show(t): return [[[[plain(v, e.decrypt) for v in cell] for cell in feat] for feat in node] for node in t]
        ev = []
        def step(op, S, f):
            o, v = attempt(f, 60)
            if o != "ok": ev.append(dict(op="error", out=o)); return None
            o2, t = attempt(lambda: show(v), 60)
            ev.append(dict(op=op, s=[j + 1 for j in S], t=t) if o2 == "ok" else dict(op="error", out=o2))
            return v
        every = list(range(n))
        h = step("hist", every, lambda: FH.calculate_histogram(DTable(True, rows(every)), DTable(True, gh), sp, spz, valid, nm))
        if h is not None: step("acc", every, lambda: FH.accumulate_histogram(copy.deepcopy(h)))
        A = [j for j in every if r.random() < .5]; B = [j for j in every if j not in A]
        def part(S):
            g = dict(gh)
            return FH.batch_calculate_histogram([(k, (v, g[k])) for k, v in rows(S)], bin_split_points=sp, bin_sparse_points=spz, valid_features=valid, node_map=nm)[0]
        a = step("part", A, lambda: part(A)); b = step("part", B, lambda: part(B))
        if a is not None and b is not None:
            m = step("merge", every, lambda: FH.aggregate_histogram(copy.deepcopy(a), copy.deepcopy(b), node_map=nm))
            if m is not None: step("acc", every, lambda: FH.accumulate_histogram(m))
        yield dict(id="h%d" % i, case=c, ev=ev)

def corrupt(t):
    k = [e for e in t["ev"] if e["op"] == "acc"]
    for e in k:
        for node in e["t"]:
            for f in node:
                if f: f[-1][2] += 1; return [t]
    return []
