"""C11: the rows a fitted booster reports, for many kinds of labels and thresholds placed at reported probabilities."""
DESIGN = [dict(module="PredictMC", cfg="PredictMC_none.cfg", min_states=1000),
          dict(module="PredictMC", cfg="PredictMC_unsorted.cfg", expect="Pairing"),
          dict(module="PredictMC", cfg="PredictMC_atleast.cfg", expect="TwoClasses"),
          dict(module="PredictMC", cfg="PredictMC_index.cfg", expect="ManyClasses"),
          dict(module="PredictMC", cfg="PredictMC_thorough.cfg", min_states=100000, thorough=True, timeout=2400)]
GEN = []
TRACE = "PredictTrace"
CHUNK = 100
MUST_SEE = ["trained", "predict"]
ASSUMPTIONS = ["numbers compared to within a few millionths, the threshold comparison exactly"]
NOLAB = 2 * 10**9

def drive(tier, seed, gen):
    import realcode
    realcode.compat()
    import boost, boostcheck
    from boostcheck import mu
    from drv import rng
    def code(x):
        """An integer in the order of the labels."""
        if x is None: return NOLAB
        if isinstance(x, str):
            c = 0
            for ch in (x + "\0\0\0\0")[:4]: c = c * 128 + min(127, ord(ch))
            return c
        try: return int(round(float(x) * 4))
        except Exception: return NOLAB - 1
    NAMES = [lambda k: list(range(k)), lambda k: [10 * i - 7 for i in range(k)], lambda k: ["c%d" % i for i in range(k)], lambda k: [i + 1 for i in range(k)],
             lambda k: [-1 - i for i in range(k)], lambda k: [float(i) for i in range(k)], lambda k: ["yes", "no", "b", "a1"][:k], lambda k: [0.5, 2, -3.25, 10][:k],
             lambda k: ["10", "9", "-1", "2"][:k], lambda k: [100, 20, 3, 0][:k], lambda k: ["B", "a", "A", "b"][:k],
             lambda k: [i / 2 for i in range(k)], lambda k: [i / 4 + .25 for i in range(k)]]
    bad = 0
    for i in range(66 if tier == "quick" else 900):
        r = rng(seed, "c11", i); alone = i % 4 == 3; task = "regression" if i % 7 == 6 else "classification"; n = r.randint(4, 9)
        b = boost.data(r, nh=0 if alone else r.choice([1, 1, 2]), n=n, task=task, depth=2, mode="strict", trees=r.randint(1, 2), stop=False, minleaf=1)
        if task == "classification":
            k = r.choice([2, 2, 2, 3, 4]); names = NAMES[i % len(NAMES)](k)
            b["y"] = names + [r.choice(names) for _ in range(n - k)]; r.shuffle(b["y"])
            if k == 2 and r.random() < .4 and n % 2 == 0:        # balanced labels without usable features: probability one half
                b["y"] = (names * n)[:n]; b["X"] = [[[1] for _ in range(n)] for _ in b["X"]]; b["threshold"] = 0.5; b["forms"] = ["dense"] * len(b["X"])
        if i % 3 == 1 or alone: b["lr"] = r.choice([1, 1, .8]); b["trees"] = r.choice([3, 4, 6])        # probabilities close to none and one
        if i % 9 == 4: b["lr"] = 2.0 ** -24        # probabilities that hardly differ
        if i % 11 == 10: b = boost.large(r, nh=0 if alone else 1, kind=0 if i % 3 else 2); task = "classification"; n = len(b["y"]); k = len(set(b["y"]))
        run = boost.fit(b, [r.randint(0, 3) for _ in range(6)], alone); k = len(set(b["y"])) if task == "classification" else 1
        t = dict(id="run%d%s" % (i, "a" if alone else ""), task=task, ys=[code(y) for y in b["y"]] if task == "classification" else [1], ev=[])
        t["ev"].append(dict(op="trained", out=run.out, classes=[code(c) for c in run.guest.classes_] if run.out == "ok" and task == "classification" else []))
        ps = []
        for c in range(6 if run.out == "ok" else 0):
            if bad > 3: break
            if c == 0: keys, X, lab = b["keys"], b["X"], b["y"]
            else:
                m = r.randint(1, 5); keys = r.sample(["q%d" % j for j in range(20)] + list(range(200, 210)), m)
                X = [[[r.choice(b["X"][p])[f] + r.choice([0, 0, 1, -9]) for f in range(len(b["X"][p][0]))] for _ in range(m)] for p in range(len(b["X"]))]
                lab = [r.choice([None, b["y"][0], 77]) for _ in range(m)]
                if c == 3: keys, X, lab = b["keys"][::-1], [x[::-1] for x in b["X"]], b["y"][::-1]
            thr = b.get("threshold", .5)
            if c and ps and k == 2: q = sorted(set(ps)); thr = r.choice(q[:1] * (c % 2) + q[-1:] * (c % 2) + q + [(x + y) / 2 for x, y in zip(q, q[1:])] + [thr, 0.0, 1.0] + [max(0.0, q[0] - 2.0 ** -44), min(1.0, q[-1] + 2.0 ** -44), max(0.0, q[-1] - 2.0 ** -44)])      # placed exactly at a reported probability
            run.guest.predict_param.threshold = thr
            hub, res = boost.predict(run, X, keys, lab, [r.randint(0, 3) for _ in range(4)], alone=alone)
            o = hub.verdict(); rows = []
            if o == "ok":
                try: items = list(res.collect())
                except Exception: items = []; o = "no table"
                F = dict(run.guest.F.collect()); own = dict(zip(keys, lab))
                for key, v in items:
                    f = [float(x) for x in F[key]] if key in F else [0.0]
                    row = dict(key=str(key), own=code(own.get(key)), shape=0)
                    try:
                        det = [(str(a), mu(w)) for a, w in v[3].items()]; byname = {}
                        for y in b["y"]: byname[str(y)] = code(y)
                        top = max(v[3].values()); row.update(top=[byname.get(str(a), NOLAB) for a, w in v[3].items() if w == top], whole=int(k == 1 or abs(sum(float(w) for w in v[3].values()) - 1) < 1e-12 and float(v[2]) == float(top if k > 2 else v[3]["1"])))
                        row.update(shape=int(len(v) == 4), label=code(v[0]), value=code(v[1]) if task == "classification" else mu(v[1]), score=mu(v[2]), names=[a for a, _ in det], cmp=(float(v[2]) > thr) - (float(v[2]) < thr),
                                   det=[[byname.get(a, NOLAB), w] for a, w in det], ps=[mu(f[0])] if task == "regression" else [mu(boostcheck.sig(f[0]))] if k == 2 else [mu(x) for x in boostcheck.softmax(f)])
                        if k == 2 and task == "classification": ps.append(float(v[2]))
                    except Exception as ex: row["shape"] = 0
                    rows.append(row)
            bad += o != "ok"
            t["ev"].append(dict(op="predict", out=o, keys=[str(x) for x in keys], rows=rows))
        yield t
        bad += run.out != "ok"
        if bad > 3: return

def corrupt(t):
    import copy
    out = []
    for f in (lambda e: e["rows"].pop(), lambda e: e["rows"][0].__setitem__("score", e["rows"][0]["score"] + 1000), lambda e: e["rows"][0].__setitem__("own", 4)):
        u = copy.deepcopy(t); k = [e for e in u["ev"] if e["op"] == "predict" and e["rows"]]
        if k: f(k[0]); out.append(u)
    return out
