"""C19: federated trees against the specification of the pooled tree, over partitions of the columns; boosters against the stand-alone trainer."""
DESIGN = [dict(module="TreeMC", cfg="TreeMC.cfg", min_states=20000, actions=["DoLeaf", "DoBranch"]),
          dict(module="TreeMC", cfg="TreeMC_hosttie.cfg", expect="Lossless"),
          dict(module="TreeMC", cfg="TreeMC_hostmin.cfg", expect="Lossless"),
          dict(module="TreeMC", cfg="TreeMC_first.cfg", expect="Lossless"),
          dict(module="TreeMC", cfg="TreeMC_two.cfg", min_states=20000, thorough=True),
          dict(module="TreeMC", cfg="TreeMC_thorough.cfg", min_states=100000, thorough=True, timeout=2400)]
GEN = [dict(name="g", module="TreeMC", cfg="TreeGen.cfg", simulate=dict(quick=60, thorough=800), depth=30, timeout=1500)]
TRACE = "TreeTrace"
CHUNK = 300
MUST_SEE = ["node", "run", "end", "leafw", "pred", "model"]
ASSUMPTIONS = ["single trees: gradients and hessians are small integers, so that the specification compares gains exactly",
               "whole boosters: labels are generic reals, so that equally good splits separate the training samples alike"]
ALONE = "xgboost.hetero_decision_tree_guest"

def spread(d, owner, nh):
    """The data set d of one party with its columns handed to the parties 0..nh."""
    at = [[f for f in range(len(owner)) if owner[f] == p] for p in range(nh + 1)]
    e = dict(d)
    for k in ("X", "NX"): e[k] = [[[row[f] for f in fs] for row in d[k][0]] for fs in at]
    e["SP"] = [[d["SP"][0][f] for f in fs] for fs in at]
    e["valid"] = [[d["valid"][0][f] for f in fs] for fs in at]
    return e

def owners(r, m):
    """Ways of handing m columns to a guest and hosts, everyone getting some."""
    out = []
    for nh in range(1, min(3, m - 1) + 1):
        o = list(range(nh + 1)) + [r.randint(0, nh) for _ in range(m - nh - 1)]; r.shuffle(o); out.append((nh, o))
    if m >= 2: out.append((1, [0] + [1] * (m - 1))); out.append((1, [1] * (m - 1) + [0]))
    r.shuffle(out)
    return out

def drive(tier, seed, gen):
    import realcode
    realcode.compat()
    import treecheck, fed
    from drv import rng
    hung = 0
    # behaviours of the specification: as distributed there, and pooled in the stand-alone trainer
    for i, b in enumerate(gen["g"]):
        r = rng(seed, "c19g", i); d = treecheck.spec_data(b, r); n = d["n"]
        pool = dict(d, X=[[sum((d["X"][p][k] for p in range(len(d["X"]))), []) for k in range(n)]], SP=[sum(d["SP"], [])], valid=[sum(d["valid"], [])],
                    NX=[[sum((d["NX"][p][k] for p in range(len(d["X"]))), []) for k in range(len(d["NX"][0]))]])
        for nm, x, kw in (("g%d" % i, d, {}), ("g%da" % i, pool, dict(module=ALONE, enc="plain"))):
            t = treecheck.one(x, r, nm, "C19", want=(), **kw); yield t
            hung += any(e["op"] == "run" and e["out"] in ("hang", "deadlock") for e in t["ev"])
        if hung > 2: break
    for i in range(60 if tier == "quick" else 900):
        if hung > 2: break
        r = rng(seed, "c19t", i); d = fed.tree_data(r, nh=0); m = len(d["SP"][0])
        if m < 3 or r.random() < .5:      # more columns, some of them equal
            e = fed.tree_data(r, nh=0, **{}); n = min(d["n"], e["n"])
            for k in ("X", "NX"): d[k] = [[a + b for a, b in zip(d[k][0], e[k][0])]]
            d["n"] = n; d["X"] = [d["X"][0][:n]]; d["keys"] = d["keys"][:n]; d["g"] = d["g"][:n]; d["h"] = d["h"][:n]
            d["SP"] = [d["SP"][0] + e["SP"][0]]; d["valid"] = [d["valid"][0] + e["valid"][0]]
            if r.random() < .4:
                for k in ("X", "NX"): d[k] = [[row + [row[0]] for row in d[k][0]]]
                d["SP"][0].append(d["SP"][0][0]); d["valid"][0].append(d["valid"][0][0])
        if i % 5 == 2: d["gu"], d["hu"] = treecheck.SCALES[i // 5 % len(treecheck.SCALES)]
        m = len(d["SP"][0])
        runs = [("a", d, dict(module=ALONE, enc="plain"))]
        for j, (nh, o) in enumerate(owners(r, m)[:2]):
            runs.append(("p%d" % j, dict(spread(d, o, nh), batch=r.choice([1, 2, 3, 65536])), dict(enc=["sealed", "plain", "sealed"][(i + j) % 3] if i % 30 or j else "512")))
        for nm, x, kw in runs:
            if kw["enc"] == "512": x["depth"] = min(2, x["depth"])
            t = treecheck.one(x, r, "t%d%s" % (i, nm), "C19", want=(), **kw); yield t
            hung += any(e["op"] == "run" and e["out"] in ("hang", "deadlock") for e in t["ev"])
    for i in range(6 if tier == "quick" else 60):      # many samples, nodes, columns and bins; hosts numbered freely
        if hung > 2: break
        r = rng(seed, "c19l", i); d = fed.large(r, nh=1 + i % 2); n = d["n"]
        pool = dict(d, X=[[sum((d["X"][p][k] for p in range(len(d["X"]))), []) for k in range(n)]], SP=[sum(d["SP"], [])], valid=[sum(d["valid"], [])],
                    NX=[[sum((d["NX"][p][k] for p in range(len(d["X"]))), []) for k in range(len(d["NX"][0]))]])
        for nm, x, kw in (("l%d" % i, d, {}), ("l%da" % i, pool, dict(module=ALONE, enc="plain"))):
            t = treecheck.one(x, r, nm, "C19", want=(), **kw); yield t
            hung += any(e["op"] == "run" and e["out"] in ("hang", "deadlock") for e in t["ev"])
    for i in range(40 if tier == "quick" else 600):      # close races between the parties
        if hung > 2: break
        r = rng(seed, "c19r", i); d = fed.close_race(r, minleaf=1); n = d["n"]
        pool = dict(d, X=[[sum((d["X"][p][k] for p in range(len(d["X"]))), []) for k in range(n)]], SP=[sum(d["SP"], [])], valid=[sum(d["valid"], [])],
                    NX=[[sum((d["NX"][p][k] for p in range(len(d["X"]))), []) for k in range(len(d["NX"][0]))]])
        for nm, x, kw in (("r%d" % i, d, {}), ("r%da" % i, pool, dict(module=ALONE, enc="plain"))):
            t = treecheck.one(x, r, nm, "C19", want=(), **kw); yield t
            hung += any(e["op"] == "run" and e["out"] in ("hang", "deadlock") for e in t["ev"])
    # whole boosters
    import boost, boostcheck
    def model(what, b, alone):
        run = boost.fit(b, [r.randint(0, 3) for _ in range(7)], alone); e = dict(op="model", what=what, out=run.out, f=[], loss=[], trees=0, p=[])
        if run.out != "ok": return e, 1
        e.update(f=boostcheck.rows(boostcheck.scores(run.guest.F, b["keys"])), loss=[boostcheck.mu(x) for x in run.guest.history_loss], trees=len(run.guest.trees_))
        hub, res = boost.predict(run, b["X"], b["keys"], b["y"], [0, 1], alone=alone)
        if hub.verdict() != "ok": return dict(e, out=hub.verdict()), 1
        v = dict(res.collect()); e["p"] = [[boostcheck.mu(v[k][2])] if k in v else [] for k in b["keys"]]
        return e, 0
    bad = 0
    for i in range(24 if tier == "quick" else 300):
        r = rng(seed, "c19b", i); m = r.choice([3, 4, 5, 6]); n = r.randint(6, 11)
        b = boost.data(r, nh=0, task="regression", n=n, rate=1.0, mode="strict", trees=r.choice([1, 2, 3]), depth=r.choice([2, 3]), stop=False, lam=r.choice([.1, 1]))
        b["objective"] = ["lse", "huber", "fair", "log_cosh", "lse"][i % 5]; b["y"] = [round(r.uniform(-9, 9), 6) for _ in range(n)]
        if i % 5 == 4: b["y"] = [round(r.uniform(0, 1e-2), 9) for _ in range(n)]; b["mingain"] = 0
        b["X"] = [[[r.choice([0, r.randint(-4, 4), r.randint(-8, 8) / 4]) for _ in range(m)] for _ in range(n)]]
        ev = []; e, x = model("pooled, stand-alone", b, True); ev.append(e); bad += x
        ways = [(0, [0] * m)] + owners(r, m)[:2]
        for nh, o in ways:
            if not nh: continue
            at = [[f for f in range(m) if o[f] == p] for p in range(nh + 1)]
            c = dict(b, X=[[[row[f] for f in fs] for row in b["X"][0]] for fs in at], batch=r.choice([1, 2, 65536]), forms=[r.choice(["dense", "sparse"]) for _ in at],
                     orders=[None] + [r.sample(range(n), n) if r.random() < .5 else None for _ in range(nh)], mode=r.choice(["strict", "fast", "balance"]), rerate=r.choice([0, .5, 1]))
            e, x = model("%d hosts, columns of %s" % (nh, o), c, False); ev.append(e); bad += x
        yield dict(id="b%d" % i, module="LosslessTrace", tol=5, ev=ev)
        if bad > 3: return

def corrupt(t):
    import copy
    out = []
    if t.get("module"):
        for f in (lambda e: e["f"][0].__setitem__(0, e["f"][0][0] + 50), lambda e: e["loss"].append(0), lambda e: e["p"].pop()):
            u = copy.deepcopy(t); k = [e for e in u["ev"] if e["op"] == "model" and e["out"] == "ok"]
            if len(k) > 1: f(k[-1]); out.append(u)
        return out[:2]
    if t["id"].startswith("t3"):
        k = [e for e in t["ev"] if e["op"] == "node" and not e["leaf"]]
        if k: k[0]["w"] += 5000; return [t]
    return []
MAX_CONTROLS = 16
