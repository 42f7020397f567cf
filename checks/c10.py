"""C10: boosting, federated and stand-alone: scores, rounds, losses, trees; training and prediction."""
DESIGN = [dict(module="BoostMC", cfg="BoostMC_none.cfg", min_states=4000, actions=["Grad", "Grow", "Loss"]),
          dict(module="BoostMC", cfg="BoostMC_skip.cfg", expect="Scores"),
          dict(module="BoostMC", cfg="BoostMC_dim.cfg", expect="Scores"),
          dict(module="BoostMC", cfg="BoostMC_refresh.cfg", expect="AtStart"),
          dict(module="BoostMC", cfg="BoostMC_late.cfg", expect="Counts"),
          dict(module="BoostMC", cfg="BoostMC_thorough.cfg", min_states=20000, thorough=True, timeout=2400)]
GEN = []
TRACE = "BoostTrace"
CHUNK = 100
MUST_SEE = ["init", "tree", "grown", "after", "losses", "end", "rescore", "importances"]
ASSUMPTIONS = ["numbers compared to within a few millionths", "logistic and exponential values of the oracle come from the C library"]

def drive(tier, seed, gen):
    import realcode
    realcode.compat()
    import boost, boostcheck
    from drv import rng
    bad = 0
    for i in range(70 if tier == "quick" else 900):
        r = rng(seed, "c10", i); alone = i % 5 == 4
        b = boost.data(r, nh=0 if alone else None, depth=r.choice([2, 2, 3]), trees=r.choice([1, 2, 3, 4]), mode=r.choice(["strict", "fast", "balance"]) if i % 4 == 0 else "strict")
        if i % 14 in (7, 11): b = boost.large(r, nh=0 if i % 28 == 25 else None, kind=i // 7 % 3, **({"mode": "fast"} if i % 3 == 0 else {})); alone = len(b["X"]) == 1
        elif b["task"] == "regression" and r.random() < .4: b["y"] = [r.randint(-5, 5) for _ in b["y"]]
        if len(b["keys"]) < 20 and r.random() < .3: b["tol"] = r.choice([0.05, 0.1, 0.5])
        if len(b["keys"]) < 20 and r.random() < .5: b["stop"] = True
        t, run = boostcheck.record(b, i, alone, [r.randint(0, 3) for _ in range(r.randint(1, 20))])
        yield t
        bad += run.out != "ok" or run.bad > 0
        if bad > 2: return

def corrupt(t):
    import copy
    out = []
    for op, f in (("after", lambda e: e["f"][0].__setitem__(0, e["f"][0][0] + 5000)), ("losses", lambda e: e["l"].append(0)), ("tree", lambda e: e["g"].__setitem__(0, e["g"][0] + 5000))):
        u = copy.deepcopy(t); k = [e for e in u["ev"] if e["op"] == op]
        if k: f(k[-1]); out.append(u)
    u = copy.deepcopy(t); k = [e for e in u["ev"] if e["op"] == "importances" and e["total"]]
    if k: k[0]["total"][0][2] += 900; out.append(u)
    return out
