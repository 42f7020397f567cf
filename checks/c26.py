"""C26: convergence criteria fed with sequences of values generated from the specification."""
DESIGN = [dict(module="ConvergeMC", cfg="ConvergeMC_none.cfg", min_states=3000),
          dict(module="ConvergeMC", cfg="ConvergeMC_sticky.cfg", expect="LastTwo"),
          dict(module="ConvergeMC", cfg="ConvergeMC_shared.cfg", expect="LastTwo"),
          dict(module="ConvergeMC", cfg="ConvergeMC_le.cfg", expect="LastTwo"),
          dict(module="ConvergeMC", cfg="ConvergeMC_thorough.cfg", min_states=100000, thorough=True, timeout=2000)]
GEN = [dict(name="p", module="ConvergeMC", cfg="ConvergeMC_gen.cfg", simulate=dict(quick=900, thorough=20000), depth=14, timeout=1500)]
TRACE = "ConvergeTrace"
CHUNK = 1500
MUST_SEE = ["feed"]
ASSUMPTIONS = ["losses and tolerances are dyadic, so that differences are exact"]

def drive(tier, seed, gen):
    import realcode
    import numpy as np
    from ml.optim.convergence import DiffConverge, AbsConverge, WeightDiffConverge
    from drv import rng, attempt
    U = 64
    def flag(x): return int(bool(x)) if isinstance(x, (bool, np.bool_)) else 7
    for i, g in enumerate(gen["p"]):
        r = rng(seed, "c26", i); kind = ("diff", "abs", "weight")[i % 3]
        shift = r.choice([0, 0, -20]); sgn = r.choice([1, 1, -1])
        if kind == "weight":
            num, den = r.choice([(1, 1), (1, 2), (1, 4), (3, 4), (5, 1), (1, 1024), (2, 1), (13, 16)])
            dim = r.choice([1, 1, 2, 2, 3]); table = [[r.randint(-6, 6) for _ in range(dim)] for _ in range(6)] + [[3, 4, 0][:dim], [0, 0, 0][:dim], [6, 8, 0][:dim], [12, 5, 0][:dim], [1, 0, 0][:dim]]
            if r.random() < .3: table = [v for v in table if sum(x * x for x in v) <= 4] or table
            objs = [WeightDiffConverge(eps=num / den) for _ in (1, 2)]
        else:
            num, den = g["eps"] * (1 if kind == "diff" else 4), 1
            objs = [(DiffConverge if kind == "diff" else AbsConverge)(eps=num / U) for _ in (1, 2)]
        t = dict(id="g%d" % i, kind=kind, num=num, den=den, objs=2, ev=[])
        inplace = r.random() < .5; arrs = [None, None]
        for s in g["script"]:
            o = s["o"] - 1
            if kind == "weight":
                v = table[s["v"] % len(table)]
                if inplace and arrs[o] is not None: arrs[o][:] = v      # the trainer updates its weights in place
                else: arrs[o] = np.array(v, dtype=float)
                f = lambda: objs[o].is_converge(arrs[o])
            else:
                v = sgn * s["v"] + shift
                f = lambda: objs[o].is_converge(v / U if i % 2 else np.float64(v / U))
            out, x = attempt(f, 5)
            if out == "ok" and flag(x) == 7: out = "not a truth value"
            t["ev"].append(dict(op="feed", o=s["o"], v=v, out=out, r=flag(x) if out == "ok" else 0))
            if out != "ok": break
        yield t

def corrupt(t):
    if t["kind"] != "weight": t["ev"][3]["r"] ^= 1; return [t]
    return []
