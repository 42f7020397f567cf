"""C22: losses, gradients, hessians, starts and link functions against their definitions over exact rationals."""
DESIGN = [dict(module="LossesMC", cfg="LossesMC_none.cfg", min_states=10000)] + \
         [dict(module="LossesMC", cfg="LossesMC_%s.cfg" % f, expect=x) for f, x in (("half", "GradientIsSlope"), ("third", "HessianIsSlope"), ("odds", "HessianIsSlope"), ("flat", "GradientIsSlope"), ("all", "AddsUp"), ("fairsq", "HessianIsSlope"))] + \
         [dict(module="LossesMC", cfg="LossesMC_thorough.cfg", min_states=100000, thorough=True, timeout=2400)]
GEN = [dict(name="p", module="LossesMC", cfg="LossesMC_gen.cfg")]
TRACE = "LossesTrace"
CHUNK = 30
MUST_SEE = ["point", "mean", "start", "link", "probs", "far"]
ASSUMPTIONS = ["points are chosen where the definitions are rational; floating-point results are compared in millionths"]

def drive(tier, seed, gen):
    import realcode
    realcode.compat()
    import math
    import numpy as np
    from computing.d_table import DTable
    from ml.loss.cross_entropy import SigmoidBinaryCrossEntropyLoss as Bin, SoftmaxCrossEntropyLoss as Soft
    from ml.loss import regression_loss as R
    from ml.optim import activation as A
    from drv import rng, attempt
    from boostcheck import mu
    def f(q): return q[0] / q[1]
    def make(loss, par, none=False):
        if loss == "huber": return R.HuberLoss(None if none else f(par))
        if loss == "fair": return R.FairLoss(None if none else f(par))
        if loss == "tweedie": return R.TweedieLoss(1 + f(par))
        return {"lse": R.LeastSquaredErrorLoss, "lae": R.LeastAbsoluteErrorLoss, "log_cosh": R.LogCoshLoss, "binary": Bin, "softmax": Soft}[loss]()
    def label(p):
        v = f(p["y"])
        return int(v) if v == int(v) else v
    def score(p):
        """What the loss is given besides the label."""
        l = p["loss"]
        if l == "binary": return f(p["z"]) / (1 + f(p["z"]))
        if l == "softmax": return np.array(p["z"], dtype=float) / sum(p["z"])
        if l == "log_cosh": return f(p["y"]) + math.log(f(p["z"]))
        if l == "tweedie": return p["par"][1] * math.log(f(p["z"]))
        return f(p["y"]) + f(p["z"])
    def one(L, p, form):
        y, x = label(p), score(p)
        if p["loss"] == "softmax":
            keep = x.copy(); y = r.choice([y, np.int64(y)]); g = L.compute_grad(y, x); h = L.compute_hess(y, x)
            return [mu(v) for v in g], [mu(v) for v in h], int(np.shape(g) == x.shape == np.shape(h) and (x == keep).all())
        if form == 1: x = np.float64(x)
        if form == 2: x = np.array([x])
        if form == 3: y, x = np.array([y]), np.array([x])
        if form == 4: y, x = np.array([float(y)] * 2).reshape(2, 1), np.array([x, x]).reshape(2, 1)
        ks = [np.array(v, copy=True) for v in (y, x)]
        g, h = L.compute_grad(y, x), L.compute_hess(y, x)
        ok = np.shape(g) == np.shape(x) == np.shape(h) and all((np.array(v) == k).all() for v, k in zip((y, x), ks)) and len(set(np.ravel(g).tolist())) == 1
        return [mu(np.ravel(g)[-1])], [mu(np.ravel(h)[-1])], int(ok)
    r = rng(seed, "c22"); pts = list(gen["p"]); r.shuffle(pts)
    groups = {}
    for p in pts: groups.setdefault((p["loss"], tuple(p["par"])), []).append(p)
    ev = []; n = 0
    hung = 0
    for p in pts:
        if hung > 2: break
        L = make(p["loss"], p["par"]); form = r.randrange(5)
        o, v = attempt(lambda: one(L, p, form), 5); hung += o == "hang"
        ev.append(dict(op="point", p=p, out=o, g=v[0] if o == "ok" else [0], h=v[1] if o == "ok" else [0], shape=v[2] if o == "ok" else 0))
        if len(ev) == 80: n += 1; yield dict(id="points%d" % n, ev=ev); ev = []
    # whole arrays at once
    for gi, ((l, par), ps) in enumerate(sorted(groups.items())):
        if l == "softmax": continue
        for rep in range(2 if tier == "quick" else 20):
            q = [r.choice(ps) for _ in range(r.choice([2, 3, 6, 12]))]; L = make(l, par)
            shape = (len(q),) if rep % 2 else (len(q) // 2, 2) if len(q) % 2 == 0 else (len(q), 1)
            Y, X = np.array([float(label(p)) for p in q]).reshape(shape), np.array([score(p) for p in q]).reshape(shape)
            KY, KX = Y.copy(), X.copy()
            o, v = attempt(lambda: (L.compute_grad(Y, X), L.compute_hess(Y, X)), 5); hung += o == "hang"
            ok = o == "ok" and np.shape(v[0]) == shape == np.shape(v[1])
            for k, p in enumerate(q):
                ev.append(dict(op="point", p=p, out=o, g=[mu(np.ravel(v[0])[k])] if ok else [0], h=[mu(np.ravel(v[1])[k])] if ok else [0], shape=int(ok and (KY == Y).all() and (KX == X).all())))
        n += 1; yield dict(id="points%d" % n, ev=ev); ev = []
        if hung > 2: return
    # tables
    for (l, par), ps in sorted(groups.items()):
        for rep in range(10 if tier == "quick" else 100):
            q = [r.choice([p for p in ps if l != "tweedie" or f(p["z"]) <= 2]) for _ in range(r.choice([1, 1, 2, 3, 7, 20]))]
            if l == "softmax": m = len(q[0]["z"]); q = [p for p in q if len(p["z"]) == m]
            L = make(l, par); wrap = r.random() < .5
            def x(p): v = score(p); return v if l == "softmax" or not wrap else np.array([v])
            a = [("k%d" % k, label(p)) for k, p in enumerate(q)]; c = [("k%d" % k, x(p)) for k, p in enumerate(q)]
            for k in range(r.choice([0, 0, 1, 3])): a.append(("a%d" % k, label(q[0])))
            for k in range(r.choice([0, 0, 1, 3])): c.append(("c%d" % k, x(q[-1])))
            r.shuffle(a); r.shuffle(c)
            o, v = attempt(lambda: float(np.ravel(L.compute_loss(DTable(True, a), DTable(True, c)))[0]), 5); hung += o == "hang"
            ev.append(dict(op="mean", ps=q, out=o, v=mu(v) if o == "ok" else 0))
            if hung > 2: break
    yield dict(id="means", ev=ev); ev = []
    # starts
    for l in ["lse", "lae", "huber", "fair", "log_cosh", "tweedie", "binary", "softmax"]:
        for rep in range(15 if tier == "quick" else 150):
            m = r.choice([1, 2, 3, 4, 5, 9, 30, 80]); L = make(l, [1, 2]); dim = 1
            if l in ("binary", "softmax"): y = [r.randrange(4) for _ in range(m)]; kind = "zero"
            else:
                y = [r.randint(-20, 20) / r.choice([1, 2, 4, 8]) for _ in range(m)]; kind = "median" if l == "lae" else "mean"
                if r.random() < .2: y = [abs(v) + .5 for v in y]
                if r.random() < .2: y = [-abs(v) - .5 for v in y]
                if r.random() < .3: y = [int(v) for v in y]
            ks = list(range(m)); r.shuffle(ks); t = DTable(True, list(zip(ks, y)))
            if l == "softmax": dim = r.choice([3, 4, 7])
            o, v = attempt(lambda: L.initialize(t, dim) if l == "softmax" else L.initialize(t), 10); hung += o == "hang"
            def look(): return [[mu(z) for z in np.atleast_1d(w)] for _, w in v[0].collect()], [mu(z) for z in np.atleast_1d(v[1])], int(sorted(k for k, _ in v[0].collect()) == sorted(ks) and dict(t.collect()) == dict(zip(ks, y)))
            if o == "ok": o, w = attempt(look, 5)
            ev.append(dict(op="start", loss=l, kind=kind, dim=dim, y=[mu(z) for z in y], out=o, rows=w[0] if o == "ok" else [], init=w[1] if o == "ok" else [], kept=w[2] if o == "ok" else 0))
            if hung > 2: break
        yield dict(id="starts " + l, ev=ev); ev = []
        if hung > 2: return
    # link functions
    zs = [[a, b] for a in range(1, 10) for b in range(1, 10)]
    for fn in ["sigmoid", "tanh", "log_logistic", "softplus", "softsign", "hard_sigmoid"]:
        for z in zs:
            if fn in ("softsign", "hard_sigmoid"): z = [r.choice([-1, 1]) * z[0], z[1]]; x = f(z)
            else: x = math.log(f(z))
            g = r.choice([float, np.float64, lambda x: np.array([x])])
            F = getattr(A, fn) if fn != "sigmoid" or r.random() < .5 else Bin.predict
            o, v = attempt(lambda: float(np.ravel(F(g(x)))[0]), 5)
            ev.append(dict(op="link", fn=fn, z=z, out=o, v=mu(v) if o == "ok" else 0))
    yield dict(id="links", ev=ev); ev = []
    for k in range(100 if tier == "quick" else 2000):
        m = r.choice([1, 2, 3, 5, 9]); rows = [[r.randint(1, 40) for _ in range(m)] for _ in range(r.choice([1, 1, 3]))]
        X = np.array([[math.log(w) + s for w in ws] for ws, s in zip(rows, [r.choice([0, 0, -3.5, 700, 1e4, -1e4]) for _ in rows])])
        keep = X.copy()
        if len(rows) == 1: o, v = attempt(lambda: [r.choice([A.softmax, Soft.predict])(X[0])], 5)
        elif k % 2: o, v = attempt(lambda: A.softmax(X), 5)
        else: o, v = attempt(lambda: A.softmax(X.T, axis=0).T, 5)
        if o == "ok" and not (keep == X).all(): o = "input changed"
        for j, ws in enumerate(rows): ev.append(dict(op="probs", w=ws, out=o, v=[mu(z) for z in v[j]] if o == "ok" else []))
    yield dict(id="probabilities", ev=ev); ev = []
    # far away
    for N in [40, -40, 710, -720, 1000, -1000, 1900, -1900]:
        o, v = attempt(lambda: float(A.sigmoid(float(N))), 5); ev.append(dict(op="far", what="sigmoid", n=N, out=o, v=[mu(v)] if o == "ok" else []))
        o, v = attempt(lambda: float(A.log_logistic(float(N))), 5); ev.append(dict(op="far", what="log_logistic", n=N, out=o, v=[mu(v)] if o == "ok" else []))
        b = r.choice([0, 7, -3]); L = R.LogCoshLoss()
        o, v = attempt(lambda: [float(np.ravel(L.compute_loss(DTable(True, [(1, b)]), DTable(True, [(1, np.array([b + N]))])))[0]), float(L.compute_grad(b, b + N)), float(L.compute_hess(b, b + N))], 5)
        ev.append(dict(op="far", what="log_cosh", n=N, out=o, v=[mu(x) for x in v] if o == "ok" else []))
        x = [0.0, 3.0, -2.0]; at = r.randrange(3); x = [v - abs(N) for v in x]; x[at] = abs(N)
        o, v = attempt(lambda: [float(z) for z in A.softmax(np.array(x))], 5); ev.append(dict(op="far", what="softmax", n=at + 1, out=o, v=[mu(z) for z in v] if o == "ok" else []))
    for y in (0, 1):
        for p in (0.0, 1.0):
            o, v = attempt(lambda: float(np.ravel(Bin.compute_loss(DTable(True, [(1, y)]), DTable(True, [(1, p)])))[0]), 5)
            ev.append(dict(op="far", what="certain", n=int(y == p), out=o, v=[mu(v)] if o == "ok" else []))
            o, v = attempt(lambda: float(Soft.compute_loss(DTable(True, [(1, y)]), DTable(True, [(1, np.array([1 - p, p]))]))), 5)
            ev.append(dict(op="far", what="certain", n=int(y == p), out=o, v=[mu(v)] if o == "ok" else []))
    for k in range(3, 13):     # probabilities of 10^-k and 1 - 10^-k
        p = 10.0 ** -k; m = r.choice([2, 3, 5]); at = r.randrange(m); v_ = np.full(m, (1 - p) / (m - 1)); v_[at] = p; co = (at + 1) % m
        def few(L, y, x, c=None):
            pick = lambda v: float(np.ravel(v)[0 if c is None else c])
            return [float(np.ravel(L.compute_loss(DTable(True, [(1, y)]), DTable(True, [(1, x)])))[0]), pick(L.compute_grad(y, x)), pick(L.compute_hess(y, x))]
        for f_, what in ((lambda: few(Bin, 1, p), "unlikely"), (lambda: few(Soft, at, v_.copy(), at), "unlikely"), (lambda: [0] + few(Bin, 0, p)[1:], "small"), (lambda: [0] + few(Soft, co, v_.copy(), at)[1:], "small")):
            o, v = attempt(f_, 5)
            if o == "ok": v = [mu(v[0]), mu(v[1] / (p if what == "small" else 1)), mu(v[2] / p)]
            ev.append(dict(op="far", what=what, n=k, out=o, v=v if o == "ok" else []))
    for k in range(1, 16):      # small and large residuals of the squared error
        for z in (2.0 ** -k * 3, -(2.0 ** -k) * 5, 7.0 * 4 ** k):
            y = r.choice([0, 1, -2]); L = R.LeastSquaredErrorLoss()
            o, v = attempt(lambda: [float(np.ravel(L.compute_loss(DTable(True, [(1, y)]), DTable(True, [(1, y + z)])))[0]) / z / z, float(L.compute_grad(y, y + z)) / z, float(L.compute_hess(y, y + z))], 5)
            ev.append(dict(op="far", what="square", n=k, out=o, v=[mu(x) for x in v] if o == "ok" else []))
    for l in ("huber", "fair"):
        for z in (0, 1, -3, 25):
            L = make(l, None, True)
            o, v = attempt(lambda: [float(L.compute_grad(2, 2 + z)), float(L.compute_hess(2, 2 + z))], 5)
            ev.append(dict(op="far", what="fallback", n=z, out=o, v=[mu(x) for x in v] if o == "ok" else []))
    yield dict(id="far", ev=ev)

def corrupt(t):
    import copy
    out = []
    if t["id"] in ("points1", "means"):
        for k, f in (("g", 20), ("h", 20), ("v", 100)):
            if k in t["ev"][5]:
                u = copy.deepcopy(t)
                if k == "v": u["ev"][5]["v"] += f
                else: u["ev"][5][k][0] += f
                out.append(u)
    return out
