"""Records booster runs for the boosting and prediction specifications (C10, C11)."""
import math, contextlib, inspect, threading
import numpy as np
import boost, fed
from drv import rng
M = 10**6
CAP = 2 * 10**9
def mu(v):
    try:
        v = float(v)
        if v != v: return CAP
        return max(-CAP, min(CAP, int(round(v * M))))
    except Exception: return CAP

def tree_class(alone):
    if alone: from xgboost.hetero_decision_tree_guest import HeteroDecisionTreeGuest as T
    else: from ml.tree.hetero_decision_tree_guest import HeteroDecisionTreeGuest as T
    return T

@contextlib.contextmanager
def watch(alone, on_input=None, on_fit=None, on_predict=None):
    """Observes every guest tree: what it is given, what it returns."""
    T = tree_class(alone); own = {}
    def wrap(name, f):
        old = getattr(T, name)
        def new(self, *a, **k): return f(old, self, *a, **k)
        own[name] = T.__dict__.get(name); setattr(T, name, new)
    def inp(old, self, *a, **k):
        if on_input: on_input(list(inspect.signature(old).bind(self, *a, **k).arguments.values())[2])      # by place, not by name
        return old(self, *a, **k)
    def fit(old, self, *a, **k):
        r = old(self, *a, **k)
        if on_fit: on_fit(self)
        return r
    def pre(old, self, *a, **k):
        r = old(self, *a, **k)
        if on_predict: on_predict(r)
        return r
    wrap("set_inputinfo", inp); wrap("fit", fit); wrap("predict", pre)
    try: yield
    finally:
        for n, o in own.items():
            if o is None: delattr(T, n)
            else: setattr(T, n, o)

def sig(f): return 1 / (1 + math.exp(-f)) if f >= 0 else math.exp(f) / (1 + math.exp(f))
def softmax(fs):
    m = max(fs); e = [math.exp(f - m) for f in fs]; t = sum(e)
    return [x / t for x in e]
def gh(b, k, y, fs, d):
    """(gradient, hessian) by definition, for label (class number or value) y at the scores fs."""
    o = b["objective"]; par = (b.get("objparams") or [None])[0]
    if o == "cross_entropy":
        p = sig(fs[0]) if k == 2 else softmax(fs)[d]
        return p - (y if k == 2 else int(y == d)), p * (1 - p)
    x = fs[0] - y
    if o == "lse": return 2 * x, 2
    if o == "lae": return (1 if x > 1e-6 else -1 if x < -1e-6 else 0), 1
    if o == "huber": return x / math.sqrt(1 + x * x / par**2), (1 + x * x / par**2) ** -1.5
    if o == "fair": return par * x / (par + abs(x)), par**2 / (par + abs(x))**2
    if o == "log_cosh": return math.tanh(x), 1 - math.tanh(x)**2
    if o == "tweedie": a, c = math.exp((1 - par) * fs[0]), math.exp((2 - par) * fs[0]); return c - y * a, y * (par - 1) * a + (2 - par) * c
def loss(b, k, ys, F):
    o = b["objective"]; par = (b.get("objparams") or [None])[0]; t = 0
    for y, fs in zip(ys, F):
        x = fs[0] - y
        if o == "cross_entropy": q = (sig(fs[0]) if y == 1 else 1 - sig(fs[0])) if k == 2 else softmax(fs)[y]; t += -math.log(max(q, 1e-300))
        elif o == "lse": t += x * x
        elif o == "lae": t += abs(x)
        elif o == "huber": t += par**2 * (math.sqrt(1 + (x / par)**2) - 1)
        elif o == "fair": t += par**2 * (abs(x) / par - math.log(abs(x) / par + 1))
        elif o == "tweedie": t += math.exp((2 - par) * fs[0]) / (2 - par) - y * math.exp((1 - par) * fs[0]) / (1 - par)
        elif o == "log_cosh": t += math.log(math.cosh(x))
    return t / len(ys)

def scores(tab, keys):
    d = dict(tab.collect()); return [[float(x) for x in np.atleast_1d(d[k])] for k in keys]
def rows(F): return [[mu(x) for x in f] for f in F]

def run_idx(run): return fed.idx_of(run.b, len(run.hosts))
def share(imp, idx):
    """Feature importances as sorted (party, feature, thousandths)."""
    try: return sorted([fed.site_no(k[0], idx), int(k[1]), max(-CAP // 4, min(CAP // 4, int(round(float(v) * 1000))))] for k, v in imp.items())
    except Exception: return [[-9, -9, -9]]

def record(b, i, alone, schedule=(0,), predict=True, name="boost"):
    """One training and the predictions after it: (trace for Boost, run)."""
    r = rng(b["npseed"], "rec", i)
    n, keys = b["n"], b["keys"]
    cls = sorted(set(b["y"])) if b["task"] == "classification" else None
    k = len(cls) if cls else 1; dim = k if k > 2 else 1
    ys = [cls.index(y) for y in b["y"]] if cls else [float(y) for y in b["y"]]
    from fractions import Fraction
    lr = Fraction(str(b["lr"]))
    p = dict(n=n, dim=dim, rounds=b["trees"], lrn=lr.numerator, lrd=lr.denominator, stop=int(b["stop"]), tol=mu(b["tol"]),
             start="zero" if cls else "median" if b["objective"] == "lae" else "mean", y=[mu(y) for y in ys] if not cls else [0])
    ev = []; T = dict(id="%s%d%s" % (name, i, "a" if alone else ""), p=p, ev=ev); st = dict(cnt=0, F0=None, want=[], box=None)
    def guestF(): return scores(st["box"].guest.F, keys)
    def on_input(g):
        d = st["cnt"] % dim; F = guestF()
        if st["cnt"] == 0: ev.append(dict(op="init", f=rows(F)))
        else: ev.append(dict(op="after", f=rows(F)))
        if d == 0:
            if st["cnt"]: st["want"].append(mu(loss(b, k, ys, F)))
            st["F0"] = F
        g = dict(g.collect()); eg = [gh(b, k, y, f, d) for y, f in zip(ys, st["F0"])]
        ev.append(dict(op="tree", at=rows(st["F0"]), g=[mu(g[x][0]) for x in keys], h=[mu(g[x][1]) for x in keys], eg=[mu(x) for x, _ in eg], eh=[mu(x) for _, x in eg]))
        st["cnt"] += 1
    shares = []
    def on_fit(t):
        shares.append(share(t.get_feature_importance(), fed.idx_of(b, len(st["box"].hosts))))
        w = dict(t.predict_weights.collect()); ev.append(dict(op="grown", w=[mu(w[x]) for x in keys if x in w]))
    make = boost.make
    def making(*a, **kw):
        st["box"] = make(*a, **kw); return st["box"]
    boost.make = making
    try:
        with watch(alone, on_input, on_fit): run = boost.fit(b, schedule, alone)
    finally: boost.make = make
    ev.append(dict(op="end", out=run.out, trees=[len(o.trees_) for o in [run.guest] + run.hosts]) if run.out == "ok" else dict(op="end", out=run.out, trees=[]))
    if run.out != "ok": return T, run
    F = guestF(); ev.insert(len(ev) - 1, dict(op="after", f=rows(F)))
    if st["cnt"]: st["want"].append(mu(loss(b, k, ys, F)))
    ls = [mu(x) for x in run.guest.history_loss]
    if any(abs(abs(x - y) - p["tol"]) <= 3 for x, y in zip(ls, ls[1:])): p["stop"] = 0; p["rounds"] = len(ls)      # a tie the scaling cannot decide
    ev.insert(len(ev) - 1, dict(op="losses", l=ls, want=st["want"]))
    if isinstance(getattr(run.guest, "feature_importances_", None), dict):      # kept per feature, like those of a tree
        ev.insert(len(ev) - 1, dict(op="importances", trees=shares, total=share(run.guest.feature_importances_, run_idx(run))))
    run.k, run.cls, run.dim = k, cls, dim; run.bad = 0
    if predict:
        order = list(range(n)); r.shuffle(order)
        for c in (0, 2, 1):
            ws = []; idx = order; X = [[b["X"][q][j] for j in idx] for q in range(len(b["X"]))]; ks = [keys[j] for j in idx]
            num = [j + 1 for j in idx]
            if c == 1:     # other samples, some of them copies
                m = r.randint(1, 6); src = [r.randrange(n) if r.random() < .4 else -1 for _ in range(m)]
                X = [[list(b["X"][q][j]) if j >= 0 else [r.choice(b["X"][q])[f] + r.choice([0, 0, .5, -1, 50, -50]) for f in range(len(b["X"][q][0]))] for j in src] for q in range(len(b["X"]))]
                ks = ["n%d" % j for j in range(m)]; num = [j + 1 for j in src]
            if c == 2:      # the same keys in the same order, other samples
                src = idx[1:] + idx[:1] if r.random() < .5 else [r.randrange(n) for _ in range(n)]
                X = [[list(x[j]) for j in src] for x in b["X"]]; num = [j + 1 for j in src]
            def on_predict(t):
                d = dict(t.collect()); ws.append([mu(d[x]) for x in ks if x in d])
            with watch(alone, on_predict=on_predict):
                hub, res = boost.predict(run, X, ks, None, schedule[::-1], alone=alone, limit=30)
            o = hub.verdict()
            ok = o == "ok" and all(len(w) == len(ks) for w in ws)
            run.bad += not ok
            ev.append(dict(op="rescore", out=o if ok or o != "ok" else "rows lost", f=rows(scores(run.guest.F, ks)) if ok else [], ws=ws if ok else [], idx=num))
    return T, run
