"""C28: labels, samples, sparse vectors and the vector helpers, on vectors generated from the specification and on tables of labels."""
DESIGN = [dict(module="SamplesMC", cfg="SamplesMC_none.cfg", min_states=40000)] + \
         [dict(module="SamplesMC", cfg="SamplesMC_%s.cfg" % f, expect=x) for f, x in (("packed", "Faithful"), ("tail", "Counted"), ("negative", "Faithful"), ("default", "Faithful"), ("each", "LabelsRight"), ("sum", "LabelsRight"), ("lost", "Total"))] + \
         [dict(module="SamplesMC", cfg="SamplesMC_thorough.cfg", min_states=300000, thorough=True, timeout=2400)]
GEN = [dict(name="d", module="SamplesMC", cfg="SamplesMC_gen.cfg", simulate=dict(quick=400, thorough=6000), depth=14, timeout=600)]
TRACE = "SamplesTrace"
CHUNK = 400
MUST_SEE = ["sparse", "row", "labels", "many", "numeric", "empty", "held", "plus", "dot", "mat", "norm"]
ASSUMPTIONS = ["feature values are multiples of 2^-20", "NaN is not used", "norms are of vectors"]
UNIT = 2**20; NONE = -999; ODD = 2 * 10**9

def drive(tier, seed, gen):
    import realcode
    realcode.compat()
    import numpy as np
    from computing.d_table import DTable
    from ml.feature.instance import Instance
    from ml.feature.sparse_vector import SparseVector
    from ml.tree.boosting_tree import BoostingTree
    from ml.utils.classfiy_label_checker import ClassifyLabelChecker, RegressionLabelChecker
    from ml.utils import fate_operator as fo
    from xgboost.hetero_secureboosting_tree_guest import HeteroSecureBoostingTreeGuest as Alone
    from drv import rng, attempt
    def code(v, unit=UNIT):
        if v is None: return NONE
        try:
            f = float(v) * unit
            return int(round(f)) if abs(f - round(f)) < 1e-3 and abs(f) < 10**9 else ODD
        except Exception: return ODD
    def ask(sv, n, r):
        out = []
        for pos in list(range(n)) + [n, n + 3]:
            k = r.randrange(3)
            out.append([pos, (NONE, 0, 77 * UNIT)[k], code(sv.get_data(pos) if k == 0 else sv.get_data(pos, (None, 0, 77)[k]))])
        return out
    def look(sv, n, r): return dict(stored=[[int(p), code(v)] for p, v in sv.get_all_data()], shape=int(sv.get_shape()), nz=int(sv.count_non_zeros()), z=int(sv.count_zeros()), gets=ask(sv, n, r))
    def array(d, r):
        v = [x / UNIT for x in d]
        if all(x == int(x) for x in v) and r.random() < .5: return np.array([int(x) for x in v], dtype=int)
        return np.array(v, dtype=r.choice(["float64", "float64", "float32"]))
    for i, g in enumerate(gen["d"]):
        r = rng(seed, "c28", i)
        if i % 25 == 24: g = dict(g, dense=[r.choice(g["dense"] + [UNIT * r.randint(-99, 99)]) for _ in range(r.choice([70, 150, 300]))])
        w = len(g["dense"])
        m = r.randint(1, 4); rows = [g["dense"]] + [[r.choice(g["dense"] + [0, 5 * UNIT]) for _ in range(w)] for _ in range(m - 1)]
        kinds = ["dense" if j == 0 or r.random() < .7 else "sparse" for j in range(m)]; items = []
        for j in range(m):
            d = rows[j]
            if kinds[j] == "sparse":
                ps = [k for k in range(w) if r.random() < .6]; r.shuffle(ps); f = SparseVector(ps, [d[k] / UNIT for k in ps], w); rows[j] = [[k, d[k]] for k in ps]
            else: f = array(d, r)
            items.append((r.choice([j, "s%d" % j]), Instance(inst_id=10 * i + j, weight=r.choice([1.0, 2.5, 0.25]), features=f, label=r.choice([0, 1, 3]))))
        t = DTable(True, items); t.schema = {"header": ["x%d" % k for k in range(w)], "sid_name": "id"}
        want = [[str(k), x.inst_id, code(x.weight, 4), x.label] for k, x in items]
        o, new = attempt(lambda: BoostingTree().data_alignment(t), 20); ev = []
        got = []
        if o == "ok":
            o, got = attempt(lambda: [(k, x) for k, x in new.collect()], 10)
        o2, pairs = attempt(lambda: [[str(k), x.inst_id, code(x.weight, 4), x.label] for k, x in got], 10) if o == "ok" else ("ok", [])
        o3, same = attempt(lambda: new.schema == {"header": ["x%d" % k for k in range(w)], "sid_name": "id"}, 10) if o == "ok" else ("ok", False)
        ev.append(dict(op="row", out=o if o != "ok" else o2 if o2 != "ok" else "ok" if same else "schema lost", got=pairs if o2 == "ok" else [], want=want))
        if o == "ok" and len(got) == m:
            for j in range(m):
                e = dict(op="sparse", d=rows[j], width=w, **{"from": kinds[j]}); e["out"], x = attempt(lambda: look(got[j][1].features, w, r), 10)
                if e["out"] == "ok": e.update(x)
                ev.append(e)
        # built directly, with stored zeros and tiny values
        ps = r.sample(range(w), r.randint(0, w)); f = lambda: look(SparseVector(ps, [g["dense"][k] / UNIT for k in ps], w), w, r)
        e = dict(op="sparse", d=[[k, g["dense"][k]] for k in ps], width=w, **{"from": "built"}); e["out"], x = attempt(f, 10)
        if e["out"] == "ok": e.update(x)
        ev.append(e)
        yield dict(id="v%d" % i, ev=ev)
    reps = 60 if tier == "quick" else 1500
    POOLS = [[0, 1], [0.0, 1.0, 2.0], [1, 1.0, "1", 2], ["a", "b", "c", "A"], [-1, 1], [True, 0, 2], list(range(7)), [np.float64(3), 3, 4], [0.5, 1.5, "x"]]
    for i in range(reps):
        r = rng(seed, "c28l", i); pool = r.choice(POOLS); ev = []
        n = r.choice([0, 1, 2, 5, 12]); ls = [r.choice(pool) for _ in range(n)]; ids = []
        for v in pool:
            k = [j for j, u in enumerate(ids) if u == v]
            if not k: ids.append(v)
        cls = lambda v: ([j for j, u in enumerate(ids) if u == v and not (isinstance(u, str) != isinstance(v, str))] or [98])[0]
        y = DTable(True, [(("k%d" % j if i % 2 else j), v) for j, v in enumerate(ls)])
        o, x = attempt(lambda: (lambda z: (int(z[0]), [cls(v) for v in list(z[1])]))(ClassifyLabelChecker.validate_y(y)), 10)
        ev.append(dict(op="labels", out=o, ls=[cls(v) for v in ls], n=x[0] if o == "ok" else 0, found=x[1] if o == "ok" else []))
        good = [1, 0, -3, 2.5, "7", "1e3", " 4 ", True, np.float64(.5), "-0.25", 10**12]; bad = ["abc", None, "", "1,5", [1, 2], "0x1g", {}, "--3", "true"]
        q = [r.choice(good) for _ in range(r.randint(0, 6))]; b = [r.choice(bad) for _ in range(r.choice([0, 0, 1, 1, 2]))]; both = q + b; r.shuffle(both)
        if r.random() < .3: both = q + b
        yn = DTable(False, both)
        ev.append(dict(op="numeric", n=len(both), bad=len(b), out=attempt(lambda: RegressionLabelChecker.validate_y(yn), 10)[0]))
        n = r.choice([0, 0, 1, 3]); t = DTable(False, [Instance(inst_id=j, features=np.array([1.0]), label=1) for j in range(n)]); t.schema = {"header": ["x"]}
        ev.append(dict(op="empty", n=n, out=attempt(lambda: BoostingTree().data_alignment(t), 10)[0]))
        if n == 0 and i % 6 == 0:
            def fit():
                a = Alone(); a._init_model(a.model_param); a.fit(data_instances=t)
            ev.append(dict(op="empty", n=0, out=attempt(fit, 20)[0]))
        # a sample and its setters
        x = Instance() if r.random() < .3 else Instance(inst_id=5, weight=2.0, features="f", label=3); now = [NONE, 4, "None", "None"] if x.inst_id is None else [5, 8, "f", "3"]
        for _ in range(r.randint(1, 5)):
            a = r.choice(["weight", "label", "feature", "plain", "default"])
            if a == "weight": v = r.randint(0, 20); x.set_weight(v / 4); now[1] = v
            elif a == "label": v = r.choice([0, 1, -1, 2.5, "z"]); x.set_label(v); now[3] = str(v)
            elif a == "feature": v = r.choice(["g", "h", 3]); x.set_feature(v); now[2] = str(v)
            elif a == "default": x.set_weight(); now[1] = 4
            else: x.set_label(label=7); now[3] = "7"
            ev.append(dict(op="held", got=[NONE if x.inst_id is None else int(x.inst_id), code(x.weight, 4), str(x.features), str(x.label)], want=list(now)))
        # partial results
        for _ in range(4):
            k = r.randint(1, 4); one = r.random() < .3
            vec = lambda: [] if r.random() < .25 else [[r.randint(-9, 9) for _ in range(1 if one else k)]]
            a, b = vec(), vec(); form = r.choice([lambda v: np.array(v), list, tuple]); give = lambda v: None if not v else (v[0][0] if one else form(v[0]))
            o, x = attempt(lambda: (lambda z: [] if z is None else [[code(u, 1) for u in ([z] if one else list(z))]])(fo.reduce_add(give(a), give(b))), 10)
            ev.append(dict(op="plus", x=a, y=b, out=o, got=x if o == "ok" else []))
        # dot products and norms
        for _ in range(3):
            k = r.randint(1, 6); m = r.randint(1, 4); X = [[r.choice([0, 0, 1, -1, 4, 7, -20, 2]) for _ in range(k)] for _ in range(m)]; w = [r.randint(-16, 16) for _ in range(k)]
            num = lambda v: v / 4 if v else r.choice([0.0, 0.0, 9e-6, -1e-7]) if small else 0.0
            small = r.random() < .3; W = np.array(w) / 4; c16 = lambda v: code(v, 16) if not small else (lambda f: int(round(f)) if abs(f - round(f)) < .05 else ODD)(float(v) * 16)
            style = r.choice(["one", "sample", "rows", "list", "mat"])
            if style in ("one", "sample"):
                f = np.array([num(v) for v in X[0]]); a = Instance(features=f) if style == "sample" else f
                o, x = attempt(lambda: [c16(fo.dot(a, W))], 10); ev.append(dict(op="dot", rows=X[:1], w=w, out=o, got=x if o == "ok" else []))
            elif style in ("rows", "list"):
                f = [[num(v) for v in q] for q in X]; f = np.array(f) if style == "rows" else f
                o, x = attempt(lambda: [c16(v) for v in fo.dot(f, W)], 10); ev.append(dict(op="dot", rows=X, w=w, out=o, got=x if o == "ok" else []))
            else:
                C = [[r.randint(-8, 8) for _ in range(k)] for _ in range(r.randint(1, 3))]
                f = np.array([[v / 4 for v in q] for q in X]); M = np.array(C).T / 4
                o, x = attempt(lambda: [[code(v, 16) for v in q] for q in fo.dot(f, M)], 10); ev.append(dict(op="mat", rows=X, w=C, out=o, got=x if o == "ok" else []))
            v = [r.randint(-20, 20) for _ in range(r.randint(1, 6))]; p = r.choice([0, 1, 2, 2, 2, 3, 99]); q = {0: r.choice([0, 0.5, -1, 0.99]), 99: np.inf}.get(p, p)
            f = [u / 4 for u in v]; f = np.array(f) if r.random() < .5 else f
            o, x = attempt(lambda: float(fo.norm(f) if p == 2 and r.random() < .5 else fo.norm(f, q)), 10)
            if o == "ok" and p: z = (x * 4) ** (1 if p == 99 else p); x = int(round(z)) if abs(z - round(z)) < 1e-3 else ODD
            ev.append(dict(op="norm", v=v, p=p, out=o, got=x if o == "ok" and p else 0))
        yield dict(id="l%d" % i, ev=ev)
    for k in (999, 1000, 1001, 1002, 1500):
        ev = []
        for style in range(3):
            ls = [("c%d" % (j % k) if style == 1 else j % k) for j in range(k + (0, 17, k)[style])]
            o, x = attempt(lambda: (lambda z: (int(z[0]), len(set(z[1]))))(ClassifyLabelChecker.validate_y(DTable(False, ls))), 20)
            ev.append(dict(op="many", k=k, out=o, n=x[0] if o == "ok" else 0, found=x[1] if o == "ok" else 0))
        yield dict(id="many%d" % k, ev=ev)

def corrupt(t):
    import copy
    out = []
    for j, e in enumerate(t["ev"]):
        u = copy.deepcopy(t); k = u["ev"][j]
        if e["op"] == "sparse" and e.get("gets") and t["id"] == "v3": k["gets"][0][2] += 2; out.append(u)
        elif e["op"] == "labels" and t["id"] == "l1": k["n"] += 1; out.append(u)
        elif e["op"] == "norm" and e["p"] and t["id"] == "l1": k["got"] += 1; out.append(u)
        elif e["op"] == "many" and t["id"] == "many1001" and j == 0: k["k"] = 1000; out.append(u)
    return out
