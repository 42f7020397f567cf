"""C18: fitted trees of every party saved, written out, read back, loaded into fresh objects, saved again; predictions compared."""
DESIGN = [dict(module="ModelIOMC", cfg="ModelIOMC_none.cfg", min_states=1000),
          dict(module="ModelIOMC", cfg="ModelIOMC_weight.cfg", expect="Same"),
          dict(module="ModelIOMC", cfg="ModelIOMC_children.cfg", expect="Same"),
          dict(module="ModelIOMC", cfg="ModelIOMC_site.cfg", expect="Same"),
          dict(module="ModelIOMC", cfg="ModelIOMC_mask.cfg", expect="Same"),
          dict(module="ModelIOMC", cfg="ModelIOMC_thorough.cfg", min_states=10000, thorough=True, timeout=2400)]
GEN = [dict(name="g", module="TreeMC", cfg="TreeGen.cfg", simulate=dict(quick=60, thorough=600), depth=30, timeout=1500)]
TRACE = "ModelIOTrace"
CHUNK = 200
MUST_SEE = ["live", "saved", "loaded", "resaved", "pred"]
ASSUMPTIONS = ["the generated message classes are used with the installed protobuf library or, where it is missing, a stand-in for it"]

def drive(tier, seed, gen):
    import realcode
    realcode.compat()
    import fed, treecheck
    from drv import rng, attempt
    NONE = (None, -1)
    def nodes(q):
        out = []
        for x in q:
            leaf = bool(x.is_leaf); z = lambda v: repr(0.0) if v is None else repr(float(v))
            out.append(dict(id=int(x.id), site=str(x.sitename), fid=repr(0 if x.fid is None else int(x.fid)), bid=z(x.bid), w=z(x.weight), leaf=leaf,
                            l=-1 if x.left_nodeid is None else int(x.left_nodeid), r=-1 if x.right_nodeid is None else int(x.right_nodeid)))
        return out
    def mask(m): return sorted([int(k), repr(float(v))] for k, v in m.items())
    def live(o, guest):
        s = [repr(float(v)) for v in (o.max_depth, o.min_sample_split, o.min_impurity_split, o.min_leaf_node)]
        if guest: s += [str(o.criterion_method)] + [repr(float(v)) for v in o.criterion_params]
        return dict(nodes=nodes(o.tree_), mask=mask(o.split_maskdict), set=s)
    def message(m, p, guest):
        s = [repr(float(v)) for v in (m.max_depth, m.min_sample_split, m.min_impurity_split, m.min_leaf_node)]
        if guest: s += [str(m.criterion_meta.criterion_method)] + [repr(float(v)) for v in m.criterion_meta.criterion_param]
        return dict(nodes=nodes(p.tree_), mask=mask(p.split_maskdict), set=s)
    def ev(t, op, f):
        o, v = attempt(f, 20)
        t["ev"].append(dict(op=op, out=o, **v) if o == "ok" else dict(op=op, out=o, nodes=[], mask=[], set=[])); return o == "ok"
    def one(d, name, module, r):
        alone = module.startswith("xgboost")
        run = fed.fit_tree(d, [r.randint(0, 3) for _ in range(9)], "sealed", module=module)
        if run.out != "ok": yield dict(id=name, ev=[dict(op="live", out=run.out, nodes=[], mask=[], set=[])]); return
        import importlib
        from ml.tree.hetero_decision_tree_host import HeteroDecisionTreeHost as H
        from ml.param.boosting_tree_param import DecisionTreeParam
        G = importlib.import_module(module).HeteroDecisionTreeGuest
        objs = [run.guest] + run.hosts; loaded = []; first = None
        for p, o in enumerate(objs):
            t = dict(id="%s_%d" % (name, p), ev=[]); first = first or t
            ok = ev(t, "live", lambda: live(o, p == 0)); box = {}
            def save():
                box["m"], box["p"] = o.get_model(); return message(box["m"], box["p"], p == 0)
            ok = ok and ev(t, "saved", save)
            def load():
                m, q = box["m"], box["p"]
                if r.random() < .6:      # through bytes, as to a file
                    m2, q2 = type(m)(), type(q)(); m2.ParseFromString(m.SerializeToString()); q2.ParseFromString(q.SerializeToString()); m, q = m2, q2
                n = (G if p == 0 else H)(DecisionTreeParam(criterion_params=[0.7], max_depth=9, min_sample_split=11, min_imputiry_split=0.3, min_leaf_node=7))
                if r.random() < .3: n.load_model(m, q)       # loading twice is loading once
                n.load_model(m, q); n.set_flowid("0.0")
                if p: n.set_runtime_idx(run.idx[p - 1])
                loaded.append(n); return live(n, p == 0)
            ok = ok and ev(t, "loaded", load)
            ok = ok and ev(t, "resaved", lambda: message(*loaded[-1].get_model(), p == 0))
            if ok:      # an export is a copy: changing the loaded tree's source does not change it
                ok = ev(t, "saved", lambda: message(box["m"], box["p"], p == 0))
            t["ok"] = ok
            if p == len(objs) - 1 and len(loaded) == len(objs):
                k = len(d["NX"][0])
                for X, keys in ((d["X"], d["keys"]), (d["NX"], ["n%d" % j for j in range(k)])):
                    h1, a = fed.predict_tree(d, None, X, keys, module=module, objs=objs); h2, c = fed.predict_tree(d, None, X, keys, module=module, objs=loaded)
                    f = lambda q: [repr((k, float(v))) for k, v in q.collect()]
                    o2 = h1.verdict() if h1.verdict() != "ok" else h2.verdict()
                    o3, w = attempt(lambda: (f(c), f(a)), 10) if o2 == "ok" else (o2, ([], []))
                    t["ev"].append(dict(op="pred", out=o3 if o2 == "ok" else o2, got=w[0] if o3 == "ok" else [], want=w[1] if o3 == "ok" else []))
            t.pop("ok"); yield t
    bad = 0
    for i in range(110 if tier == "quick" else 1500):
        r = rng(seed, "c18", i); alone = i % 5 == 4
        d = treecheck.spec_data(gen["g"][i // 3 % len(gen["g"])], r) if i % 3 == 0 and not alone else (fed.large if i % 30 == 7 else fed.tree_data)(r, nh=0 if alone else None)
        if alone and len(d["X"]) > 1: d = fed.tree_data(r, nh=0)
        d["minum"], d["miden"] = r.choice([(0, 1), (1, 1000), (1, 3), (1, 7)]); d["depth"] = max(d["depth"], 5) if d["n"] > 11 else r.choice([2, 3, 4, 5]); d["more"] = r.choice([[], [], [1], [0.5, 2]])
        for t in one(d, "t%d%s" % (i, "a" if alone else ""), "xgboost.hetero_decision_tree_guest" if alone else "ml.tree.hetero_decision_tree_guest", r):
            bad += any(e["out"] != "ok" for e in t["ev"]); yield t
        if bad > 5: return

def corrupt(t):
    import copy
    out = []
    for op in ("loaded", "resaved"):
        u = copy.deepcopy(t); k = [e for e in u["ev"] if e["op"] == op and e["nodes"]]
        if k: k[0]["nodes"][-1]["w"] = "9.5"; out.append(u)
    u = copy.deepcopy(t); k = [e for e in u["ev"] if e["op"] == "pred"]
    if k: k[0]["got"] = k[0]["got"][1:]; out.append(u)
    return out
