"""C17: histories of calls generated from the specification, on tables the caller keeps; full snapshots after every call."""
DESIGN = [dict(module="CallerMC", cfg="CallerMC_none.cfg", min_states=200),
          dict(module="CallerMC", cfg="CallerMC_row.cfg", expect="Untouched"),
          dict(module="CallerMC", cfg="CallerMC_vector.cfg", expect="Untouched"),
          dict(module="CallerMC", cfg="CallerMC_table.cfg", expect="Untouched"),
          dict(module="CallerMC", cfg="CallerMC_label.cfg", expect="Untouched"),
          dict(module="CallerMC", cfg="CallerMC_thorough.cfg", min_states=5000, thorough=True, timeout=2400)]
GEN = [dict(name="h", module="CallerMC", cfg="CallerMC_gen.cfg", simulate=dict(quick=60, thorough=800), depth=12, timeout=600)]
TRACE = "CallerTrace"
CHUNK = 100
MUST_SEE = ["call", "again"]
ASSUMPTIONS = ["the caller's data are tables of Instance samples with array or sparse features, as the entry points build them"]

def drive(tier, seed, gen):
    import realcode
    realcode.compat()
    import copy
    import numpy as np
    import boost, fed
    from computing.d_table import DTable
    from ml.feature.binning.quantile_binning import QuantileBinning
    from ml.param.feature_binning_param import FeatureBinningParam
    from ml.statistic.statics import MultivariateStatisticalSummary
    from drv import rng, attempt
    def feats(f):
        if f is None: return "none"
        if hasattr(f, "get_all_data"): return "s%s%s" % (f.get_shape(), [(k, repr(v)) for k, v in f.get_all_data()])
        if isinstance(f, np.ndarray): return "d%s%s" % (f.dtype, [repr(x) for x in f.tolist()])
        return "?" + repr(f)
    def one(t):
        it = list(t.collect()); inst = [v for _, v in it]
        if inst and hasattr(inst[0], "features"):
            return dict(keys=[repr(k) for k, _ in it], feats=[feats(v.features) for v in inst], meta=[repr((v.label, v.inst_id, v.weight)) for v in inst],
                        schema=repr(t.schema), same=[id(v) % 10**9 for v in inst] + [id(v.features) % 10**9 for v in inst])
        return dict(keys=[repr(k) for k, _ in it], feats=[repr(v) for v in inst], meta=[], schema=repr(t.schema), same=[id(v) % 10**9 for v in inst])
    def view(ts): return [one(t) for t in ts]
    def clone(t):
        u = DTable(True, [(k, copy.deepcopy(v)) for k, v in t.collect()]); u.schema = copy.deepcopy(t.schema); return u
    def res(run):
        out = []
        for o in [run.guest] + run.hosts:
            for m in o.trees_: out.append(str([(x.id, x.sitename, x.fid, round(x.bid, 6), round(x.weight, 6), x.is_leaf, x.left_nodeid, x.right_nodeid) for x in m.tree_]) + str(sorted((k, round(v, 6)) for k, v in m.split_maskdict.items())))
        out += [repr(round(float(x), 6)) for x in getattr(run.guest, "history_loss", [])]
        return out
    def rows(t): return [repr((k, [x if isinstance(x, str) else repr(x)[:60] for x in v])) for k, v in t.collect()]
    bad = 0
    for i, g in enumerate(gen["h"]):
        r = rng(seed, "c17", i)
        if bad > 3: return
        forms = [[r.choice(["dense", "sparse"]) for _ in range(2)] for _ in range(2)]
        b = boost.data(r, nh=1, trees=1 + i % 2, depth=2, stop=False, rate=1.0, mode="strict")
        if i % 5 == 1: b["X"] = [[[v * 1e-7 if v and r.random() < .2 else v for v in row] for row in x] for x in b["X"]]      # values next to zero
        n = b["n"]; sets = []
        for c in range(2):
            X = b["X"] if c == 0 else [[[r.choice(b["X"][p])[f] + r.choice([0, 0, .5, -2]) for f in range(len(b["X"][p][0]))] for _ in range(n)] for p in range(2)]
            y = b["y"] if c == 0 else b["y"][::-1]
            sets.append([boost.table(b["keys"], X[p], y if p == 0 else None, forms[c][p], None) for p in range(2)])
        d = fed.tree_data(r, nh=1, small=True); trees = [fed.bins_table(d["keys"], d["X"][0], d["SP"][0]), DTable(True, [(d["keys"][j], (d["g"][j], d["h"][j])) for j in range(d["n"])]), fed.bins_table(d["keys"], d["X"][1], d["SP"][1])]
        mine = [t for s in sets for t in s] + trees
        t = dict(id="h%d" % i, view=view(mine), ev=[]); ev = t["ev"]; run = alone = None
        def doing(name, f):
            o, v = attempt(f, 100)
            if o == "ok" and isinstance(v, tuple) and len(v) == 2 and v[0] == "out": o, v = v[1], None
            ev.append(dict(op="call", name=name, out=o, view=view(mine))); return v
        def fitting(ts, al=False):
            q = boost.fit(b, [0, 1], al, tables=ts)
            return ("out", q.out) if q.out != "ok" else q
        def predicting(q, ts, al=False):
            hub, v = boost.predict(q, None, None, tables=ts, alone=al)
            return ("out", hub.verdict()) if hub.verdict() != "ok" else v
        for op, k in g["calls"]:
            S = sets[k - 1]; new = lambda: [clone(x) for x in S]; v = w = None
            if op == "fit":
                run = doing("fit", lambda: fitting(S)); w = attempt(lambda: res(fitting(new())), 100)[1]; v = res(run) if run else None
            elif op == "alonefit":
                alone = doing("fit alone", lambda: fitting(S[:1], True)); w = attempt(lambda: res(fitting(new()[:1], True)), 100)[1]; v = res(alone) if alone else None
            elif op == "predict" and run:
                p = doing("predict", lambda: predicting(run, S)); w = attempt(lambda: rows(predicting(run, new())), 100)[1]; v = rows(p) if p else None
            elif op == "alonepredict" and alone:
                p = doing("predict alone", lambda: predicting(alone, S[:1], True)); w = attempt(lambda: rows(predicting(alone, new()[:1], True)), 100)[1]; v = rows(p) if p else None
            elif op in ("bin", "sparsebin"):
                def binning(ts):
                    out = []
                    for x in ts:
                        q = QuantileBinning(FeatureBinningParam(bin_num=3)); q.fit_split_points(x)
                        nt, sp, z = q.convert_feature_to_bin(x) if op == "bin" else q.convert_feature_to_bin(x, [0])
                        out += [repr((k, feats(i.features))) for k, i in nt.collect()] + [repr([list(map(float, s)) for s in sp]), repr(z)]
                    return out
                v = doing("bin", lambda: binning(S)); w = attempt(lambda: binning(new()), 60)[1]
            elif op == "stats":
                dn = [x for x in S if isinstance(x.first().features, np.ndarray)]
                if dn:
                    def stats(x):
                        q = MultivariateStatisticalSummary(x, -1); return [repr(sorted((a, round(float(c), 9)) for a, c in m().items())) for m in (q.get_mean, q.get_variance, q.get_max, q.get_min, q.get_median)]
                    v = doing("stats", lambda: stats(dn[0])); w = attempt(lambda: stats(clone(dn[0])), 60)[1]
            elif op == "align":
                from ml.tree.boosting_tree import BoostingTree
                v = doing("align", lambda: [repr((k, feats(x.features), x.label)) for k, x in BoostingTree().data_alignment(S[0]).collect()])
                w = attempt(lambda: [repr((k, feats(x.features), x.label)) for k, x in BoostingTree().data_alignment(new()[0]).collect()], 30)[1]
            elif op == "tree":
                from ml.secureprotol.encrypt_mode import EncryptModeCalculator
                def growing(tabs):
                    hub = fed.Hub(1, (0, 1)); e = fed.encrypter("sealed")
                    G = fed.realcode and __import__("ml.tree.hetero_decision_tree_guest", fromlist=["x"]).HeteroDecisionTreeGuest
                    H = __import__("ml.tree.hetero_decision_tree_host", fromlist=["x"]).HeteroDecisionTreeHost
                    a = G(fed.tree_param(d)); a.set_inputinfo(tabs[0], tabs[1], fed.points(d["SP"][0]), fed.sparse_points(d["SP"][0])); a.set_valid_features([True] * len(d["SP"][0]))
                    a.set_encrypter(e); a.set_encrypted_mode_calculator(EncryptModeCalculator(e, "strict", 1)); a.set_flowid("0.0"); a.set_transfer_inst(fed.GuestEnd(hub))
                    c = H(fed.tree_param(d)); c.set_inputinfo(data_bin=tabs[2], bin_split_points=fed.points(d["SP"][1]), bin_sparse_points=fed.sparse_points(d["SP"][1]))
                    c.set_flowid("0.0"); c.set_runtime_idx(0); c.set_valid_features([True] * len(d["SP"][1])); c.set_transfer_inst(fed.HostEnd(hub, 1))
                    hub.run({0: a.fit, 1: c.fit}, 20)
                    return ("out", hub.verdict()) if hub.verdict() != "ok" else [(x.id, x.sitename, x.weight, x.is_leaf) for x in a.tree_]
                v = doing("tree", lambda: growing(trees)); v = None if v is None else repr(v)
                w = None if v is None else repr(attempt(lambda: growing([clone(x) for x in trees]), 60)[1])
            if v is not None: ev.append(dict(op="again", got=repr(v), want=repr(w)))
            if ev and ev[-1].get("out", "ok") != "ok": bad += 1; break
        if any(x["op"] == "call" for x in ev): yield t

def corrupt(t):
    import copy
    out = []
    for k in ("feats", "keys", "same"):
        u = copy.deepcopy(t); u["ev"][-2 if len(u["ev"]) > 1 and u["ev"][-1]["op"] == "again" else -1]["view"][0][k][0] = 0 if k == "same" else "x"; out.append(u)
    return out
