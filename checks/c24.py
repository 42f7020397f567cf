"""C24: every combination of inputs and settings TLC enumerates, run on a recording component and (the usual ones) on real boosters."""
DESIGN = [dict(module="PipelineMC", cfg="PipelineMC_none.cfg", min_states=1500)] + \
         [dict(module="PipelineMC", cfg="PipelineMC_%s.cfg" % f, expect=x) for f, x in (("noload", "LoadFirst"), ("order", "FitFirst"), ("lose", "HoldsAll"), ("tag", "HoldsAll"), ("off", "OffMeansNothing"), ("cvfit", "CvAlone"))]
DESIGN += [dict(module="MetricsMC", cfg="MetricsMC_none.cfg", min_states=8000)] + \
          [dict(module="MetricsMC", cfg="MetricsMC_%s.cfg" % f, expect=x) for f, x in (("fold", "Named"), ("task", "IdOfTask"), ("curve", "CurveIsFlow"), ("late", "Named"))] + \
          [dict(module="MetricsMC", cfg="MetricsMC_thorough.cfg", min_states=40000, thorough=True, timeout=1500)]
GEN = [dict(name="m", module="MetricsMC", cfg="MetricsMC_gen.cfg", simulate=dict(quick=150, thorough=3000), depth=14, timeout=600),
       dict(name="p", module="PipelineMC", cfg="PipelineMC_gen.cfg")]
TRACE = "PipelineTrace"
CHUNK = 60
MUST_SEE = ["run", "booster", "task", "flow", "fold", "metric", "meta", "name"]
ASSUMPTIONS = ["training and validation samples have distinct identifiers", "task names given to the parts of a pipeline's curves hold no dots"]

def drive(tier, seed, gen):
    import realcode
    realcode.compat()
    import numpy as np
    from computing.d_table import DTable
    from ml.model_base import ModelBase
    from ml.param.base_param import BaseParam
    from drv import rng, attempt
    import boost, boostcheck
    from fed import Hub, GuestEnd, HostEnd
    class Switch(BaseParam):
        def __init__(self, name): setattr(self, name, False)
        def check(self): pass
    class P(BaseParam):
        def __init__(self, parts=("cv", "ovr", "run")):
            self.x = 1
            if "cv" in parts: self.cv_param = Switch("need_cv")
            if "ovr" in parts: self.one_vs_rest_param = Switch("need_one_vs_rest")
            if "run" in parts: self.need_run = True
        def check(self):
            if self.x != 7: raise ValueError("x")
    class Link:
        def __init__(self): self.ids = []
        def set_flowid(self, x): self.ids.append(x)
    class Desc:
        def __init__(self): self.curve = []
        def update_metas(self, m): self.curve += [str(v) for k, v in m.items() if k == "curve_name"]
    class Track:
        def __init__(self): self.got = []
        def log_metric_data(self, metric_name=None, metric_namespace=None, metrics=None): self.got.append(("metric", metric_name, metric_namespace, metrics))
        def set_metric_meta(self, metric_name=None, metric_namespace=None, metric_meta=None): self.got.append(("meta", metric_name, metric_namespace, metric_meta))
    def keys(t): return sorted(map(str, t._dtable))
    def rows(t, want):
        out = []
        for k, v in t.collect(): out.append(["train" if str(k).startswith("t") else "eval" if str(k).startswith("e") else "?", v[-1] if len(v) == 3 and v[:2] == [str(k), 5] else "bad"])
        return out
    class C(ModelBase):
        def __init__(self, i, parts):
            ModelBase.__init__(self); self.model_param = P(parts); self.i = i; self.calls = []; self.early = 0; self.want = 0; self.made = DTable(True, [("made", 1)]); self.args = None; self.flows = []; self.transfer_variable = Link()
        def name(self, d):
            for n in ("train", "eval", "data"):
                if d is self.i["t" + n]: return n
            return "?"
        def _init_model(self, p): self.calls.append(["init", ""]); self.early = int(p.x == 7)
        def _load_model(self, m): self.calls.append(["load", "" if m is self.args else "?"])
        def note(self, n, d): self.calls.append([n, self.name(d)]); self.flows.append((self.transfer_variable.ids or [""])[-1])
        def _pred(self, n, d):
            self.note(n, d)
            w = self.name(d)
            if self.i.get("p" + w, True):
                self.want += d.count()
                return d.mapValues(lambda v: [v, 5])
        def fit(self, d): self.note("fit", d); return self.made
        def transform(self, d): self.note("transform", d); return self.made
        def predict(self, d): return self._pred("predict", d)
        def cross_validation(self, d): self.note("cross_validation", d)
        def one_vs_rest_fit(self, train_data=None): self.note("one_vs_rest_fit", train_data)
        def one_vs_rest_predict(self, d): return self._pred("one_vs_rest_predict", d)
    def tab(r, pre):
        ks = ["%s%d" % (pre, k) for k in range(r.randint(1, 5))]; r.shuffle(ks)
        t = DTable(True, [(k, k) for k in ks]); t.schema = {"header": ["a"], "sid_name": "sid" + pre}
        return t
    ev = []; n = 0; hung = 0; reps = 1 if tier == "quick" else 6
    for rep in range(reps):
        for j, i in enumerate(gen["p"]):
            r = rng(seed, "c24", rep, j)
            parts = [p for p, on in (("cv", i["cv"]), ("ovr", i["ovr"]), ("run", not i["run"])) if on or r.random() < .7]
            q = dict(i); q["ttrain"], q["teval"], q["tdata"] = [tab(r, x[0]) if i[x] else None for x in ("train", "eval", "data")]
            c = C(q, parts)
            cfg = {"x": 7 if i["ok"] else r.choice([8, None, "7"])}
            if "cv" in parts and (i["cv"] or r.random() < .5): cfg["cv_param"] = {"need_cv": i["cv"]}
            if "ovr" in parts and (i["ovr"] or r.random() < .5): cfg["one_vs_rest_param"] = {"need_one_vs_rest": i["ovr"]}
            if "run" in parts and (not i["run"] or r.random() < .5): cfg["need_run"] = i["run"]
            ent = [(x + ("_data" if x != "data" else ""), q["t" + x]) for x in ("train", "eval", "data") if i[x]]
            r.shuffle(ent); sets = {}
            for a, t in ent: sets.setdefault(r.choice(["set0", "set1", "other"]), {})[a] = t
            if r.random() < .3: sets["zero"] = {}
            for s in list(sets.values()):
                if r.random() < .3: s.update({a: None for a in ("train_data", "eval_data", "data") if a not in s})
            args = {"data": sets} if i["any"] else r.choice([None, {}, {"data": None}])
            if i["model"] != "none":
                args = args if args is not None else {}
                args[{"model": "model", "iso": "isometric_model"}[i["model"]]] = {"m": 1}
            c.args = args
            calls = {"P": cfg, "Unrelated": {"x": 3}}
            if args is None and r.random() < .5: f = lambda: c.run(calls)
            else: f = lambda: c.run(calls, args)
            task = r.choice(["", "t1", "job_7", "job.1"]); c.set_taskid(task)
            out, _ = attempt(f, 10); hung += out == "hang"
            d = c.save_data(); tabled = isinstance(d, DTable) and d is not c.made and d is not q["tdata"] and d is not q["ttrain"] and d is not q["teval"]
            ro, rs = attempt(lambda: rows(d, None), 10) if tabled else ("ok", [])
            sch = d.schema if tabled and isinstance(d.schema, dict) else {}
            src = q["ttrain"] or q["teval"] if i["any"] else None
            ev.append(dict(op="run", inp=i, out=out, calls=c.calls, task=task, flows=[str(x) for x in c.flows], early=c.early, rows=rs if ro == "ok" else [["?", ro]], n=len(rs or []), want=c.want,
                           header=[str(x) for x in sch.get("header") or []], sid=int(src is not None and sch.get("sid_name") == src.schema["sid_name"]),
                           passed="none" if d is None else "data" if d is q["tdata"] else "made" if d is c.made else "other"))
            if len(ev) == 60: n += 1; yield dict(id="runs%d" % n, ev=ev); ev = []
            if hung > 2: break
    if ev: yield dict(id="runs%d" % (n + 1), ev=ev)
    for j, g in enumerate(gen["m"]):
        c = C({}, ("cv", "run")); c.tracker = None; ev = []; c.set_tracker(Track()) if j % 2 else setattr(c, "tracker", Track()); tr = c.tracker
        o, _ = attempt(lambda: c.run({"P": {"x": 7, "cv_param": {"need_cv": g["cv"]}}}), 10)
        ev.append(dict(op="setup", out=o))
        for a, v in g["script"]:
            e = dict(op=a, v=v, out="ok", got="", curve=[], kept=1); del tr.got[:]; k = len(c.transfer_variable.ids); d = object(); m = Desc(); ns = "ns%d" % len(ev)
            if a == "task": f = lambda: c.set_taskid(v)
            elif a == "flow": f = lambda: c.set_flowid(v)
            elif a == "fold": f = lambda: c.set_cv_fold(int(v))
            elif a == "name": f = lambda: c.get_metric_name(v)
            elif a == "metric": f = lambda: c.callback_metric(v, ns, d)
            else: f = lambda: c.callback_meta(v, ns, m)
            e["out"], x = attempt(f, 10)
            if a == "flow": e["got"] = str(c.transfer_variable.ids[-1]) if len(c.transfer_variable.ids) > k else "none told"
            elif a == "name": e["got"] = str(x)
            elif a in ("metric", "meta"):
                w = tr.got[0] if len(tr.got) == 1 else ("", "not reported once", "", None)
                e.update(got=str(w[1]), kept=int(w[0] == a and w[2] == ns and w[3] is (d if a == "metric" else m)), curve=m.curve)
            ev.append(e)
        yield dict(id="metrics%d" % j, cv=g["cv"], ev=ev)
    # real boosters, federated
    bad = 0
    from ml.tree.hetero_secureboosting_tree_guest import HeteroSecureBoostingTreeGuest as G
    from ml.tree.hetero_secureboosting_tree_host import HeteroSecureBoostingTreeHost as H
    from xgboost.hetero_secureboosting_tree_guest import HeteroSecureBoostingTreeGuest as A
    for k in range(6 if tier == "quick" else 60):
        r = rng(seed, "c24b", k); alone = k % 3 == 2; nh = 0 if alone else r.choice([1, 2])
        b = boost.data(r, nh=nh, n=6, stop=False, depth=r.choice([1, 2]), trees=r.choice([1, 2, 3]), mode="strict", lr=.5, bins=4, rate=1.0)
        m = r.randint(1, 5); ek = ["e%d" % j for j in range(m)]; tk = ["t%d" % j for j in range(b["n"])]
        E = [[[r.randint(-3, 3) for _ in b["X"][p][0]] for _ in range(m)] for p in range(nh + 1)]
        ey = [r.choice(b["y"]) for _ in range(m)]
        T = [boost.table(tk, b["X"][p], b["y"] if p == 0 else None) for p in range(nh + 1)]
        V = [boost.table(ek, E[p], ey if p == 0 else None) for p in range(nh + 1)]
        cfg = {"BoostingTreeParam": {"task_type": b["task"], "num_trees": b["trees"], "learning_rate": .5, "bin_num": 4, "n_iter_no_change": False, "subsample_feature_rate": 1.0,
               "objective_param": {"objective": b["objective"], "params": b["objparams"]}, "tree_param": {"max_depth": b["depth"], "min_leaf_node": 1}, "encrypt_param": {"key_length": 512}}}
        made = [A() if alone else G()] + [H() for _ in range(nh)]; ev = []
        for h in range(nh): made[h + 1].set_runtime_idx(h)
        for step, use in ((0, r.choice(["both", "train"])), (1, "eval")):
            hub = Hub(nh, [r.randint(0, nh) for _ in range(9)])
            if not alone:
                made[0].set_transfer_inst(GuestEnd(hub))
                for h in range(nh): made[h + 1].set_transfer_inst(HostEnd(hub, h + 1))
            def args(p):
                s = {}
                if use != "eval": s["train_data"] = T[p]
                if use != "train": s["eval_data"] = V[p]
                return {"data": {"one": s}} if r.random() < .5 else {"data": {"s%d" % q: {x: t} for q, (x, t) in enumerate(s.items())}}
            ar = [args(p) for p in range(nh + 1)]
            hub.run({p: (lambda p=p: made[p].run(cfg, ar[p])) for p in range(nh + 1)}, 90)
            out = hub.verdict(); bad += out != "ok"; want = []
            if use != "eval": want += [[x, "train"] for x in tk]
            if use != "train": want += [[x, "validation" if use == "both" else "test"] for x in ek]
            def got():
                d = made[0].save_data()
                return [[str(x), v[-1] if len(v) == 5 else "bad"] for x, v in d.collect()], [str(x) for x in d.schema["header"]]
            o2, g = attempt(got, 10) if out == "ok" else ("ok", ([], []))
            if o2 != "ok": out, g = o2, ([], [])
            g0 = made[0]
            applied = int(g0.num_trees == b["trees"] and g0.task_type == b["task"] and (use == "eval" or len(g0.trees_) == b["trees"] * (len(set(b["y"])) if b["task"] == "classification" and len(set(b["y"])) > 2 else 1)))
            ev.append(dict(op="booster", out=out, rows=g[0], want=want, header=g[1], applied=applied))
            if out != "ok": break
        yield dict(id="booster%d" % k, ev=ev)
        if bad > 2: return

def corrupt(t):
    import copy
    out = []
    if t["id"] == "runs4":
        for e in t["ev"]:
            if e["rows"]: u = copy.deepcopy(t); [x for x in u["ev"] if x["rows"]][0]["rows"][0][1] = "test2"; out.append(u); break
        for k, e in enumerate(t["ev"]):
            if len(e["calls"]) > 1: u = copy.deepcopy(t); u["ev"][k]["calls"].pop(); out.append(u); break
    if t["id"] == "metrics3":
        for e in t["ev"]:
            if e["op"] in ("metric", "meta"): u = copy.deepcopy(t); [x for x in u["ev"] if x["op"] in ("metric", "meta")][0]["got"] += "1"; out.append(u); break
    if t["id"] == "booster0": u = copy.deepcopy(t); u["ev"][0]["rows"].pop(); out.append(u)
    return out
