"""C21: every setting times every kind of value, and combinations, enumerated by TLC from the table of documented settings and replayed into check(); configurations."""
DESIGN = [dict(module="SettingsMC", cfg="SettingsMC_none.cfg", min_states=3000, actions=["Start"]),
          dict(module="SettingsMC", cfg="SettingsMC_pairs.cfg", min_states=5000)] + \
         [dict(module="SettingsMC", cfg="SettingsMC_%s.cfg" % f, expect="AsDocumented") for f in ("nested", "case", "bool", "first")] + \
         [dict(module="SettingsMC", cfg="SettingsMC_three.cfg", min_states=100000, thorough=True, timeout=2400)]
GEN = [dict(name="one", module="SettingsMC", cfg="SettingsMC_gen.cfg"), dict(name="two", module="SettingsMC", cfg="SettingsMC_gen2.cfg"),
       dict(name="more", module="SettingsMC", cfg="SettingsMC_gen3.cfg", simulate=dict(quick=800, thorough=20000), depth=5, timeout=900)]
TRACE = "SettingsTrace"
CHUNK = 60
MUST_SEE = ["check", "config", "others"]
ASSUMPTIONS = ["cases the documentation leaves open (listed in Settings!Open) are not judged"]
HOME = {"BoostingTreeParam": "boosting_tree_param", "DecisionTreeParam": "boosting_tree_param", "ObjectiveParam": "boosting_tree_param", "EncryptParam": "encrypt_param",
        "EncryptedModeCalculatorParam": "encrypted_mode_calculation_param", "PredictParam": "predict_param", "CrossValidationParam": "cross_validation_param",
        "EvaluateParam": "evaluation_param", "FeatureBinningParam": "feature_binning_param", "TransformParam": "feature_binning_param"}
PATH = {"DecisionTreeParam": ["tree_param"], "ObjectiveParam": ["objective_param"], "EncryptParam": ["encrypt_param"], "EncryptedModeCalculatorParam": ["encrypted_mode_calculator_param"],
        "PredictParam": ["predict_param"], "CrossValidationParam": ["cv_param"], "EvaluateParam": ["cv_param", "evaluate_param"], "TransformParam": ["transform_param"]}

def drive(tier, seed, gen):
    import realcode
    realcode.compat()
    import importlib, inspect, copy
    from drv import rng, attempt
    from ml.param.base_param import BaseParam
    from ml.utils.param_extract import ParamExtract
    def cls(c): return getattr(importlib.import_module("ml.param." + HOME[c]), c)
    def owner(o, root, c):
        if c == root: return o
        p = PATH[c] if root == "BoostingTreeParam" or c == "TransformParam" else ["evaluate_param"]
        for x in p: o = getattr(o, x)
        return o
    def value(v):
        k = v["k"]
        if k == "int": return v["n"] // 1000
        if k == "float": return v["n"] / 1000
        if k == "str": return v["s"]
        if k == "bool": return v["n"] == 1000
        if k == "list": return [value(x) for x in v["l"]]
        if k == "tuple": return tuple(value(x) for x in v["l"])
        if k == "dict": return {"a": 1}
        return None
    def leaves(o, pre=""):
        out = []
        for k, v in sorted(vars(o).items()):
            if isinstance(v, BaseParam): out += leaves(v, pre + k + ".")
            else: out.append([pre + k, repr(v)])
        return out
    # checks
    ev = []; n = 0; hung = 0
    for b in gen["one"] + gen["two"] + gen["more"]:
        if hung > 2: break
        root = b["root"]; o = cls(root)(); named = set()
        for x in b["a"]:
            t = owner(o, root, x["c"]); setattr(t, x["n"], value(x["v"])); named.add((id(t), x["n"]))
        def snap(o):
            out = []
            for k, v in sorted(vars(o).items()):
                if isinstance(v, BaseParam): out.append((k, snap(v)))
                elif (id(o), k) not in named: out.append((k, repr(v)))
            return out
        before = snap(o)
        out, _ = attempt((lambda: o.check(b["task"] or None)) if root == "ObjectiveParam" else o.check, 10)
        hung += out == "hang"
        kept = [getattr(owner(o, root, x["c"]), x["n"], None) for x in b["a"]]
        ev.append(dict(op="check", root=root, task=b["task"], a=b["a"], out=out, kept=[v if isinstance(v, str) else "?" for v in kept], same=int(snap(o) == before)))
        if len(ev) == 100: n += 1; yield dict(id="checks%d" % n, ev=ev); ev = []
    if ev: yield dict(id="checks%d" % (n + 1), ev=ev)
    # configurations
    class Chain(BaseParam):
        def __init__(self, depth=5):
            self.x = 1; self.y = None; self.z = [1, 2]
            if depth: self.sub = Chain(depth - 1); self.a_sub = Chain2()
        def check(self): pass
    class Chain2(BaseParam):
        def __init__(self): self.x = "leaf"; self.w = 0.5
    roots = [cls("BoostingTreeParam")] * 5 + [cls("CrossValidationParam"), cls("FeatureBinningParam"), cls("DecisionTreeParam"), Chain, Chain]
    VALS = [0, 1, 7, -3, 0.25, "text", "", True, False, None, [1], [], [[2]], {"k": 1}, {}, (1, 2)]
    for i in range(150 if tier == "quick" else 3000):
        r = rng(seed, "c21", i); C = r.choice(roots); ev = []
        fresh = leaves(C())
        for j in range(2):
            o = C(); before = leaves(o); paths = [p for p, _ in before]; k = r.choice([0, 1, 1, 2, 3, 6, len(paths)])
            cfg = {}; want = []
            for p in r.sample(paths, min(k, len(paths))):
                d = cfg; ps = p.split(".")
                for q in ps[:-1]: d = d.setdefault(q, {})
                d[ps[-1]] = v = copy.deepcopy(r.choice(VALS)); want.append([p, repr(v)])
            whole = {C.__name__: cfg}; mapping = 1; mode = r.random()
            if mode < .1: whole = {"Other": cfg}; want = []
            elif mode < .2: whole["Other"] = {"x": 5, "max_depth": 9}
            elif mode < .35: whole = r.choice([None, [], [(C.__name__, cfg)], "config", 5, 1.5, True, (C.__name__, cfg), {1, 2}]); mapping = 0
            elif mode < .45: whole = {C.__name__: r.choice([None, [], ["x"], "max_depth", 5, ("x",), {"x"}, True])}; mapping = 0
            elif mode < .55 and any("." in p for p in paths):
                p = r.choice([p for p in paths if "." in p]).split(".")[:-1]; d = cfg = {}; want = []
                p = p[:r.randint(1, len(p))]
                for q in p[:-1]: d = d.setdefault(q, {})
                d[p[-1]] = r.choice([None, [], ["x"], "x", "max_depth", 5, ("x",), True]); whole = {C.__name__: cfg}; mapping = 0
            shown = repr(whole)
            out, res = attempt(lambda: ParamExtract().parse_param_from_config(o, whole), 10)
            ev.append(dict(op="config", root=C.__name__, mapping=mapping, out=out, cfg=want, before=before, after=leaves(o) if mapping and out == "ok" else [], self=int(res is o)))
            ev.append(dict(op="others", before=fresh, after=leaves(C()), kept=int(repr(whole) == shown)))
        yield dict(id="config%d" % i, ev=ev)
    # constructors take what they are given
    for i, c in enumerate(sorted(HOME)):
        C = cls(c); ev = []; r = rng(seed, "c21c", c); base = C()
        args = [a for a in inspect.signature(C.__init__).parameters if a != "self"]
        for a in args:
            at = {"min_imputiry_split": "min_impurity_split"}.get(a, a)
            if isinstance(getattr(base, at, None), BaseParam):      # a nested object is copied, not shared
                inner = type(getattr(base, at))(); leaf = leaves(inner)[0][0]
                if "." in leaf: continue
                setattr(inner, leaf, 77); o = C(**{a: inner}); setattr(inner, leaf, 78); want = [[at + "." + leaf, "77"]]
            else: o = C(**{a: 77}); want = [[at, "77"]]
            ev.append(dict(op="config", root=c, mapping=1, out="ok", cfg=want, before=leaves(base), after=leaves(o), self=1))
        ev.append(dict(op="others", before=leaves(base), after=leaves(C()), kept=1))
        yield dict(id="new" + c, ev=ev)

def corrupt(t):
    import copy
    out = []
    if t["id"] in ("checks1", "checks9"):
        e = t["ev"][50]; u = copy.deepcopy(t); u["ev"][50]["out"] = "ValueError" if e["out"] == "ok" else "ok"; u["ev"][50]["kept"] = ["?" for _ in e["kept"]]; out.append(u)
    if t["id"].startswith("config"):
        k = [e for e in t["ev"] if e["op"] == "config" and e["mapping"] and e["cfg"]]
        if k: k[-1]["after"][0][1] += "!"; out.append(t)
    return out[:1]
