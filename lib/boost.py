"""Federated (and stand-alone) boosting runs of the real code, and what can be observed of them."""
import random
import realcode, fed
from fed import Hub, GuestEnd, HostEnd
import numpy as np
from computing.d_table import DTable
from ml.feature.instance import Instance
from ml.feature.sparse_vector import SparseVector
realcode.compat()

def sparse_inst(k, x, y=None):
    idx = [f for f in range(len(x)) if x[f] != 0]
    return Instance(inst_id=k, features=SparseVector(idx, [x[f] for f in idx], len(x)), label=y)

def table(keys, X, y=None, form="dense", order=None, header=None):
    rows = []
    for j in (order if order is not None else range(len(keys))):
        lab = None if y is None else y[j]
        rows.append((keys[j], sparse_inst(keys[j], X[j], lab) if form == "sparse"
                     else Instance(inst_id=keys[j], features=np.array(X[j], dtype=float), label=lab)))
    t = DTable(True, rows)
    t.schema = {"header": header or ["x%d" % f for f in range(len(X[0]))], "sid_name": "id"}
    return t

def param(b):
    from ml.param.boosting_tree_param import BoostingTreeParam, DecisionTreeParam, ObjectiveParam
    from ml.param.encrypt_param import EncryptParam
    from ml.param.encrypted_mode_calculation_param import EncryptedModeCalculatorParam
    from ml.param.predict_param import PredictParam
    tp = DecisionTreeParam(criterion_params=[b.get("lam", 1)], max_depth=b["depth"], min_sample_split=b.get("minsample", 2),
                           min_imputiry_split=b.get("mingain", 1e-3), min_leaf_node=b.get("minleaf", 1), max_split_nodes=b.get("batch", 65536),
                           feature_importance_type=b.get("imp", "split"))
    return BoostingTreeParam(tree_param=tp, task_type=b["task"], objective_param=ObjectiveParam(b["objective"], b.get("objparams")),
                             learning_rate=b["lr"], num_trees=b["trees"], subsample_feature_rate=b.get("rate", 1.0), n_iter_no_change=b.get("stop", False),
                             tol=b.get("tol", 0.0001), bin_num=b.get("bins", 8), encrypt_param=EncryptParam(key_length=b.get("key", 512)),
                             predict_param=PredictParam(threshold=b.get("threshold", 0.5)),
                             encrypted_mode_calculator_param=EncryptedModeCalculatorParam(mode=b.get("mode", "strict"), re_encrypted_rate=b.get("rerate", 1)))

class Run: pass

def make(b, alone=False):
    """Fresh guest and hosts for the settings b."""
    if alone:
        from xgboost.hetero_secureboosting_tree_guest import HeteroSecureBoostingTreeGuest as G
    else:
        from ml.tree.hetero_secureboosting_tree_guest import HeteroSecureBoostingTreeGuest as G
    from ml.tree.hetero_secureboosting_tree_host import HeteroSecureBoostingTreeHost as H
    r = Run(); r.guest = G(); r.guest._init_model(param(b)); r.hosts = []
    for i in range(0 if alone else len(b["X"]) - 1):
        h = H(); h._init_model(param(b)); h.set_runtime_idx(fed.idx_of(b, len(b["X"]) - 1)[i]); r.hosts.append(h)
    return r

def fit(b, schedule=(0,), alone=False, tables=None, limit=90):
    """Trains on b: X (one matrix per party), y, keys. tables overrides the data tables."""
    r = make(b, alone); nh = len(r.hosts); r.b = b
    np.random.seed(b.get("npseed", 1) % 2**32); random.seed(b.get("npseed", 1))
    forms = b.get("forms", ["dense"] * (nh + 1)); orders = b.get("orders", [None] * (nh + 1))
    r.tables = tables or [table(b["keys"], b["X"][p], b["y"] if p == 0 else None, forms[p], orders[p]) for p in range(nh + 1)]
    r.hub = Hub(nh, schedule)
    if not alone: r.guest.set_transfer_inst(GuestEnd(r.hub))
    fns = {0: lambda: r.guest.fit(r.tables[0])}
    for i, h in enumerate(r.hosts):
        h.set_transfer_inst(HostEnd(r.hub, i + 1)); fns[i + 1] = (lambda h=h, t=r.tables[i + 1]: h.fit(t))
    r.hub.run(fns, limit); r.out = r.hub.verdict()
    return r

def predict(r, X, keys, y=None, schedule=(0,), orders=None, forms=None, tables=None, alone=False, limit=60):
    nh = len(r.hosts); hub = Hub(nh, schedule)
    forms = forms or ["dense"] * (nh + 1); orders = orders or [None] * (nh + 1)
    tables = tables or [table(keys, X[p], y if p == 0 else None, forms[p], orders[p]) for p in range(nh + 1)]
    if not alone: r.guest.set_transfer_inst(GuestEnd(hub))
    fns = {0: lambda: r.guest.predict(tables[0])}
    for i, h in enumerate(r.hosts):
        h.set_transfer_inst(HostEnd(hub, i + 1)); fns[i + 1] = (lambda h=h, t=tables[i + 1]: h.predict(t))
    hub.run(fns, limit)
    return hub, hub.val.get(0)

OBJ = {"classification": ["cross_entropy"], "regression": ["lse", "lae", "huber", "fair", "log_cosh", "tweedie"]}
def data(r, nh=None, task=None, classes=None, n=None, **kw):
    """A random boosting task: small, with repeated values, zeros, negatives; labels of several kinds."""
    nh = r.choice([1, 1, 2, 3]) if nh is None else nh
    n = r.randint(4, 10) if n is None else n
    nf = [r.randint(1, 3) for _ in range(nh + 1)]
    task = task or r.choice(["classification", "classification", "regression"])
    span = r.choice([1, 3, 9]); zero = r.choice([0.0, 0.3, 0.7])
    def val(): return 0 if r.random() < zero else r.choice([r.randint(-span, span), r.randint(-span, span) / 4])
    X = [[[val() for _ in range(nf[p])] for _ in range(n)] for p in range(nh + 1)]
    if task == "classification":
        k = classes or r.choice([2, 2, 2, 3, 4]); k = min(k, n)
        names = {0: list(range(k)), 1: [10 * i - 7 for i in range(k)], 2: ["c%d" % i for i in range(k)], 3: [i + 1 for i in range(k)], 4: [3 - i for i in range(k)]}[r.randrange(5)]
        y = names + [r.choice(names) for _ in range(n - k)]; r.shuffle(y); obj = "cross_entropy"; op = None
    else:
        obj = r.choice(OBJ["regression"]); y = [r.randint(-8, 8) / r.choice([1, 2, 4]) for _ in range(n)]; op = [r.choice([1, 0.5, 2])]
        if obj == "tweedie": op = [r.choice([1.5, 1.25, 1.75])]; y = [r.choice([0, 0, 1, r.randint(0, 8)]) / r.choice([1, 2, 4]) for _ in range(n)]; y = [min(v, 2) for v in y]
    key = r.choice(["int", "str", "gap"])
    keys = [{"int": j, "str": "id%d" % ((j * 7) % 11), "gap": 100 - 3 * j}[key] for j in range(n)]
    b = dict(n=n, X=X, y=y, keys=keys, task=task, objective=obj, objparams=op, trees=r.randint(1, 3), lr=r.choice([0.3, 0.1, 1.0, 0.5]),
             depth=r.choice([1, 2, 2, 3]), stop=r.random() < .5, tol=r.choice([1e-4, 0.01, 0.3, 10.0]), rate=r.choice([1.0, 1.0, 0.5, 0.8]),
             bins=r.choice([2, 3, 4, 8]), mode=r.choice(["strict", "strict", "fast", "balance"]), rerate=r.choice([0, 0.5, 1]), batch=r.choice([1, 2, 65536]),
             threshold=r.choice([0.5, 0.5, 0.3, 0.6]), npseed=r.randrange(2**31), lam=r.choice([0.1, 1, 1]), mingain=r.choice([1e-3, 1e-2]),
             forms=[r.choice(["dense", "sparse"]) for _ in range(nh + 1)], imp=r.choice(["split", "gain"]), minleaf=r.choice([1, 1, 2]))
    orders = [None]
    for p in range(nh):
        o = list(range(n)); r.shuffle(o); orders.append(o if r.random() < .5 else None)
    b["orders"] = orders
    if nh and r.random() < .15: b["idx"] = r.sample(range(25), nh) if r.random() < .5 else r.sample([0, 1, 10, 11, 20, 21], nh)
    b.update(kw)
    return b

def large(r, nh=None, kind=None, **kw):
    """Beyond one digit: many samples and features, ten classes and more, or ten rounds and more."""
    nh = r.choice([1, 2]) if nh is None else nh; kind = r.randrange(3) if kind is None else kind; n = r.randint(24, 36)
    b = data(r, nh=nh, n=n, task="regression" if kind == 1 else "classification")
    X = [[[r.randint(-4, 20) for _ in range(r2)] for _ in range(n)] for r2 in [r.randint(3, 5) if kind else r.randint(1, 2) for _ in range(nh + 1)]]
    if kind == 2: X = [[[r.randint(-4, 6) for _ in range(11 if p == nh else 2)] for _ in range(n)] for p in range(nh + 1)]
    b["X"] = X; b["keys"] = list(range(n)) if r.random() < .5 else ["id%02d" % j for j in range(n)]; b["bins"] = r.choice([4, 12])
    b["rate"] = 1.0; b["stop"] = False; b["mode"] = "strict"; b["mingain"] = 1e-3; b["minleaf"] = 1; b["orders"] = [None] * (nh + 1)
    if nh: b["idx"] = r.sample([0, 1, 10, 11, 20, 21], nh)
    if kind == 0:
        k = r.randint(11, 12); names = r.choice([list(range(k)), [3 * i - 9 for i in range(k)], ["c%d" % i for i in range(k)]])
        b["y"] = names + [r.choice(names) for _ in range(n - k)]; r.shuffle(b["y"]); b.update(trees=r.choice([1, 2]), depth=1)
    elif kind == 1: b.update(trees=r.randint(11, 13), depth=2, lr=r.choice([0.3, 0.5]), objective=r.choice(["lse", "huber"]), objparams=[1], y=[sum(X[p][j][0] % 4 for p in range(nh + 1)) / 2 for j in range(n)])
    else: b.update(trees=3, depth=4, y=[int(sum(X[p][j][-1] for p in range(nh + 1)) % 3 > 0) for j in range(n)])
    b.update(kw)
    return b
