exec(open("/verif/tools/seeds/a.py").read().split("SEEDS = [")[0])
BOOST = '''
import boost
def fit(b, **k):
    r = boost.fit(b, **k)
    assert r.out == "ok", ("training ended with", r.out, r.hub.val)
    return r
def task(X, y, **kw):
    n = len(y)
    b = dict(n=n, X=X, y=y, keys=list(range(n)), task="regression", objective="lse", objparams=[1], trees=1, lr=1.0, depth=2, stop=False, tol=0.0001,
             rate=1.0, bins=8, mode="strict", rerate=1, threshold=0.5, npseed=3, lam=1, mingain=1e-3)
    b.update(kw); return b
'''
SEEDS = [
 dict(id="partial-send", prop="C02", file="federation/transfer_inst.py", old="        cs.sendall(byteStream)\n", new="        cs.send(byteStream)\n",
  edits=None, needs="a message larger than what the socket accepts at once", breaks="the rest of a large message is never sent",
  demo='''
import socket, threading
from federation.transfer_inst import TransferInst
a, b = socket.socketpair(); a.settimeout(20); b.settimeout(5)
a.setsockopt(socket.SOL_SOCKET, socket.SO_SNDBUF, 4096)
data = list(range(200000)); got = []
def rd():
    try: got.append(TransferInst.recv_data(b))
    except Exception as e: got.append(e)
t = threading.Thread(target=rd, daemon=True); t.start()
TransferInst.send_data(a, data); t.join(10)
assert got and got[0] == data, str(got)[:80]
print("ok")
'''),
 dict(id="class-major-trees", prop="C10", kit=["fed.py", "boost.py"], file="ml/tree/hetero_secureboosting_tree_guest.py",
  old="self.trees_[i * self.tree_dim + tidx])\n                # tree_inst.set_tree_model", new="self.trees_[i + tidx * rounds])\n                # tree_inst.set_tree_model",
  needs="at least three classes and at least two rounds, followed by a prediction", breaks="trees are added to the scores of other classes at prediction",
  demo=BOOST + '''
X = [[[0], [1], [2], [3], [4], [5]], [[0], [0], [1], [1], [0], [1]]]
r = fit(task(X, [0, 0, 1, 1, 2, 2], task="classification", objective="cross_entropy", trees=2))
F = {k: list(v) for k, v in r.guest.F.collect()}
hub, res = boost.predict(r, X, r.b["keys"], r.b["y"])
G = {k: list(v) for k, v in r.guest.F.collect()}
assert all(abs(a - b) < 1e-9 for k in F for a, b in zip(F[k], G[k])), (F, G)
print("ok")
'''),
 dict(id="threshold-tie", prop="C11", kit=["fed.py", "boost.py"], file="ml/tree/hetero_secureboosting_tree_guest.py",
  old="classes_[1] if pred > threshold else classes_[0]", new="classes_[0] if pred < threshold else classes_[1]",
  needs="a sample whose score equals the threshold exactly", breaks="a score equal to the threshold is reported as the positive class",
  demo=BOOST + '''
X = [[[0], [0], [0], [0]], [[0], [0], [0], [0]]]
r = fit(task(X, [0, 0, 1, 1], task="classification", objective="cross_entropy"))
hub, res = boost.predict(r, X, r.b["keys"], r.b["y"])
res = dict(res.collect())
assert all(v[2] == 0.5 and v[1] == 0 for v in res.values()), res
print("ok")
'''),
 dict(id="merge-width", prop="C15", file="ml/feature/quantile_summaries.py",
  old="if this_sample.g + head.g + head.delta < merge_threshold:", new="if this_sample.g + head.g < merge_threshold:",
  needs="values arriving in several batches with compression in between", breaks="samples are merged although their rank interval becomes too wide",
  demo='''
import random, bisect
from ml.feature.quantile_summaries import QuantileSummaries
worst = 0
for s in range(60):
    r = random.Random(s); q = QuantileSummaries(error=1 / 16, head_size=20, compress_thres=40); xs = []
    for _ in range(1500):
        x = r.choice([r.random(), .5 + r.random() / 100]); q.insert(x); xs.append(x)
    xs.sort(); n = len(xs)
    for a in range(1, 32):
        v = q.query(a / 32); t = a / 32 * n; lo, hi = bisect.bisect_left(xs, v) + 1, bisect.bisect_right(xs, v)
        worst = max(worst, (lo - t) / n, (t - hi) / n)
assert worst <= 1 / 16 + 1 / 1500, worst
print("ok")
'''),
 dict(id="unselected-dropped", prop="C16", file="ml/feature/binning/base_binning.py",
  old="            else:\n                indice.append(col_idx)\n                sparse_value.append(col_value)\n", new="",
  needs="sparse samples and a selection of columns", breaks="columns that are not selected lose their values when the others are binned",
  demo='''
from computing.d_table import DTable
from ml.feature.instance import Instance
from ml.feature.sparse_vector import SparseVector
from ml.feature.binning.quantile_binning import QuantileBinning
from ml.param.feature_binning_param import FeatureBinningParam
t = DTable(True, [(j, Instance(features=SparseVector([0, 1], [j + 1, 7.5 + j], 2))) for j in range(6)]); t.schema = {"header": ["a", "b"]}
b = QuantileBinning(FeatureBinningParam(bin_num=3, cols=[0])); b.fit_split_points(t)
new = dict(b.convert_feature_to_bin(t)[0].collect())
assert [new[j].features.get_data(1) for j in range(6)] == [7.5 + j for j in range(6)], [str(v.features) for v in new.values()]
print("ok")
'''),
 dict(id="default-remembered", prop="C17", kit=["fed.py", "boost.py"], file="ml/feature/sparse_vector.py",
  old="        return self.sparse_vec.get(pos, default_val)", new="        if default_val is None:\n            return self.sparse_vec.get(pos)\n        return self.sparse_vec.setdefault(pos, default_val)",
  needs="sparse samples given by the caller, with a value not stored for a feature of a split", breaks="looking up a feature that is not stored adds it to the caller's sample",
  demo=BOOST + '''
X = [[[0], [0], [2], [3]], [[1], [1], [1], [1]]]
b = task(X, [0, 0, 5, 5], forms=["sparse", "sparse"])
r = fit(b)
tables = [boost.table(b["keys"], X[p], b["y"] if p == 0 else None, "sparse") for p in range(2)]
before = [[dict(v.features.get_all_data()) for _, v in t.collect()] for t in tables]
boost.predict(r, X, b["keys"], tables=tables)
after = [[dict(v.features.get_all_data()) for _, v in t.collect()] for t in tables]
assert before == after, (before, after)
print("ok")
'''),
 dict(id="weights-rounded", prop="C18", kit=["fed.py"], file="ml/tree/hetero_decision_tree_guest.py",
  old="                                  weight=node.weight,\n                                  is_leaf=node.is_leaf,\n                                  left_nodeid=node.left_nodeid,\n                                  right_nodeid=node.right_nodeid)\n\n        model_param.split_maskdict.update",
  new="                                  weight=round(node.weight, 8),\n                                  is_leaf=node.is_leaf,\n                                  left_nodeid=node.left_nodeid,\n                                  right_nodeid=node.right_nodeid)\n\n        model_param.split_maskdict.update",
  needs="a leaf weight with more than eight decimal places", breaks="the saved weights are not those of the tree",
  demo=TREE + '''
X = [[[0], [1], [2], [3]], [[0], [0], [0], [0]]]
r = run(base(X, [-6, -1, 3, 10], depth=3, lamnum=1, lamden=1))
m, p = r.guest.get_model()
assert [n.weight for n in p.tree_] == [n.weight for n in r.guest.tree_], [(a.weight, b.weight) for a, b in zip(p.tree_, r.guest.tree_)]
print("ok")
'''),
 dict(id="guest-preferred", prop="C19", kit=["fed.py"], file="ml/tree/hetero_decision_tree_guest.py",
  old="if splitinfo_guest_host[0].gain >= best_gain_host - consts.FLOAT_ZERO:", new="if splitinfo_guest_host[0].gain * 1.02 >= best_gain_host - consts.FLOAT_ZERO:",
  needs="a host's split that is slightly (less than two percent) better than the guest's", breaks="the guest's split wins although the host's is better, so training differs from training on pooled data",
  demo=TREE + '''
X = [[[0], [1], [1], [1], [1], [1]], [[0], [0], [1], [1], [1], [1]]]
g = [-20, -2.5, 5, 6, 6.5, 5]
r = run(base(X, g, depth=2))
assert r.guest.tree_[0].sitename == "host.0", nodes(r)
print("ok")
'''),
 dict(id="single-precision", prop="C20", file="i_o/utils.py",
  old="        features.append(np.array(vals))\n\n    return header, ids, features\n", new="        features.append(np.array(vals, dtype=np.float32))\n\n    return header, ids, features\n",
  needs="a file without labels with numbers of more than seven digits", breaks="the numbers read by hosts are not those written",
  edits=None, demo='''
from i_o.utils import read_from_csv_with_no_lable
open("f.csv", "w").write("id,a,b\\n1,16777217,0.5\\n2,0.1,123456789.25\\n")
h, i, f = read_from_csv_with_no_lable("f.csv")
assert [[float(v) for v in x] for x in f] == [[16777217, 0.5], [0.1, 123456789.25]], f
print("ok")
'''),
 dict(id="falsy-option-kept", prop="C21", file="ml/utils/param_extract.py",
  old="                if variable in config_json:\n", new="                if config_json.get(variable):\n",
  needs="a configuration that sets an option to zero, an empty value or false", breaks="an option that is switched off in the configuration stays on",
  demo='''
from ml.utils.param_extract import ParamExtract
from ml.param.predict_param import PredictParam
from ml.param.cross_validation_param import CrossValidationParam
p = CrossValidationParam(shuffle=True)
ParamExtract().parse_param_from_config(p, {"CrossValidationParam": {"shuffle": False}})
assert p.shuffle is False, p.shuffle
print("ok")
'''),
 dict(id="mean-over-all-labels", prop="C22", file="ml/loss/regression_loss.py",
  old="        return fair_loss_sum / sample_num", new="        return fair_loss_sum / y.count()",
  needs="predictions for some of the labels only", breaks="the mean loss counts samples without a prediction",
  demo='''
from computing.d_table import DTable
from ml.loss.regression_loss import FairLoss
l = FairLoss(1.0)
a = l.compute_loss(DTable(True, [(0, 1.0), (1, 2.0)]), DTable(True, [(0, 3.0)]))
b = l.compute_loss(DTable(True, [(0, 1.0)]), DTable(True, [(0, 3.0)]))
assert abs(a - b) < 1e-12, (a, b)
print("ok")
'''),
 dict(id="first-minimum", prop="C23", file="ml/statistic/statics.py",
  old="            self.max_value = value\n        if value < self.min_value:", new="            self.max_value = value\n        elif value < self.min_value:",
  needs="a column whose smallest value comes first", breaks="the first value is never taken as the minimum",
  demo='''
from ml.statistic.statics import SummaryStatistics
s = SummaryStatistics()
for x in (1, 3, 2): s.add_value(x)
assert s.min_value == 1, s.min_value
print("ok")
'''),
 dict(id="isometric-not-loaded", prop="C24", file="ml/model_base.py",
  old='        elif "isometric_model" in args:\n            self._load_model(args)\n            stage = "fit"\n', new='        elif "isometric_model" in args:\n            stage = "fit"\n',
  needs="a component started from an isometric model", breaks="the given model is not loaded before fitting",
  demo='''
from ml.model_base import ModelBase
class P:
    def __init__(self): self.need_run = True
    def check(self): pass
seen = []
class M(ModelBase):
    def __init__(self): super().__init__(); self.model_param = P()
    def _load_model(self, a): seen.append("load")
    def fit(self, d): seen.append("fit")
    def _init_runtime_parameters(self, c): self.need_cv = False; self.need_one_vs_rest = False; self.need_run = True
M().run({}, {"isometric_model": {"a": {}}, "data": {"d": {"data": 5}}})
assert seen == ["load", "fit"], seen
print("ok")
'''),
 dict(id="share-rounded", prop="C25", kit=["fed.py", "boost.py"], file="ml/tree/hetero_secureboosting_tree_host.py",
  old="int(self.subsample_feature_rate * self.feature_num)", new="int(round(self.subsample_feature_rate * self.feature_num))",
  needs="a host whose number of features times the rate has a fraction of at least one half", breaks="the host draws more features than the configured share",
  demo=BOOST + '''
X = [[[0], [1], [2], [3]], [[0, 1, 2], [1, 2, 3], [3, 1, 5], [7, 8, 9]]]
b = task(X, [0, 1, 5, 7], rate=0.9)
r = fit(b)
from numpy import random
got = {sum(1 for v in r.hosts[0].sample_valid_features() if v) for _ in range(20)}
assert got == {2}, got
print("ok")
'''),
 dict(id="affine-adds-any-number", prop="C27", file="ml/secureprotol/affine.py",
  old="        elif type(other) is int and other == 0:\n", new="        elif type(other) is int:\n",
  needs="a plain number other than zero added to a ciphertext", breaks="the sum of a ciphertext and a number silently is the ciphertext alone",
  demo='''
from ml.secureprotol.affine import AffineCipher
k = AffineCipher.generate_keypair(1024)
try: v = k.decrypt(k.encrypt(3) + 5)
except TypeError: v = None
assert v is None or abs(v - 8) < 1e-6, v
print("ok")
'''),
]
for s in SEEDS: s.get("edits", 1) or s.pop("edits", None)
