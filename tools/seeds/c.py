exec(open("/verif/tools/seeds/a.py").read().split("SEEDS = [")[0])
exec("BOOST = " + open("/verif/tools/seeds/b.py").read().split("BOOST = ", 1)[1].split("\nSEEDS = [")[0])
H = "ml/tree/hetero_decision_tree_host.py"; BG = "ml/tree/hetero_secureboosting_tree_guest.py"
SEEDS = [
 dict(id="stored-zero", prop="C28", file="ml/feature/sparse_vector.py", old="        return self.sparse_vec.get(pos, default_val)", new="        return self.sparse_vec.get(pos) or default_val",
  needs="a sparse vector that stores a zero (the first bin, say) and a default other than zero", breaks="a stored zero is taken for a missing entry and the default answered",
  demo='''
from ml.feature.sparse_vector import SparseVector
v = SparseVector([0, 2], [0, 5], 4)
assert [v.get_data(i, 7) for i in range(4)] == [0, 7, 5, 7] and v.get_data(0) == 0, [v.get_data(i, 7) for i in range(4)]
print("ok")
'''),
 dict(id="site-suffix", prop="C09", kit=["fed.py"], file=H, old="if tree_[nid].sitename != sitename:", new="if not sitename.endswith(tree_[nid].sitename.split('.')[-1]):",
  needs="two hosts the number of one of which ends with that of the other (0 and 10)", breaks="host 10 decides, at prediction, about nodes that belong to host 0",
  demo=TREE + '''
X = [[[0], [0], [0], [0]], [[0], [1], [0], [1]], [[0], [0], [1], [1]]]
for idx in ([0, 10], [10, 0]):
    d = base(X, [-6, 2, -3, 9], depth=3, idx=idx)
    r = run(d)
    w = dict(r.guest.predict_weights.collect())
    hub, res = fed.predict_tree(d, [r.guest.get_model()] + [h.get_model() for h in r.hosts], X, d["keys"])
    assert hub.verdict() == "ok", hub.val
    res = dict(res.collect())
    assert all(abs(w[k] - res[k]) < 1e-9 for k in d["keys"]), (idx, w, res)
print("ok")
'''),
 dict(id="count-byte", prop="C08", file="ml/tree/feateur_histogram.py",
  old="                node_histograms[nid][fid][value][2] += 1\n", new="                node_histograms[nid][fid][value][2] = node_histograms[nid][fid][value][2] + 1 & 0xff\n",
  needs="more than 255 samples of a node in one bin", breaks="the number of samples of a bin starts again at zero after 255",
  demo='''
import numpy as np
from computing.d_table import DTable
from ml.feature.instance import Instance
from ml.feature.sparse_vector import SparseVector
from ml.tree.feateur_histogram import FeatureHistogram
n = 300
rows = [(j, (Instance(features=SparseVector([0], [1], 1)), (1, 0))) for j in range(n)]
sp = np.empty(1, dtype=object); sp[0] = np.array([0.5])
h = FeatureHistogram.calculate_histogram(DTable(True, rows), DTable(True, [(j, (1, 1)) for j in range(n)]), sp, {0: 0}, [True], {0: 0})
assert h[0][0] == [[0, 0, 0], [n, n, n]], h
print("ok")
'''),
 dict(id="classes-as-text", prop="C11", kit=["fed.py", "boost.py"], file=BG, old="self.classes_ = sorted(self.classes_)", new="self.classes_ = sorted(self.classes_, key=str)",
  needs="numeric labels whose order as text differs, such as 9 and 10", breaks="the positive class is not the larger label",
  demo=BOOST + '''
X = [[[0], [1], [0], [1]], [[0], [0], [0], [0]]]
r = fit(task(X, [9, 10, 9, 10], task="classification", objective="cross_entropy"))
assert list(r.guest.classes_) == [9, 10], r.guest.classes_
print("ok")
'''),
 dict(id="predictable-obfuscator", prop="C12", file="ml/secureprotol/fate_paillier.py", old="random.SystemRandom().randrange(1, self.n)", new="random.Random(str(ciphertext)).randrange(1, self.n)",
  needs="the same number encrypted twice", breaks="equal numbers have equal ciphertexts, so hosts can compare gradients",
  demo='''
from ml.secureprotol.fate_paillier import PaillierKeypair
pub, pri = PaillierKeypair.generate_keypair(512)
a, b = pub.encrypt(3), pub.encrypt(3)
assert a.ciphertext() != b.ciphertext() and pri.decrypt(a) == 3
print("ok")
'''),
 dict(id="first-bin-dropped", prop="C16", file="ml/feature/binning/base_binning.py",
  old="                indice.append(col_idx)\n                sparse_value.append(bin_num)\n", new="                if bin_num:\n                    indice.append(col_idx)\n                    sparse_value.append(bin_num)\n",
  needs="sparse data with negative values, so that zero lies above the first bin", breaks="values of the first bin are no longer stored and count as zero afterwards",
  demo='''
from computing.d_table import DTable
from ml.feature.instance import Instance
from ml.feature.sparse_vector import SparseVector
from ml.feature.binning.quantile_binning import QuantileBinning
from ml.param.feature_binning_param import FeatureBinningParam
vals = [-5, -4, 1, 2, 3, 4]
t = DTable(True, [(j, Instance(features=SparseVector([0], [v], 1))) for j, v in enumerate(vals)]); t.schema = {"header": ["a"]}
b = QuantileBinning(FeatureBinningParam(bin_num=3), "guest"); sp = b.fit_split_points(t)["a"]
new, _, zero = b.convert_feature_to_bin(t)
got = [v.features.get_data(0, zero[0]) for _, v in new.collect()]
assert got == [sum(1 for s in sp if s < v) for v in vals], (got, sp)
print("ok")
'''),
 dict(id="curve-last-part", prop="C24", file="ml/model_base.py", old="curve_name = '.'.join(flow_id_list[1:])", new="curve_name = flow_id_list[-1]",
  needs="cross-validation with a flow identifier of more than two parts", breaks="curves of different flows get the same name",
  demo='''
from ml.model_base import ModelBase
class Meta:
    def update_metas(self, d): self.d = d
class T:
    def set_metric_meta(self, **k): pass
m = ModelBase(); m.set_tracker(T()); m.need_cv = True; m.set_cv_fold(1); m.set_taskid("t"); m.set_flowid("train.3.0")
x = Meta(); m.callback_meta("loss", "train", x)
assert x.d == {"curve_name": "train.3.0"}, x.d
print("ok")
'''),
 dict(id="none-not-kept", prop="C01", file="computing/d_table.py", old="            if k in new_dict:\n                new_dict[k] = func(new_dict[k], v)", new="            if new_dict.get(k) is not None:\n                new_dict[k] = func(new_dict[k], v)",
  needs="a union of tables sharing a key whose value on the left is None", breaks="the combining function is not asked and the right value replaces the left one",
  demo='''
from computing.d_table import DTable
a = DTable(True, [("k", None), ("l", 1)]); b = DTable(True, [("k", 2), ("m", 3)])
u = dict(a.union(b, lambda x, y: (x, y)).collect())
assert u == {"k": (None, 2), "l": 1, "m": 3}, u
print("ok")
'''),
 dict(id="second-tree-index", prop="C04", kit=["fed.py", "boost.py"], file="ml/tree/hetero_secureboosting_tree_host.py", old="            if self.n_iter_no_change is True:", new="            if self.n_iter_no_change is True and i + 1 < self.num_trees:",
  needs="early stopping switched on and training running through its last round", breaks="hosts leave the last stop announcement unread, so the next phase takes it for something else",
  demo=BOOST + '''
X = [[[0], [1], [2], [3]], [[0], [0], [1], [1]]]
r = fit(task(X, [0.0, 1.0, 4.0, 9.0], trees=2, stop=True, tol=1e-9, lr=0.3))
assert r.hub.leftover() == 0, r.hub.leftover()
print("ok")
'''),

 dict(id="difference-single", prop="C13", file="ml/secureprotol/encrypt_mode.py", old="            return np.array(diff)\n", new="            return np.array(diff, dtype=np.float32)\n",
  needs="rows that are arrays, a mode that updates by difference, values changing by more than 24 bits tell", breaks="the ciphertexts drift away from the current values",
  demo='''
import numpy as np
from computing.d_table import DTable
from ml.secureprotol.encrypt import PaillierEncrypt
from ml.secureprotol.encrypt_mode import EncryptModeCalculator
e = PaillierEncrypt(); e.generate_key(512)
c = EncryptModeCalculator(e, "fast", 0)
c.encrypt(DTable(True, [(0, np.array([1.0, 2.0]))]))
r = dict(c.encrypt(DTable(True, [(0, np.array([1234567.1, 2.3]))])).collect())[0]
assert abs(e.decrypt(r[0]) - 1234567.1) < 1e-6 and abs(e.decrypt(r[1]) - 2.3) < 1e-9, [e.decrypt(x) for x in r]
print("ok")
'''),
 dict(id="merge-either", prop="C23", file="ml/statistic/statics.py", old="            self.max_value = other.max_value\n\n        if self.min_value > other.min_value:", new="            self.max_value = other.max_value\n        elif self.min_value > other.min_value:",
  needs="a part holding both the greatest and the least value of the whole, combined second", breaks="the minimum of the whole is that of the first part",
  demo='''
from ml.statistic.statics import SummaryStatistics
a, b = SummaryStatistics(), SummaryStatistics()
for v in (4, 5): a.add_value(v)
for v in (1, 9): b.add_value(v)
a.merge(b)
assert (a.min_value, a.max_value) == (1, 9), (a.min_value, a.max_value)
print("ok")
'''),
 dict(id="rising-loss", prop="C26", file="ml/optim/convergence.py", old="        elif abs(self.pre_loss - loss) < self.eps:", new="        elif self.pre_loss - loss < self.eps:",
  needs="a loss that grows by more than the tolerance", breaks="a growing loss is reported as convergence",
  demo='''
from ml.optim.convergence import DiffConverge
c = DiffConverge(eps=0.01)
assert [c.is_converge(x) for x in (1.0, 0.5, 0.9, 0.901)] == [False, False, False, True]
print("ok")
'''),
]
