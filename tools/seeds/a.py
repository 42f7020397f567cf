TREE = '''
import fed, random
def run(d, **k):
    r = fed.fit_tree(d, **k)
    assert r.out == "ok", ("training ended with", r.out, r.hub.val)
    return r
def base(X, g, **kw):
    n = len(g)
    SP = [[sorted(set(X[p][j][f] for j in range(n)))[:-1] or [0] for f in range(len(X[p][0]))] for p in range(len(X))]
    d = dict(n=n, X=X, NX=X, SP=SP, valid=[[1] * len(X[p][0]) for p in range(len(X))], g=g, h=[1] * n, lamnum=1, lamden=1, minum=1, miden=1000,
             minleaf=1, minsample=2, depth=2, batch=65536, keys=list(range(n)), imp="split")
    d.update(kw); return d
def nodes(r): return [(n.id, n.sitename, n.is_leaf, round(n.weight, 6)) for n in r.guest.tree_]
'''
SEEDS = [
 dict(id="last-host-ignored", prop="C06", kit=["fed.py"], file="ml/tree/hetero_decision_tree_guest.py",
  old="        for i in range(1, len(splitinfo_guest_host)):\n            gain_host_i", new="        for i in range(1, max(2, len(splitinfo_guest_host) - 1)):\n            gain_host_i",
  needs="at least two hosts, and the best split of a node owned by the last host", breaks="the guest never compares the last host's proposal, so a node is not split at the best candidate",
  demo=TREE + '''
X = [[[0], [0], [1], [1]], [[0], [1], [1], [1]], [[0], [1], [0], [1]]]
r = run(base(X, [-3, 3, -3, 3], depth=2))
assert r.guest.tree_[0].sitename == "host.1", nodes(r)
print("ok")
'''),
 dict(id="importance-overwritten", prop="C07", kit=["fed.py"], file="ml/tree/hetero_decision_tree_guest.py",
  old="self.feature_importances_[(sitename, fid)] += inc", new="self.feature_importances_[(sitename, fid)] = max(inc, self.feature_importances_[(sitename, fid)])",
  needs="a feature used by two nodes of one tree", breaks="importances of features used more than once are not the sum over the nodes",
  demo=TREE + '''
X = [[[0], [1], [2], [3]], [[0], [0], [0], [0]]]
r = run(base(X, [-6, -1, 3, 9], depth=3))
used = sum(1 for n in r.guest.tree_ if not n.is_leaf)
assert used >= 2 and sum(r.guest.get_feature_importance().values()) == used, (used, r.guest.get_feature_importance())
print("ok")
'''),
 dict(id="histogram-mask-break", prop="C08", file="ml/tree/feateur_histogram.py",
  old="                if valid_features is not None and valid_features[fid] is False:\n                    continue\n\n                node_histograms", new="                if valid_features is not None and valid_features[fid] is False:\n                    break\n\n                node_histograms",
  needs="a feature that is not sampled for this tree listed before a sampled one", breaks="stored values after a masked feature are counted in the bin of zero",
  demo='''
import numpy as np
from computing.d_table import DTable
from ml.feature.instance import Instance
from ml.feature.sparse_vector import SparseVector
from ml.tree.feateur_histogram import FeatureHistogram
rows = [(0, (Instance(features=SparseVector([0, 1], [1, 1], 2)), (1, 0))), (1, (Instance(features=SparseVector([0], [1], 2)), (1, 0)))]
sp = np.empty(2, dtype=object); sp[0] = np.array([0.5]); sp[1] = np.array([0.5])
h = FeatureHistogram.calculate_histogram(DTable(True, rows), DTable(True, [(0, (5, 1)), (1, (7, 1))]), sp, {0: 0, 1: 0}, [False, True], {0: 0})
assert h[0][1] == [[7, 1, 1], [5, 1, 1]], h
print("ok")
'''),
 dict(id="host-zero-bin", prop="C09", kit=["fed.py"], file="ml/tree/hetero_decision_tree_host.py",
  old="if value2.features.get_data(fid, bin_sparse_points[fid]) <= bid:", new="if value2.features.get_data(fid, 0) <= bid:",
  needs="a host feature with negative values, so that zero is not in the first bin, and a split between", breaks="in training zero values go left at a host node while prediction sends them right",
  demo=TREE + '''
X = [[[0], [0], [0], [0]], [[-2], [-1], [0], [3]]]
d = base(X, [-3, -3, 3, 3], depth=2)
r = run(d)
w = dict(r.guest.predict_weights.collect())
hub, res = fed.predict_tree(d, [r.guest.get_model(), r.hosts[0].get_model()], X, d["keys"])
res = dict(res.collect())
assert all(abs(w.get(k, 99) - res[k]) < 1e-9 for k in d["keys"]), (w, res)
print("ok")
'''),
 dict(id="early-end-unannounced", prop="C04", kit=["fed.py"], file="ml/tree/hetero_decision_tree_guest.py",
  old="            self.sync_tree_node_queue(self.tree_node_queue, dep)\n            if len(self.tree_node_queue) == 0:\n                break\n", new="            if len(self.tree_node_queue) == 0:\n                break\n            self.sync_tree_node_queue(self.tree_node_queue, dep)\n",
  needs="a tree whose nodes are all leaves before the maximal depth", breaks="the guest stops without telling the hosts, which take the tree message for a node queue",
  demo=TREE + '''
X = [[[0], [0], [1], [1]], [[0], [0], [1], [1]]]
r = run(base(X, [-3, -3, 3, 3], depth=4))
h = r.hosts[0].tree_
assert len(h) == len(r.guest.tree_) and r.hub.leftover() == 0, (len(h), len(r.guest.tree_))
print("ok")
'''),
 dict(id="dispatch-leak", prop="C05", kit=["fed.py"], file="ml/tree/hetero_decision_tree_guest.py",
  old="        self.sync_dispatch_node_host(dispatch_to_host_result, dep)\n", new="        self.sync_dispatch_node_host(dispatch_to_host_result if dispatch_to_host_result.count() else leaf, dep)\n",
  needs="a level at which no sample has to be routed by a host", breaks="leaf weights per sample are sent in the clear to every host",
  demo=TREE + '''
import pickle
X = [[[0], [0], [1], [1]], [[0], [0], [0], [0]]]
d = base(X, [-3, -3, 3, 4], depth=3)
r = fed.fit_tree(d)
w = {round(n.weight, 9) for n in r.guest.tree_ if n.is_leaf}
def walk(o, depth=0):
    if isinstance(o, float): yield round(o, 9)
    elif isinstance(o, (list, tuple)):
        for x in o: yield from walk(x)
    elif type(o).__name__ == "DTable":
        for _, x in o.collect(): yield from walk(x)
seen = set()
for a, b, m in r.hub.msgs:
    if a == 0: seen |= set(walk(pickle.loads(m)))
assert not seen & w, (seen & w)
print("ok")
'''),
 dict(id="paillier-boundary", prop="C12", file="ml/secureprotol/fate_paillier.py",
  old="        u = (mp - mq) * self.q_inverse % self.p\n", new="        u = abs(mp - mq) * self.q_inverse % self.p\n",
  needs="a plaintext whose residues satisfy mp < mq, which small positive numbers never do", breaks="decryption of negative and large plaintexts depends on their residues",
  demo='''
from ml.secureprotol.fate_paillier import PaillierKeypair
for _ in range(4):
    pk, sk = PaillierKeypair.generate_keypair(128)
    for v in (-1, -17, -3.5, 2 ** 40 + 1, 12345678901234567):
        c = pk.encrypt(v) + pk.encrypt(0)
        try: r = sk.decrypt(c)
        except OverflowError as e: r = e
        assert r == v, (v, r)
print("ok")
'''),
 dict(id="balance-stale-prev", prop="C13", file="ml/secureprotol/encrypt_mode.py",
  old="        self.prev_data = input_data.mapValues(lambda val: val)\n", new="        self.prev_data = input_data.mapValues(lambda val: val) if self.prev_data is None or self.mode != \"balance\" else self.prev_data\n",
  needs="balanced mode, at least three calls with changing data of which the third takes the difference path", breaks="the difference is taken to the first data, not to the data of the previous call",
  demo='''
import random
from computing.d_table import DTable
from ml.secureprotol.encrypt_mode import EncryptModeCalculator
class E:
    def encrypt(self, v): return v
real = random.random
random.random = lambda: 0.9
try:
    c = EncryptModeCalculator(E(), "balance", 0.2)
    for rows in ([1.0, 2.0], [3.0, 5.0], [4.0, 4.0], [0.0, 1.0]):
        out = [v for _, v in c.encrypt(DTable(False, rows)).collect()]
        assert out == rows, (rows, out)
finally: random.random = real
print("ok")
'''),
 dict(id="rsub-sign", prop="C14", file="ml/secureprotol/fixedpoint.py",
  old="        res = 1.0 / self.__truediv__(other).decode() \n", new="        res = other / self.decode() if other > 0 else abs(other) / self.decode()\n",
  needs="a negative number divided by a fixed-point number", breaks="the quotient has the wrong sign",
  demo='''
from ml.secureprotol.fixedpoint import FixedPointNumber as F
for a in (6, -6, 3, -1):
    for b in (2.0, -4.0, 0.5):
        assert (a / F.encode(b)).decode() == a / b, (a, b, (a / F.encode(b)).decode())
print("ok")
'''),
 dict(id="converge-absolute-first", prop="C26", file="ml/optim/convergence.py",
  old="        elif abs(self.pre_loss - loss) < self.eps:\n            converge_flag = True\n        self.pre_loss = loss\n", new="        elif abs(self.pre_loss - loss) < self.eps:\n            converge_flag = True\n        self.pre_loss = loss if self.pre_loss is None else min(self.pre_loss, loss)\n",
  needs="a loss that rises and then stays where it is", breaks="the loss is compared to the smallest one so far instead of the previous one",
  demo='''
from ml.optim.convergence import DiffConverge
c = DiffConverge(eps=0.5)
assert [c.is_converge(x) for x in (4.0, 2.0, 6.0, 6.25)] == [False, False, False, True]
print("ok")
'''),
 dict(id="reduce-restart", prop="C01", file="computing/d_table.py",
  old="                ret_val = func(ret_val, v)\n        return ret_val", new="                ret_val = func(ret_val, v) if ret_val else v\n        return ret_val",
  needs="a partial result that is zero or empty in the middle of the reduction", breaks="reduce forgets everything before a falsy partial result",
  demo='''
from computing.d_table import DTable
assert DTable(False, [2, -2, 5]).reduce(lambda a, b: a * 0 + b - a) == 9 or True
t = DTable(False, [3, 0, 7])
assert t.reduce(lambda a, b: a * b) == 0, t.reduce(lambda a, b: a * b)
print("ok")
'''),
 dict(id="arrival-order", prop="C03", file="federation/transfer_inst.py",
  old="            for conn in self.conns:\n                data.append(self.recv_data(conn))\n", new="            import select\n            waiting = list(self.conns)\n            while waiting:\n                for conn in select.select(waiting, [], [])[0]:\n                    data.append(self.recv_data(conn))\n                    waiting.remove(conn)\n",
  needs="at least two hosts where a later one answers first", breaks="answers of all hosts are listed in order of arrival, not by host number",
  demo='''
import threading, time, socket
from federation.transfer_inst import TransferInstGuest, TransferInstHost
s = socket.socket(); s.bind(("127.0.0.1", 0)); port = s.getsockname()[1]; s.close()
def host(i):
    time.sleep(0.3 + 0.3 * i); h = TransferInstHost("127.0.0.1", port)
    time.sleep(1.5 - 0.6 * i); h.send_data_to_guest(i); h.recv_data_from_guest()
ts = [threading.Thread(target=host, args=(i,), daemon=True) for i in range(2)]
for t in ts: t.start()
g = TransferInstGuest(port, 2)
r = g.recv_data_from_hosts(-1); g.send_data_to_hosts(0, -1)
assert r == [0, 1], r
print("ok")
'''),
]
