"""Federated runs of the real code over an in-memory transport whose interleaving is chosen by a schedule.

Every party runs in its own thread, but only one at a time: at every send and receive the schedule picks who goes on.
Messages are pickled when sent and unpickled when received, as on the real wire, and all are kept for inspection.
"""
import pickle, threading, sys, traceback
import realcode
import numpy as np
from computing.d_table import DTable
from ml.feature.instance import Instance
from ml.feature.sparse_vector import SparseVector
from drv import rng

def quiet():
    try:
        from ml.utils.logger import LOGGER
        LOGGER.mask.update({k: False for k in LOGGER.mask})
    except Exception: pass
    import logging; logging.disable(logging.CRITICAL)
quiet()

class Abort(BaseException): pass

class Hub:
    """Parties are numbered 0 (guest), 1..n (hosts)."""
    def __init__(self, n, schedule=(0,)):
        self.n = n; self.sched = list(schedule) or [0]; self.k = 0
        self.q = {}                                   # (src, dst) -> list of bytes
        for i in range(1, n + 1): self.q[(0, i)] = []; self.q[(i, 0)] = []
        self.log = []                                 # (op, src, dst, message number)
        self.msgs = []                                # (src, dst, bytes)
        self.cv = threading.Condition(); self.turn = None; self.wait = {}; self.live = set()
        self.aborted = None; self.out = {}; self.val = {}
    # -- scheduling
    def _runnable(self):
        return sorted(p for p in self.live if p not in self.wait or self.q[self.wait[p]])
    def _pick(self):
        r = self._runnable()
        if not r:
            if self.live: self.aborted = self.aborted or "deadlock"
            self.turn = None
        else:
            # a schedule entry names a party; if that party cannot move, it selects by position
            s = self.sched[self.k % len(self.sched)]; self.k += 1
            self.turn = s if s in r else r[s % len(r)]
        self.cv.notify_all()
    def _await(self, me):
        while self.turn != me and not self.aborted: self.cv.wait(60)
        if self.aborted: raise Abort()
    def _switch(self, me):
        self._pick(); self._await(me)
    def send(self, me, to, obj):
        b = pickle.dumps(obj)
        with self.cv:
            if self.aborted: raise Abort()
            self.msgs.append((me, to, b)); self.q[(me, to)].append((len(self.msgs) - 1, b))
            self.log.append(("send", me, to, len(self.msgs) - 1))
            self._switch(me)
    def recv(self, me, frm):
        with self.cv:
            if self.aborted: raise Abort()
            self.wait[me] = (frm, me); self._switch(me)
            del self.wait[me]
            m, b = self.q[(frm, me)].pop(0)
            self.log.append(("recv", me, frm, m))
        return pickle.loads(b)
    def run(self, fns, limit=60):
        """fns: {party: callable}. Returns {party: outcome}; outcome 'ok', exception name, 'deadlock', 'stopped' or 'hang'."""
        def body(p, f):
            try:
                with self.cv: self._await(p)
                v = f(); o = "ok"
            except Abort: o, v = "stopped", None
            except BaseException as e:
                o, v = type(e).__name__, traceback.format_exc()[-1500:]
            with self.cv:
                self.out[p] = o; self.val[p] = v; self.live.discard(p); self.wait.pop(p, None)
                if o not in ("ok", "stopped") : self.aborted = self.aborted or "crash"
                self._pick()
        self.live = set(fns)
        ths = {p: threading.Thread(target=body, args=(p, f), daemon=True) for p, f in fns.items()}
        for t in ths.values(): t.start()
        with self.cv: self._pick()
        import time
        end = time.time() + 4 * limit; cpu = time.process_time() + 1.5 * limit      # the clock alone would call a busy machine stuck
        while any(t.is_alive() for t in ths.values()) and time.time() < end and time.process_time() < cpu:
            for t in ths.values():
                if t.is_alive(): t.join(.2); break
        with self.cv:
            late = [p for p, t in ths.items() if t.is_alive()]
            if late and not self.aborted: self.aborted = "hang"; self.cv.notify_all()
        for t in ths.values(): t.join(1)
        for p in fns:
            if p not in self.out: self.out[p] = "hang"
            elif self.out[p] == "stopped": self.out[p] = self.aborted if self.aborted in ("deadlock", "hang") else "stopped"
        return self.out
    def ok(self): return all(o == "ok" for o in self.out.values())
    def verdict(self):
        """One word for the whole run."""
        for o in self.out.values():
            if o not in ("ok", "stopped"): return o
        return "ok" if self.ok() else "stopped"
    def leftover(self): return sum(len(v) for v in self.q.values())

class GuestEnd:
    def __init__(self, hub): self.hub = hub
    def send_data_to_hosts(self, data, index):
        if index == -1: ids = range(1, self.hub.n + 1)
        elif 0 <= index < self.hub.n: ids = [index + 1]
        else: raise ValueError("index out of range")
        for i in ids: self.hub.send(0, i, data)
    def recv_data_from_hosts(self, index):
        if index == -1: return [self.hub.recv(0, i) for i in range(1, self.hub.n + 1)]
        if 0 <= index < self.hub.n: return self.hub.recv(0, index + 1)
        raise ValueError("index out of range")
class HostEnd:
    def __init__(self, hub, i): self.hub = hub; self.i = i
    def send_data_to_guest(self, data): self.hub.send(self.i, 0, data)
    def recv_data_from_guest(self): return self.hub.recv(self.i, 0)

# -- ciphers -----------------------------------------------------------------------------------------------------
class Sealed:
    """A ciphertext stand-in: arithmetic works, reading or comparing it does not. tag is fresh per encryption."""
    __slots__ = ("v", "tag")
    def __init__(self, v, tag): self.v = v; self.tag = tag
    def __add__(self, o): return Sealed(self.v + (o.v if isinstance(o, Sealed) else o), 0)
    __radd__ = __add__
    def __sub__(self, o): return Sealed(self.v - (o.v if isinstance(o, Sealed) else o), 0)
    def __rsub__(self, o): return Sealed(o - self.v, 0)
    def __mul__(self, o):
        if isinstance(o, Sealed): raise TypeError("product of ciphertexts")
        return Sealed(self.v * o, 0)
    __rmul__ = __mul__
    def __truediv__(self, o): return Sealed(self.v / o, 0)
    def _no(self, *a): raise TypeError("a ciphertext was read")
    __lt__ = __le__ = __gt__ = __ge__ = __float__ = __int__ = __bool__ = __neg__ = __round__ = __abs__ = _no
    def __eq__(self, o): raise TypeError("a ciphertext was compared")
    __hash__ = None
    def __getstate__(self): return (self.v, self.tag)
    def __setstate__(self, s): self.v, self.tag = s
class SealedEncrypter:
    def __init__(self): self.k = 0
    def encrypt(self, v):
        if isinstance(v, Sealed): raise TypeError("encrypting a ciphertext")
        self.k += 1; return Sealed(v, self.k)
    def decrypt(self, c):
        if not isinstance(c, Sealed): raise TypeError("decrypting something that is not a ciphertext")
        return c.v
class PlainEncrypter:
    def encrypt(self, v): return v
    def decrypt(self, v): return v
_keys = {}
def paillier(bits):
    """A real Paillier encrypter; one key per size and process."""
    from ml.secureprotol.encrypt import PaillierEncrypt
    if bits not in _keys:
        e = PaillierEncrypt(); e.generate_key(bits); _keys[bits] = e
    return _keys[bits]
def encrypter(kind):
    if kind == "plain": return PlainEncrypter()
    if kind == "sealed": return SealedEncrypter()
    return paillier(int(kind))

# -- tree level --------------------------------------------------------------------------------------------------
def bin_of(x, sps):
    for b, s in enumerate(sps):
        if x <= s: return b
    return len(sps)
def bins_table(keys, X, SP, order=None):
    """Binned sparse table of one party: raw zeros are not stored."""
    rows = []
    for j in (order or range(len(keys))):
        idx = [f for f in range(len(SP)) if X[j][f] != 0]
        rows.append((keys[j], Instance(inst_id=keys[j], features=SparseVector(idx, [bin_of(X[j][f], SP[f]) for f in idx], len(SP)), label=0)))
    return DTable(True, rows)
def raw_table(keys, X, order=None, unit=1):
    rows = []
    for j in (order or range(len(keys))):
        idx = [f for f in range(len(X[j])) if X[j][f] != 0]
        rows.append((keys[j], Instance(inst_id=keys[j], features=SparseVector(idx, [X[j][f] * unit for f in idx], len(X[j])), label=0)))
    return DTable(True, rows)
def points(SP, unit=1):
    """unit: what one of the data set's integers stands for in the features (a power of two, so that nothing is rounded)."""
    a = np.empty(len(SP), dtype=object)
    for f, s in enumerate(SP): a[f] = np.array(s) * unit if unit != 1 else np.array(s)
    return a
def sparse_points(SP): return {f: bin_of(0, s) for f, s in enumerate(SP)}

def units(d):
    """What one of the data set's integers stands for in gradients, hessians, weights and gains (powers of two, so that nothing is rounded)."""
    g, h = d.get("gu", 1), d.get("hu", 1)
    return g, h, g / h, g * g / h
def times(v, u): return v if u == 1 else v * u
def tree_param(d):
    from ml.param.boosting_tree_param import DecisionTreeParam
    _, hu, _, gainu = units(d)
    return DecisionTreeParam(criterion_params=[times(d["lamnum"] if d["lamden"] == 1 else d["lamnum"] / d["lamden"], hu)] + d.get("more", []), max_depth=d["depth"],
                             min_sample_split=d["minsample"], min_imputiry_split=times(d["minum"] if d["miden"] == 1 else d["minum"] / d["miden"], gainu),
                             min_leaf_node=d["minleaf"], max_split_nodes=d["batch"], feature_importance_type=d.get("imp", "split"))

def site_no(s, idx=None):
    """Party number of a site name; idx: the runtime indices of the hosts, in the order they are connected."""
    if s == "guest": return 0
    if isinstance(s, str) and s.startswith("host.") and s[5:].isdigit():
        k = int(s[5:])
        return k + 1 if idx is None else idx.index(k) + 1 if k in idx else -9
    return -9
def idx_of(d, n): return d.get("idx") or list(range(n))

class TreeRun: pass

def fit_tree(d, schedule=(0,), enc="sealed", order=None, module="ml.tree.hetero_decision_tree_guest", calc=None, limit=15):
    """Trains one tree on data set d (see tree_data) with the real guest and host code."""
    import importlib
    G = importlib.import_module(module).HeteroDecisionTreeGuest
    from ml.tree.hetero_decision_tree_host import HeteroDecisionTreeHost as H
    from ml.secureprotol.encrypt_mode import EncryptModeCalculator
    r = TreeRun(); nh = len(d["X"]) - 1; keys = d["keys"]; r.hub = hub = Hub(nh, schedule); r.idx = idx_of(d, nh)
    alone = module.startswith("xgboost")
    e = encrypter(enc); c = calc or EncryptModeCalculator(e, "strict", 1)
    r.enc = e
    gu, hu, _, _ = units(d)
    gh = DTable(True, [(keys[j], (times(d["g"][j], gu), times(d["h"][j], hu))) for j in range(d["n"])])
    g = G(tree_param(d)); r.guest = g
    g.set_inputinfo(bins_table(keys, d["X"][0], d["SP"][0]), gh, points(d["SP"][0], d.get("unit", 1)), sparse_points(d["SP"][0]))
    g.set_valid_features([bool(v) for v in d["valid"][0]])
    g.set_encrypter(e); g.set_encrypted_mode_calculator(c); g.set_flowid("0.0")
    if not alone: g.set_transfer_inst(GuestEnd(hub))
    r.hosts = []; fns = {0: g.fit}
    for i in range(1, nh + 1):
        h = H(tree_param(d)); r.hosts.append(h)
        o = order(i) if order else None
        h.set_inputinfo(data_bin=bins_table(keys, d["X"][i], d["SP"][i], o), bin_split_points=points(d["SP"][i], d.get("unit", 1)), bin_sparse_points=sparse_points(d["SP"][i]))
        h.set_flowid("0.0"); h.set_runtime_idx(r.idx[i - 1]); h.set_valid_features([bool(v) for v in d["valid"][i]]); h.set_transfer_inst(HostEnd(hub, i))
        fns[i] = h.fit
    hub.run(fns, limit); r.out = hub.verdict()
    return r

def predict_tree(d, models, X, keys, schedule=(0,), order=None, module="ml.tree.hetero_decision_tree_guest", objs=None, limit=15):
    """Prediction by trees loaded from models [(meta, param) per party] (or by the given live objects)."""
    import importlib
    G = importlib.import_module(module).HeteroDecisionTreeGuest
    from ml.tree.hetero_decision_tree_host import HeteroDecisionTreeHost as H
    nh = len(X) - 1; hub = Hub(nh, schedule); fns = {}
    for p in range(nh + 1):
        if objs: t = objs[p]
        else:
            t = (G if p == 0 else H)(tree_param(d)); t.load_model(*models[p]); t.set_flowid("0.0")
            if p: t.set_runtime_idx(idx_of(d, nh)[p - 1])
        if not (p == 0 and module.startswith("xgboost")): t.set_transfer_inst(GuestEnd(hub) if p == 0 else HostEnd(hub, p))
        o = order(p) if order and p else None
        fns[p] = (lambda t=t, tb=raw_table(keys, X[p], o, d.get("unit", 1)): t.predict(tb))
    hub.run(fns, limit)
    return hub, hub.val.get(0)

def micro(x, s=10**6, u=1):
    """A float as a scaled integer, or an impossible value when it is not a number."""
    try: v = float(x) / u
    except Exception: return 2 * 10**9
    if v != v or abs(v) * s > 2 * 10**9: return 2 * 10**9
    return int(round(v * s))

def thr_int(v, unit=1):
    try: v = float(v) / unit; return int(v) if v == int(v) else -10**9
    except Exception: return -10**9

def node_events(r, d):
    """The fitted tree as events, in storage order; thresholds are read from the party owning the node."""
    gm = r.guest.get_model()[1]; hm = [h.get_model()[1] for h in r.hosts]; ev = []
    live = list(r.guest.tree_); gu, hu, wu, _ = units(d)
    for i, nd in enumerate(gm.tree_):
        s = site_no(nd.sitename, r.idx); thr = -10**9
        if not nd.is_leaf:
            md = gm.split_maskdict if s == 0 else (hm[s - 1].split_maskdict if 1 <= s <= len(hm) else {})
            if nd.id in md: thr = thr_int(md[nd.id], d.get("unit", 1))
        ev.append(dict(op="node", id=nd.id, site=s, fid=nd.fid if not nd.is_leaf else -1, thr=thr, left=nd.left_nodeid, right=nd.right_nodeid,
                       leaf=bool(nd.is_leaf), w=micro(nd.weight, u=wu), g=micro(live[i].sum_grad, 1000, gu), h=micro(live[i].sum_hess, 1000, hu)))
    return ev

def host_events(r, unit=1):
    """Each host's copy of the tree: structure, and which thresholds it keeps."""
    ev = []
    for i, h in enumerate(r.hosts):
        m = h.get_model()[1]
        ev.append(dict(op="hosttree", host=i + 1, nodes=[[n.id, site_no(n.sitename, r.idx), -1 if n.is_leaf else n.fid, n.left_nodeid, n.right_nodeid, int(n.is_leaf)] for n in m.tree_],
                       kept=sorted([[int(k), thr_int(v, unit)] for k, v in m.split_maskdict.items()])))
    return ev

def weight_events(r, keys, u=1):
    """How often and with what weight each training sample came out."""
    got = {}
    try:
        for k, v in r.guest.predict_weights.collect(): got.setdefault(k, []).append(v)
    except Exception: pass
    ev = [dict(op="leafw", k=j + 1, w=micro(got[k][0], u=u) if k in got else 2 * 10**9, cnt=len(got.get(k, []))) for j, k in enumerate(keys)]
    ev.append(dict(op="extra", what="training", n=len([k for k in got if k not in set(keys)])))
    return ev

def pred_events(hub, res, keys, what, idx, u=1):
    """Predictions: idx maps the sample to its number in the data set (1-based)."""
    ev = [dict(op="run", what="prediction " + what, out=hub.verdict(), left=hub.leftover())]
    if hub.verdict() != "ok": return ev
    try: got = dict(res.collect())
    except Exception: got = {}
    for j, k in enumerate(keys): ev.append(dict(op="pred", k=idx[j], w=micro(got.get(k), u=u), what=what))
    ev.append(dict(op="extra", what="prediction", n=len([k for k in got if k not in set(keys)])))
    return ev

def tree_data(r, nh=None, small=False, **kw):
    """A random data set: raw small integers with zeros, negatives and duplicates, thresholds per feature, g and h."""
    nh = r.choice([1, 1, 2, 3]) if nh is None else nh
    deep = r.random() < .3
    n = r.choice([3, 4, 5, 6, 7, 8, 9, 10]) if not deep else r.choice([8, 9, 10, 11]); m = r.choice([1, 2, 3])
    nf = [r.randint(1, 3) for _ in range(nh + 1)]
    span = r.choice([1, 2, 3, 5]) if not deep else 5
    zero = r.choice([0.0, 0.2, 0.6])
    def val(): return 0 if r.random() < zero else r.randint(-span, span)
    newn = 6
    X = [[[val() for _ in range(nf[p])] for _ in range(n)] for p in range(nh + 1)]
    NX = [[[r.choice([val(), r.randint(-span - 2, span + 2)]) for _ in range(nf[p])] for _ in range(newn)] for p in range(nh + 1)]
    if r.random() < .4:      # rivals: columns of different parties that agree but for a sample or none
        for _ in range(r.randint(1, 2)):
            p, q = r.randrange(nh + 1), r.randrange(nh + 1); f, e = r.randrange(nf[p]), r.randrange(nf[q])
            for j in range(n): X[q][j][e] = X[p][j][f]
            if r.random() < .8: X[q][r.randrange(n)][e] = val()
    SP = []
    for p in range(nh + 1):
        sp = []
        for f in range(nf[p]):
            c = sorted(set(X[p][j][f] for j in range(n)) | ({0} if r.random() < .5 else set()))
            k = r.randint(1, min(4, len(c))); s = sorted(r.sample(c, k)); sp.append(s)
        SP.append(sp)
    valid = [[1 if r.random() < .8 else 0 for _ in range(nf[p])] for p in range(nh + 1)]
    for p in range(nh + 1):
        if not any(valid[p]): valid[p][r.randrange(nf[p])] = 1
    lam = r.choice([(0, 1), (1, 1), (1, 1), (2, 1), (1, 10)]) if not deep else (1, 1)
    big = lam[1] == 10
    gm = 2 if big else 3
    style = r.choice(["int", "int", "cls", "flat"])
    wide = r.random() < .5 and not big and not deep
    g = [r.choice([r.randint(-25, 25), r.randint(-25, 25), r.randint(-2, 2)]) for _ in range(n)] if wide else [r.randint(-gm, gm) for _ in range(n)] if style == "int" else [r.choice([-1, 1]) for _ in range(n)] if style == "cls" else [r.choice([-1, 0, 0, 1]) for _ in range(n)]
    h = [1] * n if r.random() < .5 else [r.randint(1, 2) for _ in range(n)]
    if big: n0 = min(n, 6)
    else: n0 = n
    mi = r.choice([(0, 1), (1, 1000), (1, 1000), (1, 2), (1, 1), (2, 1)]) if not big else r.choice([(0, 1), (1, 100), (1, 2)])
    key = r.choice(["int", "str", "gap", "mix"])
    keys = [{"int": j, "str": "id%d" % ((j * 7) % 11), "gap": 100 - 3 * j, "mix": (str(j) if j % 2 else j)}[key] for j in range(n0)]
    d = dict(n=n0, X=[x[:n0] for x in X], NX=NX, SP=SP, valid=valid, g=g[:n0], h=h[:n0], lamnum=lam[0], lamden=lam[1], minum=mi[0], miden=mi[1],
             minleaf=r.choice([1, 1, 1, 2, 3]), minsample=r.choice([2, 2, 2, 3, 4]), depth=r.choice([1, 2, 2, 3, 3, 4]), batch=r.choice([1, 1, 2, 3, 65536]),
             keys=keys, imp=r.choice(["split", "gain"]))
    if deep:      # bushy trees: many nodes per level, hence several batches
        d.update(depth=r.choice([3, 4, 5]), batch=r.choice([1, 1, 2, 3]), minleaf=1, minsample=2, minum=0, miden=1)
    if r.random() < .3: d["unit"] = r.choice([2.0**-34, 2.0**-12, 2.0**20])      # numbers far below and above one
    if nh and r.random() < .15: d["idx"] = r.sample(range(25), nh) if r.random() < .5 else r.sample([0, 1, 10, 11, 20, 21, 100], nh)
    if r.random() < .2:      # nodes too small to be split, at parties whose first features are not drawn
        d.update(minsample=r.choice([3, 4, 5, 6]), minleaf=1, minum=0, miden=1, depth=r.choice([3, 4]))
        for p in range(nh + 1):
            if nf[p] > 1: valid[p][0] = 0; valid[p][-1] = 1
    d.update(kw)
    return d

def chain(r, nh, **kw):
    """A tree as deep as can be: every split takes the one sample whose gradient outweighs the rest."""
    n = 11; fib = [1, 1, 2, 3, 5, 8, 13, 21, 34, 45, 60]; p = r.randrange(nh + 1); o = list(range(n)); r.shuffle(o)
    nf = [r.randint(1, 2) for _ in range(nh + 1)]; X = [[[r.randint(-1, 1) for _ in range(nf[q])] for _ in range(n)] for q in range(nh + 1)]
    up = r.random() < .5; f = r.randrange(nf[p]); g = [0] * n
    for k, j in enumerate(o): X[p][j][f] = k if up else -k; g[j] = fib[k] * (-1) ** k
    SP = [[sorted(set(x[e] for x in X[q]))[:12] for e in range(nf[q])] for q in range(nh + 1)]
    d = dict(n=n, X=X, NX=[[[r.randint(-12, 12) for _ in range(nf[q])] for _ in range(8)] for q in range(nh + 1)], SP=SP, valid=[[1] * c for c in nf], g=g, h=[1] * n,
             lamnum=0, lamden=1, minum=0, miden=1, minleaf=1, minsample=2, depth=r.choice([7, 8, 9, 12]), batch=r.choice([1, 2, 65536]), keys=["c%d" % j for j in range(n)], imp=r.choice(["split", "gain"]))
    d.update(kw)
    return d

def fine(r, nh, **kw):
    """Shallow trees on columns of a hundred bins and more, split far up."""
    n = r.randint(105, 150); nf = [1] * (nh + 1); X = [[[v] for v in r.sample(range(-20, 200), n)] for _ in nf]
    p = r.randrange(nh + 1); xs = sorted(x[0] for x in X[p]); cut = xs[r.randint(70, n - 3)]; low = xs[r.randint(66, 69)]
    g = [(2 if x[0] > cut else 1 if x[0] > low else -1) * r.choice([1, 1, 1, 2]) for x in X[p]]
    d = dict(n=n, X=X, NX=[[[r.randint(-22, 202)] for _ in range(8)] for _ in nf], SP=[[sorted(x[0] for x in Y)] for Y in X], valid=[[1]] * (nh + 1), g=g, h=[1] * n,
             lamnum=1, lamden=1, minum=0, miden=1, minleaf=1, minsample=2, depth=r.choice([2, 2, 3]), batch=r.choice([1, 65536]), keys=["f%d" % j for j in range(n)], imp=r.choice(["split", "gain"]))
    d.update(kw)
    return d

def large(r, nh=None, form=None, **kw):
    """Beyond one digit: dozens of samples and nodes, more than ten features, split points and bins; hosts numbered freely."""
    nh = r.choice([1, 1, 2]) if nh is None else nh; n = r.randint(30, 48); kind = r.randrange(3) if form is None else form
    if kind == 3: return chain(r, nh, **kw)
    if kind == 4: return fine(r, nh, **kw)
    nf = [1 if p != kind % (nh + 1) else r.choice([11, 12]) for p in range(nh + 1)] if kind < 2 else [r.randint(1, 2) for _ in range(nh + 1)]
    top = 12 if kind < 2 else r.choice([30, 60])
    def val(): return 0 if r.random() < .15 else r.randint(-3, top)
    X = [[[val() for _ in range(nf[p])] for _ in range(n)] for p in range(nh + 1)]
    NX = [[[r.randint(-5, top + 2) for _ in range(nf[p])] for _ in range(8)] for p in range(nh + 1)]
    # gradients follow one column step by step, so that trees grow deep and reach its upper bins, or several columns
    p, f = r.choice([(p, f) for p in range(nh + 1) for f in range(nf[p])]); steep = kind == 2 and r.random() < .5
    if kind == 2:      # more values than default bins
        n = r.randint(44, 52); X = [[[val() for _ in range(nf[s])] for _ in range(n)] for s in range(nh + 1)]
        for j, v in enumerate(r.sample(range(-4, 60), n)): X[p][j][f] = v
    SP = [[sorted(set(x[c] for x in X[s]))[:14 if kind < 2 else 50] for c in range(nf[s])] for s in range(nh + 1)]
    q, e = r.choice([(p, f) for p in range(nh + 1) for f in range(nf[p])])
    g = [max(-9, min(9, (X[p][j][f] % 5) - 2 + (X[q][j][e] % 3) - 1 + r.randint(-1, 1))) for j in range(n)]
    bushy = kind == 2 and not steep
    if bushy: g = [r.randint(-9, 9) for _ in range(n)]      # trees as bushy as the depth allows
    if steep: top = sorted(x[f] for x in X[p])[r.randint(33, 40)]; g = [r.choice([2, 3]) if X[p][j][f] > top else r.choice([-1, 0, 1]) for j in range(n)]
    idx = r.sample(range(12), nh) if r.random() < .4 else r.sample([0, 1, 10, 11, 20, 21], nh)
    d = dict(n=n, X=X, NX=NX, SP=SP, valid=[[1] * nf[p] for p in range(nh + 1)], g=g, h=[1] * n, lamnum=1, lamden=1, minum=0, miden=1, minleaf=1, minsample=2,
             depth=r.choice([4, 5, 6]), batch=r.choice([3, 7, 13, 65536, 65536]), keys=list(range(n)) if r.random() < .5 else ["id%02d" % j for j in range(n)], imp=r.choice(["split", "gain"]), idx=idx)
    if bushy: d.update(lamnum=0, depth=r.choice([6, 7]), batch=r.choice([5, 11, 65536, 65536]))
    d.update(kw)
    return d

def trace_of(d, focus, ident, ev):
    """The trace handed to TLC: data set, settings and events (keys are replaced by sample numbers)."""
    t = {k: d[k] for k in ("n", "X", "NX", "SP", "valid", "g", "h", "lamnum", "lamden", "minum", "miden", "minleaf", "minsample", "depth", "batch", "imp")}
    t.update(id=ident, focus=focus, ev=ev)
    return t

def imp_events(r, u=1):
    try: it = sorted([site_no(k[0], r.idx), int(k[1]), micro(v, 1000, u)] for k, v in r.guest.get_feature_importance().items())
    except Exception: it = [[-9, -9, -9]]
    return [dict(op="importance", items=it)]

def race(d, hosts=False):
    """How close the best root splits of guest and hosts (or of the two best hosts) are: (relative gap, guest leads). Steers the generation of data, judges nothing."""
    lam = d["lamnum"] / d["lamden"]; G, H = sum(d["g"]), sum(d["h"]); best = []
    for p in range(len(d["X"])):
        b = 0
        for f in range(len(d["SP"][p])):
            if not d["valid"][p][f]: continue
            for s in d["SP"][p][f]:
                L = [j for j in range(d["n"]) if d["X"][p][j][f] <= s]
                if len(L) < d["minleaf"] or d["n"] - len(L) < d["minleaf"]: continue
                gl, hl = sum(d["g"][j] for j in L), sum(d["h"][j] for j in L)
                b = max(b, gl * gl / (hl + lam) + (G - gl) ** 2 / (H - hl + lam) - G * G / (H + lam))
        best.append(b)
    a, h = best[0], max(best[1:])
    if hosts:
        if len(best) < 3 or a >= h: return 9, 0
        a, h = sorted(best[1:])[-2:]
    if a <= d["minum"] / d["miden"] or h <= d["minum"] / d["miden"]: return 9, 0
    return abs(a - h) / max(a, h), a > h

def close_race(r, tries=40, **kw):
    """A data set where guest and hosts, or two hosts, compete closely at the root (not quite a tie)."""
    best = None; hosts = "nh" not in kw and r.random() < .4
    if hosts: tries *= 2
    for _ in range(tries):
        d = tree_data(r, **(dict(kw, nh=r.choice([2, 3])) if hosts else kw)); g, _ = race(d, hosts)
        if g > 1e-9 and (best is None or g < best[0]): best = (g, d)
    return best[1] if best else d
