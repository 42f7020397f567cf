"""All scalar leaves of a message, whatever its shape."""
import math, pickle
import numpy as np
from computing.d_table import DTable
import fed
BIG = 2 * 10**9
class Leaves:
    def __init__(s): s.ints = []; s.floats = []; s.strs = []; s.ciphers = []; s.pubkeys = []; s.seen = set()
def walk(o, L):
    from ml.secureprotol.fate_paillier import PaillierEncryptedNumber, PaillierPublicKey
    if o is None or isinstance(o, bool): return
    if isinstance(o, (int, np.integer)): L.ints.append(int(o)); return
    if isinstance(o, (float, np.floating)): L.floats.append(float(o)); return
    if isinstance(o, str): L.strs.append(o); return
    if isinstance(o, (bytes, bytearray)): L.strs.append(o.decode("latin1")); return
    if isinstance(o, (fed.Sealed, PaillierEncryptedNumber)): L.ciphers.append(o); return
    if isinstance(o, PaillierPublicKey): L.pubkeys.append(o); return
    if id(o) in L.seen: return
    L.seen.add(id(o))
    if isinstance(o, np.ndarray):
        for x in o.reshape(-1).tolist() if o.dtype != object else o.reshape(-1): walk(x, L)
        return
    if isinstance(o, DTable):
        for k, v in o.collect(): (L.strs.append(k) if isinstance(k, str) else None); walk(v, L)
        walk(getattr(o, "schema", None), L)
        for k, v in vars(o).items():
            if k not in ("_DTable__data", "_schema") and not isinstance(v, dict): walk(v, L)
        return
    if isinstance(o, dict):
        for k, v in o.items(): walk(k, L); walk(v, L)
        return
    if isinstance(o, (list, tuple, set, frozenset)):
        for x in o: walk(x, L)
        return
    d = getattr(o, "__dict__", None)
    if d is not None:
        for v in d.values(): walk(v, L)
    for c in type(o).__mro__:
        for k in getattr(c, "__slots__", ()) if not isinstance(getattr(c, "__slots__", ()), str) else ():
            if hasattr(o, k): walk(getattr(o, k), L)
    if hasattr(o, "SerializeToString"): L.strs.append(repr(o))
def raw(c):
    for k in ("_PaillierEncryptedNumber__ciphertext", "ciphertext"):
        v = getattr(c, k, None)
        if isinstance(v, int): return v
    v = [x for x in vars(c).values() if isinstance(x, int)]
    return max(v) if v else 0
def messages(hub, marks=(), priv=None):
    """msg events of a run; a message broadcast to several hosts counts once."""
    from wire import classify
    ev = []; used = {}; sent = {}
    for k, (src, dst, b) in enumerate(hub.msgs):
        o = pickle.loads(b); L = Leaves(); walk(o, L); down = src == 0
        kinds, n = classify(o)
        ints = [x for x in L.ints]; fr = 0
        for x in L.floats:
            if x != x or math.isinf(x) or x != int(x): fr += 1
            else: ints.append(int(x))
        ids = []; stale = 0
        for c in L.ciphers:
            if isinstance(c, fed.Sealed):
                ids.append(c.tag); stale += c.tag == 0
            else:
                v = raw(c); ids.append(v); nn = c.public_key.n
                stale += v == 0 or (v - 1) % nn == 0
        stale += len(ids) - len(set(ids)) if down else 0
        rep = 0
        if down:
            same = sent.get(b) if not any(isinstance(c, fed.Sealed) for c in L.ciphers) else sent.get(b)
            if same is None or dst in same:      # not a copy of a broadcast
                rep = sum(1 for i in ids if i in used)
                for i in ids: used[i] = k
            sent.setdefault(b, set()).add(dst)
        keys = 0
        if priv:
            n_, secrets = priv
            for x in L.ints:
                if x in secrets: keys += 1
                elif x > 2**30 and 1 < math.gcd(x, n_) < n_: keys += 1
        ev.append(dict(op="msg", dir="down" if down else "up", enc=int(kinds == ["enc"]), kinds=kinds[:2], ciphers=len(ids), stale=stale if down else 0, repeats=rep,
                       ints=sorted(set(max(-BIG, min(BIG, x)) for x in ints)), fracs=fr, keys=keys,
                       marks=sum(1 for s in L.strs if any(m in s for m in marks))))
    return ev
