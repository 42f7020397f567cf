"""What a message may stand for, judged by its payload only."""
import pickle
from computing.d_table import DTable
from ml.tree.node import Node, SplitInfo
TABLES = ["enc", "pos", "disp", "dres", "pdata", "pres"]
LISTS = ["queue", "cand", "best", "final", "tree"]
def cipher(v): return not isinstance(v, (int, float, str, bool, type(None), tuple, list, dict)) and not hasattr(v, "dtype")
def classify(o):
    """(kinds, size)"""
    if isinstance(o, bool) or type(o).__name__ == "bool_": return ["stop", "fin"], int(bool(o))
    if isinstance(o, int): return ["dim"], o
    if isinstance(o, DTable):
        vs = [v for _, v in o.collect()]; n = len(vs)
        if not n: return TABLES, 0
        if all(isinstance(v, (tuple, list)) and len(v) == 2 and cipher(v[0]) for v in vs): return ["enc"], n
        if all(isinstance(v, (tuple, list)) and len(v) == 2 for v in vs): return ["enc", "pos", "dres", "pdata", "pres"], n
        if all(isinstance(v, (tuple, list)) and len(v) == 7 for v in vs): return ["disp", "dres"], n
        if all(isinstance(v, (tuple, list)) and len(v) in (2, 7) for v in vs): return ["dres"], n
        return TABLES, n
    if isinstance(o, (list, tuple)):
        if not len(o): return LISTS, 0
        if all(isinstance(x, Node) for x in o): return ["queue", "tree"], len(o)
        if all(isinstance(x, SplitInfo) for x in o): return ["final"], len(o)
        if all(isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], int) for x in o): return ["best"], len(o)
        if all(isinstance(x, (list, tuple)) for x in o): return ["cand"], len(o)
    return TABLES + LISTS + ["dim", "stop", "fin"], -1
def wire_events(hub):
    cl = {}; ev = []
    for op, me, peer, m in hub.log:
        if m not in cl: cl[m] = classify(pickle.loads(hub.msgs[m][2]))
        ev.append(dict(op=op, me=me, peer=peer, kinds=cl[m][0], arg=cl[m][1]))
    ev.append(dict(op="finish", out=hub.verdict(), left=hub.leftover()))
    return ev
