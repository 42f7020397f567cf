"""C01: table programs generated by TLC are replayed into the real DTable; every step is validated by TLC."""
PROP = "C01"
A = ["Lit", "Enum", "Map", "MapV", "MapP", "MapRP", "Filter", "Join", "Union", "Subtract", "SetSchema"]
DESIGN = [dict(module="DTableMC", cfg="DTableMC.cfg", min_states=10000, actions=A),
          dict(module="DTableMC", cfg="DTableMC_thorough.cfg", min_states=100000, thorough=True, timeout=2400, heap="16g")]
GEN = [dict(name="prog", module="DTableMC", cfg="DTableGen.cfg", simulate=dict(quick=120, thorough=1500), depth=16, timeout=1500)]
TRACE = "DTableTrace"
CHUNK = 400
MUST_SEE = ["new", "enum", "map", "mapValues", "mapPartitions", "mapReducePartitions", "filter", "join", "union", "subtractByKey",
            "collect", "take", "first", "count", "reduce", "get_keys", "get_values", "get_kvs", "bad", "setschema"]
ASSUMPTIONS = ["functions passed to the operations are pure", "keys and values are drawn from finite families (ints, strings, tuples, None; ints, tuples, lists)"]

SPECIAL = {100: "a", 101: "b", 102: "", 200: (1, 2), 201: (), 300: None, 301: 2.5}
def kdec(c): return SPECIAL.get(c, c)
def kenc(k):
    for c, p in SPECIAL.items():
        if type(p) is type(k) and p == k: return c
    if type(k) is int: return k
    raise ValueError("foreign key %r" % (k,))

class VMode:
    def __init__(s, mode, truth=0): s.mode = mode; s.truth = truth
    ODD = {0: None, 1: "", 2: 0.0, 3: False, 9: (), 5: None.__class__}       # values that count as false, and others a table must not care about
    def dec(s, n):
        if s.mode == "odd": return s.ODD.get(n, ("v", n))
        return n if s.mode == "int" else ("v", n) if s.mode == "tuple" else [n]
    def enc(s, v):
        if s.mode == "odd":
            for n, w in s.ODD.items():
                if type(w) is type(v) and w == v: return n
            if type(v) is tuple and len(v) == 2: return v[1]
        if s.mode == "int" and type(v) is int: return v
        if s.mode == "tuple" and type(v) is tuple and len(v) == 2: return v[1]
        if s.mode == "list" and type(v) is list and len(v) == 1: return v[0]
        raise ValueError("foreign value %r" % (v,))

F2 = dict(sub=lambda a, b: a - b, left=lambda a, b: a, right=lambda a, b: b, sum=lambda a, b: a + b, mix=lambda a, b: 2 * a + 3 * b)
TRUTH = [bool, int, lambda b: __import__("numpy").bool_(b)]       # how a predicate says yes
MAPF = dict(inc=lambda k, v: v + 1, kv=lambda k, v: k + v, neg=lambda k, v: -v, zero=lambda k, v: 0)
PRED = dict(even=lambda k, v: v % 2 == 0, kbig=lambda k, v: k > 1, all=lambda k, v: True, none=lambda k, v: False, pos=lambda k, v: v > 0)

def run(DTable, prog, vm, tid, R=3):
    from drv import attempt
    regs = [DTable(True, []) for _ in range(R)]
    D, E = vm.dec, vm.enc
    f2 = lambda n: (lambda x, y: D(F2[n](E(x), E(y))))
    def part(n, kvs):
        kvs = list(kvs)
        if n == "values": return [v for _, v in kvs]
        if n == "keys": return [D(kenc(k)) for k, _ in kvs]
        if n == "dup": return [x for _, v in kvs for x in (v, D(E(v) + 10))]
        if n == "count": return [D(len(kvs))]
        return []
    def mapper(n, kvs):
        if n == "same": return [(k, v) for k, v in kvs]
        if n == "mod2": return [(kenc(k) % 2, v) for k, v in kvs]
        if n == "byval": return [(kdec(E(v)), D(kenc(k))) for k, v in kvs]
        return [(7, v) for k, v in kvs]
    def do(e):
        op = e["op"]; a = regs[e["a"] - 1]; b = regs[e["b"] - 1]; n = e["f"]
        pr = lambda it: [[kenc(k), E(v)] for k, v in it]
        if op == "new": return DTable(True, [(kdec(k), D(v)) for k, v in e["items"]])
        if op == "enum": return DTable(False, [D(v) for v in e["vals0"]])
        if op == "map": return a.map(lambda k, v: D(MAPF[n](kenc(k), E(v))))
        if op == "mapValues": return a.mapValues(lambda v: D(MAPF[n](0, E(v))))
        if op == "mapPartitions": return a.mapPartitions(lambda kvs: part(n, kvs))
        if op == "mapReducePartitions": return a.mapReducePartitions(lambda kvs: mapper(e["g"], kvs), f2(n))
        if op == "filter": return a.filter(lambda k, v: TRUTH[vm.truth](PRED[n](kenc(k), E(v))))
        if op == "join": return a.join(b) if n == "default" else a.join(b, f2(n))
        if op == "union": return a.union(b) if n == "default" else a.union(b, f2(n))
        if op == "subtractByKey": return a.subtractByKey(b)
        if op == "setschema": a.schema["tag"] = e["n"]; return None
        if op == "collect": return pr(a.collect())
        if op == "get_kvs": return pr(a.get_kvs())
        if op == "take": return pr(a.take(e["n"]) if e["n"] != 1 else a.take())
        if op == "first":
            v = a.first(); return [] if v is None and not (vm.mode == "odd" and a.count()) else [E(v)]
        if op == "count": return [a.count()]
        if op == "get_keys": return [kenc(k) for k in a.get_keys()]
        if op == "get_values": return [E(v) for v in a.get_values()]
        if op == "reduce":
            v = a.reduce(f2(n)); return [] if v is None and not (vm.mode == "odd" and a.count()) else [E(v)]
        if op == "bad":
            k = e["kind"]
            if k == "dupkey": return DTable(True, [(1, D(1)), (2, D(2)), (1, D(3))])
            if k == "notlist": return DTable(False, 5)
            if k == "tuple": return DTable(False, (D(1), D(2)))
            if k == "dictdata": return DTable(True, {1: D(2)})
            if k == "notpair": return DTable(True, [D(1), 5])
            if k == "triple": return DTable(True, [(1, D(1)), (1, 2, 3)])
            if k == "listpair": return DTable(True, [[1, D(1)]])
            if k == "badflag": return DTable("yes", [D(1)])
        raise AssertionError(op)
    TABLE = {"new", "enum", "map", "mapValues", "mapPartitions", "mapReducePartitions", "filter", "join", "union", "subtractByKey"}
    PAIR = {"collect", "get_kvs", "take"}
    out = []
    for e in prog:
        e = dict(e); e.setdefault("kind", "")
        if e["op"] == "enum": e["vals0"] = e["vals"]
        o, v = attempt(lambda: do(e), 10)
        ev = dict(e); ev.update(out=o, shape="ok", pairs=[], regs=[], schema=[])
        if e["op"] != "enum": ev["vals"] = []
        ev.pop("vals0", None)
        if o == "ok":
            if e["op"] in TABLE:
                if isinstance(v, DTable): regs[e["dst"] - 1] = v
                else: ev["shape"] = "not a table"
            elif e["op"] in PAIR: ev["pairs"] = v
            elif e["op"] not in ("setschema", "bad"):
                ev["vals"] = v
                if not all(type(x) is int for x in v): ev["shape"] = "not an int"
        def snap():
            return ([[[kenc(k), E(x)] for k, x in list(t.collect())] for t in regs], [t.schema.get("tag", 0) for t in regs])
        o2, s2 = attempt(snap, 10)
        if o2 == "ok": ev["regs"], ev["schema"] = s2
        else: ev["shape"] = "unreadable table: " + o2; ev["regs"] = [[[-999, 0]]]*R; ev["schema"] = [0]*R
        out.append(ev)
        if o != "ok" and e["op"] != "bad": break
    return dict(id=tid, ev=out)

def drive(tier, seed, gen):
    import realcode
    from computing.d_table import DTable
    from drv import rng
    base = dict(op="", a=1, b=1, dst=1, f="", g="", n=0, items=[], vals=[], kind="")
    OBS = ["collect", "get_kvs", "take", "first", "count", "get_keys", "get_values", "reduce"]
    KINDS = ["dupkey", "notlist", "tuple", "dictdata", "notpair", "triple", "listpair", "badflag"]
    for i, prog in enumerate(gen["prog"]):
        r = rng(seed, "c01", i)
        full = []
        for e in prog:                       # observers and malformed constructions woven into the generated program
            full.append(e)
            for op in r.sample(OBS, 2):
                full.append(dict(base, op=op, a=r.randint(1, 3), n=r.randint(0, 6), f=r.choice(["sub", "left", "right", "sum", "mix"])))
            if r.random() < 0.15: full.append(dict(base, op="bad", kind=r.choice(KINDS)))
        yield run(DTable, full, VMode(["int", "tuple", "list", "odd"][i % 4], i % 3), "p%d" % i)
    # directed: two-table algebra over larger tables with partial overlap, all functions
    n = 0
    r = rng(seed, "c01", "directed")
    keys = [0, 1, 2, 3, 4, 5, 100, 101, 102, 200, 201, 300, 301]
    for rep in range(70 if tier == "quick" else 300):
        vals = list(range(-5, 10)) if rep % 4 != 3 else [0, 0, 0, 1, 2, 3, 9, 5, 7]
        m = 13 if rep % 2 else 8
        ka = r.sample(keys, r.randint(0, 8)); kb = r.sample(keys, r.randint(0, m))
        if rep % 4 == 3: ka = r.sample(keys[:9], 7); kb = r.sample(keys[:9], 7)
        prog = [dict(base, op="new", dst=1, items=[[k, r.choice(vals)] for k in ka]),
                dict(base, op="new", dst=2, items=[[k, r.choice(vals)] for k in kb])]
        prog += [dict(base, op=o, a=x, b=y, dst=3, f=f) for o in ("join", "union") for f in ("sub", "mix", "default") for x, y in ((1, 2), (2, 1), (1, 1))]
        prog += [dict(base, op="subtractByKey", a=x, b=y, dst=3) for x, y in ((1, 2), (2, 1), (2, 2))]
        prog += [dict(base, op="mapReducePartitions", a=1, dst=3, g=g, f=f) for g in ("mod2", "one", "byval") for f in ("sub", "mix")]
        prog += [dict(base, op=o, a=a, f="sub", n=k) for a in (1, 2, 3) for o in OBS for k in ((0, 1, 3, 20) if o == "take" else (0,))]
        prog += [dict(base, op="bad", kind=k) for k in KINDS]
        yield run(DTable, prog, VMode(["int", "tuple", "list", "odd"][rep % 4], rep % 3), "d%d" % rep)

    # large tables: what an operation does must not depend on how many entries there are
    for rep, (n, m) in enumerate([(60, 70), (130, 20), (20, 130), (260, 260)]):
        r = rng(seed, "c01", "large", rep)
        ka = r.sample(range(400), n); kb = r.sample(ka, min(n, m) // 2); kb = kb + r.sample([k for k in range(400) if k not in ka], m - len(kb)); r.shuffle(kb)
        prog = [dict(base, op="new", dst=1, items=[[k, r.randint(-9, 9)] for k in ka]), dict(base, op="new", dst=2, items=[[k, r.randint(-9, 9)] for k in kb])]
        prog += [dict(base, op=o, a=x, b=y, dst=3, f="mix") for o in ("join", "union", "subtractByKey") for x, y in ((1, 2), (2, 1))]
        prog += [dict(base, op="mapValues", a=1, dst=3, f="inc"), dict(base, op="filter", a=1, dst=3, f="even"), dict(base, op="mapPartitions", a=1, dst=3, f="values")]
        prog += [dict(base, op="mapReducePartitions", a=1, dst=3, g="mod2", f="right"), dict(base, op="map", a=2, dst=1, f="kv")]
        prog += [dict(base, op=o, a=a, f="right", n=n - 1) for a in (1, 2) for o in OBS]
        yield run(DTable, prog, VMode(["list", "tuple", "int"][rep % 3], rep % 3), "L%d" % rep)

def corrupt(t):
    for k, e in enumerate(t["ev"]):
        if e["op"] in ("join", "union", "map") and e["out"] == "ok" and e["regs"][e["dst"] - 1]:
            e["regs"][e["dst"] - 1][0][1] += 1; t["ev"] = t["ev"][:k + 1]
            return [t]
    return []
