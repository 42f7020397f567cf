"""C23: column statistics of tables and of combined parts against the exact ones; merged sketches."""
DESIGN = [dict(module="StatsMC", cfg="StatsMC_none.cfg", min_states=10000), dict(module="MergeMC", cfg="MergeMC_none.cfg", min_states=40000)] + \
         [dict(module="StatsMC", cfg="StatsMC_%s.cfg" % f, expect=x) for f, x in (("max", "Extremes"), ("first", "Extremes"), ("mean", "Counted"), ("cross", "Variance"), ("abn", "Counted"))] + \
         [dict(module="MergeMC", cfg="MergeMC_lost.cfg", expect="MKept"), dict(module="MergeMC", cfg="MergeMC_plain.cfg", expect="MRanks", simulate=2000, depth=60),
          dict(module="MergeMC", cfg="MergeMC_sim.cfg", simulate=100, depth=60),
          dict(module="MergeMC", cfg="MergeMC_sim.cfg", simulate=1500, depth=60, thorough=True, timeout=2400),
          dict(module="StatsMC", cfg="StatsMC_thorough.cfg", min_states=100000, thorough=True, timeout=2400, heap="12g")]
GEN = []
TRACE = "StatsTrace"
CHUNK = 60
MUST_SEE = ["stat", "zeros", "keys", "refuse", "kept", "many", "query", "count"]
ASSUMPTIONS = ["every selected column has at least one accepted value", "NaN is not used", "samples are dense"]
OTHER = 10**8

def drive(tier, seed, gen):
    import realcode
    realcode.compat()
    from fractions import Fraction as Fr
    import numpy as np
    from computing.d_table import DTable
    from ml.feature.instance import Instance
    from ml.feature.quantile_summaries import QuantileSummaries, SparseQuantileSummaries
    from ml.statistic.statics import MultivariateStatisticalSummary as MS, SummaryStatistics as SS
    from drv import rng, attempt
    class Col: pass
    def real(c, code): return c.base + Fr(code, 4) * c.scale
    def number(c, code):
        v = real(c, code)
        return int(v) if c.ints and v.denominator == 1 else float(v)
    def m6(x):
        x = x * 10**6; n = int(x + Fr(1, 2) if x >= 0 else x - Fr(1, 2))
        return max(-2 * 10**9, min(2 * 10**9, n))
    def shown(c, what, v):
        """(millionths, is it zero) of a reported value, on the scale of the codes."""
        v = float(v)
        if v != v or v in (float("inf"), float("-inf")): return 2 * 10**9, 0
        f = Fr(v)
        if what == "var": f = f if c.tiny else f / c.scale ** 2
        elif what == "std": f = f / c.scale
        else: f = (f - c.base) / c.scale
        return m6(f), int(v == 0)
    def code(c, v):
        try: f = round((Fr(float(v)) - c.base) / c.scale * 4)
        except Exception: return OTHER - 1
        return f if abs(f) < 10**6 and float(real(c, f)) == float(v) else OTHER - 1
    def column(r, n):
        c = Col(); c.kind = r.choice(["plain", "plain", "plain", "offset", "huge", "tiny", "const", "text"])
        c.base = Fr({"offset": r.choice([10**6, -10**7, 1600000000]), "const": 0}.get(c.kind, 0)); c.tiny = int(c.kind == "tiny")
        c.scale = {"huge": Fr(2)**70, "tiny": Fr(1, 1024)}.get(c.kind, Fr(1)); c.ints = r.random() < .3
        lo, hi = r.choice([(-12, 12), (-40, 40), (1, 30), (-30, -1), (0, 3)])
        c.codes = [r.randint(lo, hi) for _ in range(n)]
        if c.kind == "const": c.codes = [r.randint(lo, hi)] * n; c.base = Fr(r.choice([0.1, 123456789.3, -0.7, 1e8 + 0.1]))
        return c
    def summaries(kind, v): return {"max": v.max_value, "min": v.min_value, "mean": v.mean, "var": v.variance, "std": v.std_variance}[kind]
    KINDS = ["max", "min", "mean", "var", "std"]
    def stat(ev, c, i, what, o, v, **kw):
        e = dict(op="stat", what=what, c=i + 1, out=o, v=0, z=0, tiny=c.tiny, **kw)
        if o == "ok":
            def f(): return shown(c, what, v) if what in KINDS else (code(c, v), 0)
            o2, w = attempt(f, 5); e["out"] = o2
            if o2 == "ok": e["v"], e["z"] = w
        ev.append(e)
    hung = 0
    for i in range(250 if tier == "quick" else 4000):
        if hung > 2: break
        r = rng(seed, "c23", i); n = r.choice([1, 2, 3, 5, 8, 13, 40]) if i % 10 else 200; k = r.randint(1, 4) if i % 25 != 7 else r.randint(11, 13); cols = [column(r, n) for _ in range(k)]; ev = []
        marks = r.choice([[], [], [-100], [-100, 101]]); words = r.choice([[], [], ["NA"], ["", "NA"]])
        # an abnormal value means the same number in every column: only columns on the common scale have it
        vals = []
        for c in cols:
            v = [number(c, x) for x in c.codes]; raw = list(c.codes)
            for j in range(n):
                if n > 1 and j and r.random() < .2:
                    if marks and c.base == 0 and c.scale == 1: raw[j] = r.choice(marks); v[j] = raw[j] / 4
                    elif c.kind == "text":
                        raw[j] = OTHER; v[j] = r.choice(words + ["abc", "?", None, "1,5"])
                        if r.random() < .3: raw[j] = c.codes[j]; v[j] = str(number(c, raw[j]))
            vals.append(v); c.raw = raw
        abn = [m / 4 for m in marks] + words
        if r.random() < .5 and not abn: abn = None
        objects = any(isinstance(x, (str, type(None))) for v in vals for x in v)
        form = r.choice(["inst", "inst", "instlist", "list", "array"])
        def row(j):
            x = [v[j] for v in vals]
            if form in ("inst", "array"): x = np.array(x, dtype=object) if objects or r.random() < .2 else np.array(x, dtype=float)
            return Instance(inst_id=j, features=x, label=1) if form.startswith("inst") else x
        rows = [row(j) for j in range(n)]
        header = ["h%d" % (7 * c % (5 if k < 5 else 13)) for c in range(k)]
        t = DTable(True, [("k%d" % (j * 17 % 503), rows[j]) for j in range(n)]); t.schema = {"header": header}
        selx = -1 if r.random() < .5 else r.sample(range(k), r.randint(1, k)); sel = list(range(k)) if selx == -1 else selx
        if selx != -1 and r.random() < .2: selx = [str(x) for x in selx]
        keep = [list(x.features) if form.startswith("inst") else list(x) for x in rows]; abk = None if abn is None else list(abn); hk = list(header)
        o, ms = attempt(lambda: MS(t, selx) if abn is None and r.random() < .5 else MS(t, selx, abn), 5)
        if o != "ok": ev.append(dict(op="stat", what="mean", c=1, out=o, v=0, z=0, tiny=0))
        else:
            calls = [("max", ms.get_max), ("min", ms.get_min), ("mean", ms.get_mean), ("var", ms.get_variance), ("std", ms.get_std_variance), ("median", ms.get_median)] + [("quantile", ms.get_quantile_point)] * 6
            calls += r.sample(calls[:6], 2); r.shuffle(calls)
            for what, f in calls:
                asked = None if r.random() < .6 else r.sample(range(k), r.randint(1, k)) + ([98] if r.random() < .3 else [])
                cd = None if asked is None else {("h?" if x == 98 else header[x]): x for x in asked}
                kw = {}
                if what == "quantile":
                    kw = r.choice([dict(qn=q, qd=8) for q in range(9)] + [dict(qn=1, qd=64), dict(qn=63, qd=64)])
                    o, v = attempt(lambda: f(kw["qn"] / kw["qd"], cd) if cd is not None else f(kw["qn"] / kw["qd"]), 10)
                else: o, v = attempt(lambda: f(cd) if cd is not None else f(), 10)
                hung += o == "hang"
                if o == "ok" and not isinstance(v, dict): o = "no dict"
                if o != "ok": stat(ev, cols[sel[0]], sel[0], what, o, None, **kw); continue
                ev.append(dict(op="keys", asked=[x + 1 for x in (range(k) if asked is None else asked)], got=[header.index(x) + 1 if x in header else 99 for x in v]))
                for x in sel:
                    if header[x] in v: stat(ev, cols[x], x, what, "ok", v[header[x]], **kw)
            same = [list(x.features) if form.startswith("inst") else list(x) for x in rows] == keep and abn == abk and header == hk
            ev.append(dict(op="kept", same=int(same)))
        if i % 5 == 0:
            bad = r.choice([[k], [0, k + 3], ["x"]])
            o, v = attempt(lambda: MS(t, bad).get_mean(), 5); ev.append(dict(op="refuse", out=o))
        yield dict(id="table%d" % i, cols=[c.raw for c in cols], abn=marks, sel=[x + 1 for x in sel], ev=ev)
    # parts
    for i in range(150 if tier == "quick" else 3000):
        if hung > 2: break
        r = rng(seed, "c23p", i); n = r.choice([2, 3, 5, 9, 30]); k = r.randint(1, 2); cols = [column(r, n) for _ in range(k)]; ev = []; np_ = r.randint(2, 4)
        marks = r.choice([[], [-100]])
        for c in cols:
            c.raw = list(c.codes)
            for j in range(1, n):
                if marks and r.random() < .2 and c.base == 0 and c.scale == 1: c.raw[j] = -100
        own = [r.randrange(np_) for _ in range(n)]; abn = [m / 4 for m in marks]
        if i % 2 == 0:
            def one(ci, p):
                s = SS(abn) if abn else SS()
                for j in range(n):
                    if own[j] == p: s.add_value(number(cols[ci], cols[ci].raw[j]))
                return s
            make = lambda p: {ci: one(ci, p) for ci in range(k)}
        else:
            names = {ci: ci for ci in range(k)}
            make = lambda p: MS.static_in_partition([(j, Instance(features=[number(c, c.raw[j]) for c in cols])) for j in range(n) if own[j] == p], names, abn)[0]
        def whole():
            ps = [make(p) for p in range(np_)]; r2 = rng(seed, "c23o", i); kept = 1
            while len(ps) > 1:
                a, b = r2.sample(range(len(ps)), 2)
                before = [[summaries(q, ps[b][ci]) for q in KINDS] for ci in ps[b] if ps[b][ci].count]
                if i % 3: x = MS.aggregate_statics(ps[a], ps[b])
                else:
                    for ci in ps[a]: ps[a][ci].merge(ps[b][ci])
                    x = ps[a]
                kept &= before == [[summaries(q, ps[b][ci]) for q in KINDS] for ci in ps[b] if ps[b][ci].count]
                ps = [q for j, q in enumerate(ps) if j not in (a, b)] + [x]
            x = ps[0]
            if i % 4 == 0: x = MS.aggregate_statics(None, x); x = MS.aggregate_statics(x, None)
            return [[summaries(q, x[ci]) for q in KINDS] for ci in range(k)], kept
        o, v = attempt(whole, 20); hung += o == "hang"
        for ci, c in enumerate(cols):
            for q, what in enumerate(KINDS): stat(ev, c, ci, what, o, v[0][ci][q] if o == "ok" else None)
        ev.append(dict(op="kept", same=v[1] if o == "ok" else 1))
        yield dict(id="parts%d" % i, cols=[c.raw for c in cols], abn=marks, sel=list(range(1, k + 1)), ev=ev)
    # sketches of parts
    for i in range(200 if tier == "quick" else 3000):
        if hung > 2: break
        r = rng(seed, "c23m", i); np_ = r.choice([2, 3, 5, 8, 12, 12]); en, ed = r.choice([(1, 64), (1, 16), (1, 32), (1, 128), (1, 8), (1, 4), (1, 1000), (0, 1)]); sparse = i % 5 == 4
        style = r.choice(["few", "uniq", "skew", "mixed"]); few = r.sample(range(-400, 400), 5); ps = []; items = []; asked = []; sizes = []
        hs, ct = r.choice([(3, 5), (3, 40), (20, 5), (50, 40), (10000, 10000)])
        POINTS = [(0, 1), (1, 8), (1, 4), (1, 2), (7, 8), (1, 1)]
        def build():
            for p in range(np_):
                q = (SparseQuantileSummaries if sparse else QuantileSummaries)(error=en / ed if en else 0, head_size=hs, compress_thres=ct)
                m = r.choice([0, 1, 5, 40, 150, 300])
                xs = [r.choice(few) for _ in range(m)] if style == "few" else [int(r.gauss(p * 10, 30)) for _ in range(m)] if style == "skew" else [r.randint(-400, 400) for _ in range(m)]
                if style == "mixed": lo = r.randint(-400, 360); xs = [max(lo, min(lo + 40, x)) for x in xs]
                if sparse: xs = [x for x in xs if x]
                if r.random() < .3: xs.sort(reverse=r.random() < .5)
                for x in xs: q.insert(x / 4)
                ps.append(q); items.extend(xs); sizes.append(len(xs))
            order = r.choice(["chain", "tree", "bal"])
            while len(ps) > 1:
                a, b = r.sample(range(len(ps)), 2) if order == "tree" else (0, 1)
                ps[a].merge(ps[b])
                if sizes[b]: asked.append((ps[b], [ps[b].query(n / d) for n, d in POINTS]))
                q = ps[a]; sizes[a] += sizes[b]; del ps[b], sizes[b]
                if order == "bal": ps.append(ps.pop(0)); sizes.append(sizes.pop(0))
                if r.random() < .2 and len(ps) > 1 and items:      # a part goes on receiving values
                    for x in r.sample(few, 3):
                        if x or not sparse: q.insert(x / 4); items.append(x); sizes[ps.index(q)] += 1
            return ps[0]
        o, q = attempt(build, 60); hung += o == "hang"
        bag = {}
        for x in items: bag[x] = bag.get(x, 0) + 1
        ev = [dict(op="many", items=[[x, c] for x, c in sorted(bag.items())], out=o)]
        if o == "ok" and items:
            z = r.choice([0, 1, len(items) // 2, 3 * len(items)]) if sparse else 0
            if sparse: q.set_total_count(len(items) + z); ev.append(dict(op="zeros", z=z))
            for a in range(33):
                o2, x = attempt(lambda: q.query(a / 32), 20)
                ev.append(dict(op="query", qn=a, qd=32, out=o2, x=int(x * 4) if o2 == "ok" else OTHER))
            ev.append(dict(op="count", c=int(getattr(q, "count", len(items)))))
            s = getattr(q, "sampled", None)
            if isinstance(s, list) and all(hasattr(x, "value") for x in s): ev.append(dict(op="samples", s=[int(x.value * 4) for x in s]))
            o2, same = attempt(lambda: all([p.query(n / d) for n, d in POINTS] == v for p, v in asked), 60)
            ev.append(dict(op="kept", same=int(o2 == "ok" and same)))
        yield dict(id="merge%d" % i, module="SketchTrace", en=en, ed=ed, sparse=int(sparse), ev=ev)

def corrupt(t):
    import copy
    out = []
    if t["id"] in ("table1", "parts1", "parts2"):
        for w in ("var", "mean", "max"):
            for k, e in enumerate(t["ev"]):
                if e["op"] == "stat" and e["what"] == w and not e["tiny"]: u = copy.deepcopy(t); u["ev"][k]["v"] += 60; u["ev"][k]["z"] = 0; out.append(u); break
    if t["id"] == "merge0" and len(t["ev"]) > 1: u = copy.deepcopy(t); u["ev"][1]["x"] = 500; out.append(u)
    return out
