"""C14: fixed-point numbers. Programs generated from the specification run on the real class with small and large moduli."""
from fractions import Fraction
DESIGN = [dict(module="FixedMC", cfg="FixedMC_none.cfg", min_states=100000),
          dict(module="FixedMC", cfg="FixedMC_wrap.cfg", expect="Exact"),
          dict(module="FixedMC", cfg="FixedMC_foreign.cfg", expect="Exact"),
          dict(module="FixedMC", cfg="FixedMC_unsigned.cfg", expect="Exact"),
          dict(module="FixedMC", cfg="FixedMC_thorough.cfg", min_states=1000000, thorough=True, timeout=3000, heap="12g")]
GEN = [dict(name="p", module="FixedGen", cfg="FixedGen.cfg", simulate=dict(quick=1500, thorough=20000), depth=14, timeout=1500)]
TRACE = "FixedTrace"
CHUNK = 1000
MUST_SEE = ["enc", "add", "sub", "mul", "addp", "rsub", "mulp", "divp", "div", "rdiv", "cmp", "cmpp", "round", "prec", "table", "refuse"]
ASSUMPTIONS = ["numbers in generated programs have few bits, so that doubles hold them exactly"]
MODS = {"toy": [1000, 1001, 1003, 30011, 998, 2000], "big": [None, None, 2**130 - 5, 10**40 + 7, 2**200 + 235, 2**255 - 19],
        "edge": [None, 2**100 + 277, 10**30 + 57, 2**200 + 235, 10**18 + 1, 2**61 - 1]}

def drive(tier, seed, gen):
    import realcode, random, struct, math
    import numpy as np
    from ml.secureprotol.fixedpoint import FixedPointNumber as F
    from drv import rng, attempt
    T = 10
    def show(kind, M, x):
        try:
            if kind == "edge":
                f = Fraction(x)
                if f.denominator != 1: return [9999, 9999]
                a, b = divmod(int(f), M)
                if b > M // 2: a, b = a + 1, b - M
                return [a, b] if abs(b) < 10**6 and abs(a) < 10**6 else [9999, 9999]
            f = Fraction(x); k = f.denominator.bit_length() - 1
            if f.denominator != 1 << k or abs(f.numerator) > 10**9 or k > 60: return [999999937, 61]
            return [f.numerator, k]
        except Exception: return [999999937, 62]
    OPS = dict(add=lambda x, y, v: x + y, sub=lambda x, y, v: x - y, mul=lambda x, y, v: x * y, addp=lambda x, y, v: x + v, radd=lambda x, y, v: v + x,
               subp=lambda x, y, v: x - v, rsub=lambda x, y, v: v - x, mulp=lambda x, y, v: x * v, rmul=lambda x, y, v: v * x,
               divp=lambda x, y, v: x / v, div=lambda x, y, v: x / y, rdiv=lambda x, y, v: v / x)
    for i, g in enumerate(gen["p"]):
        kind = g["kind"]; r = rng(seed, "c14", i); n = MODS[kind][g["mod"]]
        if n is None: n0 = F.Q; enc = lambda v: F.encode(v)
        else: n0 = n; enc = lambda v: F.encode(v, n, n // 3 - 1)
        M = n0 // 3 - 1
        t = dict(id="p%d" % i, kind=kind, n=n0 if kind == "toy" else 0, m=M if kind == "toy" else 0, ev=[]); ev = t["ev"]
        regs = []; idx = {}
        def six(a, b): return [int(a < b), int(a > b), int(a <= b), int(a >= b), int(a == b), int(a != b)]
        for k, s in enumerate(g["prog"]):
            o_ = s["op"]; mulp = kind == "edge" and o_ in ("mulp", "rmul")
            if mulp: v = s["v"][0]
            elif kind == "edge": v = s["v"][0] * M + s["v"][1]
            elif kind == "toy": v = s["v"][0]
            else:
                x = Fraction(s["v"][0], 2 ** s["v"][1])
                v = int(x) if x.denominator == 1 and r.random() < .5 else float(x)
                if r.random() < .2: v = np.float64(v) if isinstance(v, float) else np.int64(v)
            a, b = idx.get(s["i"]), idx.get(s["j"])
            if o_ != "enc" and (a is None or b is None): continue
            if o_ in ("cmp", "cmpp"):
                o, x = attempt(lambda: six(regs[a], regs[b] if o_ == "cmp" else v), T)
                ev.append(dict(op=o_, i=a + 1, j=b + 1, v=s["v"], six=x if o == "ok" else [2] * 6)); continue
            if o_ in ("radd", "rsub", "rmul", "rdiv") and isinstance(v, np.generic): v = v.item()
            def f():
                x = enc(v) if o_ == "enc" else OPS[o_](regs[a], regs[b], v)
                return x, x.decode()
            o, x = attempt(f, T)
            ev.append(dict(op=o_, i=(a or 0) + 1, j=(b or 0) + 1, v=s["v"], out=o, w=show(kind, M, x[1]) if o == "ok" else [0, 0]))
            if o == "ok": regs.append(x[0]); idx[k + 1] = len(regs) - 1
        yield t
    def parts(v):
        """A number as sign, three limbs and exponent: exact for every int below 2^90 and every double."""
        if v == 0: return [0, 0, 0, 0, 0]
        f = Fraction(v); ex = 0
        if f.denominator != 1: ex = -(f.denominator.bit_length() - 1)
        m = abs(f.numerator)
        while m % 2 == 0: m //= 2; ex += 1
        if m >= 2**90: return [7, 7, 7, 7, 7]
        return [1 if f > 0 else 2, m >> 60, (m >> 30) % 2**30, m % 2**30, ex]
    r = rng(seed, "round"); t = dict(id="round", kind="big", n=0, m=0, ev=[])
    vals = [0, 0.0, -0.0, 1, -1, 0.1, 0.2, 0.3, -0.7, 1/3, 1e-10, 123456789.987654321, 2**52 + 1, 2**53 + 1, -2**80 + 1, 1e15 + 0.5, 5e-150, -3e-100, 2.0**60, 2.0**61, 2.0**62, 2.0**63, 1e20, -7e25, True, 1e-199]
    for _ in range(400 if tier == "quick" else 10000):
        c = r.random()
        if c < .4: vals.append(math.ldexp(r.uniform(-1, 1), r.randint(-120, 60)))
        elif c < .6: vals.append(r.choice([np.float64])(r.uniform(-100, 100)))
        elif c < .8: vals.append(r.randint(-2**80, 2**80))
        else: vals.append(r.choice([np.int64, np.int32, np.int16])(r.randint(-30000, 30000)))
    for v in vals:
        for n, M in ((None, None), (2**200 + 235, (2**200 + 235) // 3 - 1)):
            o, w = attempt(lambda: F.encode(v, n, M).decode(), T)
            t["ev"].append(dict(op="round", v=parts(v.item() if isinstance(v, np.generic) else v), w=parts(w) if o == "ok" else [8, 8, 8, 8, 8]))
    yield t
    t = dict(id="prec", kind="big", n=0, m=0, ev=[])
    for _ in range(300 if tier == "quick" else 5000):
        k = r.randint(0, 10); num = r.randint(-4000, 4000)
        while num % 2 == 0 and k > 0 and num: num //= 2; k -= 1
        if num == 0: k = 0
        p = r.choice([(1, 20), (3, 10), (1, 1), (2, 1), (1, 100), (5, 1), (40, 1), (1, 1000), (1, 16), (1, 256)]); mx = r.choice([None, 0, 1, 2, 3])
        v = num if k == 0 and r.random() < .5 else num / 2**k
        useful = r.random() < .7
        def f():
            x = F.encode(v, precision=p[0] / p[1] if useful else None, max_exponent=mx) if useful else F.encode(num, max_exponent=mx)
            return x.decode(), x.exponent
        o, x = attempt(f, T)
        e = dict(op="prec", out=o, v=[num, k] if useful else [num, 0], w=[0, 0], x=0, p=list(p) if useful else [1, 1], minx=mx if mx is not None else -99)
        if o == "ok":
            e["w"] = show("big", 0, x[0]); e["x"] = x[1]
            if not (isinstance(x[1], int) and -6 <= x[1] <= 4): e["out"] = "exponent out of bounds"
        t["ev"].append(e)
    yield t
    for n in (30, 31, 32, 100, 101, 997, 3000):
        M = n // 3 - 1
        xs = list(range(n + 4)); t = dict(id="table%d" % n, kind="toy", n=n, m=M, ev=[])
        vs = []
        for x in xs:
            o, v = attempt(lambda: F(x, 0, n, M).decode(), T); vs.append(int(v) if o == "ok" and v == int(v) and abs(v) < 10**6 else 1000000)
        t["ev"].append(dict(op="table", xs=xs, vs=vs))
        for v in (M + 1, -M - 1, n, -n, 10**9, 0.5, -0.1):
            t["ev"].append(dict(op="refuse", out=attempt(lambda: F.encode(v, n, M), T)[0]))
        yield t
    t = dict(id="refuse", kind="big", n=0, m=0, ev=[])
    for v in (2**127, -2**127, float("inf"), float("nan"), -float("inf"), "1", None, [1], F.Q, F.Q // 3):
        t["ev"].append(dict(op="refuse", out=attempt(lambda: F.encode(v), T)[0]))
    for f in (lambda: (F.encode(2**100) + 0.1).decode(), lambda: (F.encode(2**80) * F.encode(2**60)).decode(), lambda: (F.encode(1e30) * 1e30).decode(),
              lambda: (F.encode(-2**100) - 0.1).decode(), lambda: (0.1 - F.encode(2**100)).decode(), lambda: (F.encode(2**126) + F.encode(2**126) + F.encode(2**126)).decode()):
        t["ev"].append(dict(op="refuse", out=attempt(f, T)[0]))
    yield t

def corrupt(t):
    for e in t["ev"]:
        if e["op"] in ("add", "sub", "mul") and e["out"] == "ok": e["w"][0] += 1; return [t]
        if e["op"] == "cmp": e["six"][0] ^= 1; return [t]
        if e["op"] == "table": e["vs"][-1] = 5; return [t]
    return []
