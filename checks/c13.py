"""C13: the encryption-mode calculator, driven by call histories generated from the specification."""
DESIGN = [dict(module="EncModeMC", cfg="EncModeMC_none.cfg", min_states=20000),
          dict(module="EncModeMC", cfg="EncModeMC_stale.cfg", expect="Current"),
          dict(module="EncModeMC", cfg="EncModeMC_lost.cfg", expect="Current"),
          dict(module="EncModeMC", cfg="EncModeMC_keep.cfg", expect="Current"),
          dict(module="EncModeMC", cfg="EncModeMC_rate.cfg", expect="Fresh"),
          dict(module="EncModeMC", cfg="EncModeMC_thorough.cfg", min_states=100000, thorough=True, timeout=3000, heap="16g")]
GEN = [dict(name="p", module="EncModeMC", cfg="EncModeMC_gen.cfg", simulate=dict(quick=600, thorough=8000), depth=8, timeout=1500)]
TRACE = "EncModeTrace"
CHUNK = 600
MUST_SEE = ["call"]
ASSUMPTIONS = ["the random draw is taken from random.random; where no draw is seen in balanced mode only the values are decided"]

class Tok:
    """Ciphertext stand-in which knows its value and the call that encrypted it (0 for results of arithmetic)."""
    def __init__(s, v, call): s.v = v; s.call = call
    def __add__(s, o): return Tok(s.v + (o.v if isinstance(o, Tok) else o), 0)
    __radd__ = __add__
    def __sub__(s, o): return Tok(s.v - (o.v if isinstance(o, Tok) else o), 0)
    def __rsub__(s, o): return Tok((o.v if isinstance(o, Tok) else o) - s.v, 0)
    def __mul__(s, o): return Tok(s.v * o, 0)
    __rmul__ = __mul__

def drive(tier, seed, gen):
    import realcode, random
    import numpy as np
    from computing.d_table import DTable
    from ml.secureprotol.encrypt_mode import EncryptModeCalculator
    from ml.secureprotol.fate_paillier import PaillierKeypair
    from drv import rng, attempt
    pk, sk = PaillierKeypair.generate_keypair(256)
    class Fake:
        def __init__(s): s.call = 0
        def encrypt(s, v): return Tok(v, s.call)
        def fresh(s, c): return isinstance(c, Tok) and c.call == s.call
        def decrypt(s, c): return c.v
    class Real:
        def __init__(s): s.call = 0; s.made = {}
        def encrypt(s, v): c = pk.encrypt(v); s.made[id(c)] = (s.call, c); return c
        def fresh(s, c): return s.made.get(id(c), (0,))[0] == s.call
        def decrypt(s, c): return sk.decrypt(c)
    MAKE = dict(scalar=lambda v: v, tuple=lambda v: (v, 7 - v), list=lambda v: [v, 2 * v, -v], array=lambda v: np.array([v, 3 - v, 1, v * 7, v + 9, 2 * v]) if v % 2 else np.array([v, 3 - v, 1, 0.25 - v * 1234567, v + 7654321.25, 2 * v]), pair=lambda v: (v / 2, v * 0.25))
    BIG = dict(scalar=lambda v: v * 12345678.25, array=lambda v: np.array([v * 12345678.25, 0.25 - v * 12345679]), tuple=lambda v: (v * 12345678.25, -v), list=lambda v: [v * 12345678.25], pair=lambda v: (v * 12345678.25, v))
    SMALL = {k: (lambda f: lambda v: type(f(v))(w * 2**-40 for w in f(v)) if isinstance(f(v), (tuple, list)) else f(v) * 2**-40)(f) for k, f in MAKE.items()}      # far below one: a change however small is a change
    unit = 4
    def form(x): return type(x).__name__ if isinstance(x, (tuple, list, np.ndarray)) else "scalar"
    def flat(x): return list(x) if isinstance(x, (tuple, list, np.ndarray)) else [x]
    def num(v):
        try: return int(v * unit) if v * unit == int(v * unit) and abs(v * unit) < 2 * 10**9 else 2 * 10**9
        except Exception: return 2 * 10**9
    real_random = random.random
    for i, g in enumerate(gen["p"]):
        r = rng(seed, "c13", i); unit = 2**42 if i % 7 == 4 else 4
        enc = Real() if i % 10 == 3 else Fake()
        calc = EncryptModeCalculator(enc, g["mode"], g["rate"] / 1000)
        t = dict(id="e%d" % i, mode=g["mode"], rate=g["rate"], ev=[])
        for n, c in enumerate(g["calls"]):
            rows = [(("k%d" % k if i % 2 else k), (BIG if i % 7 == 2 else SMALL if i % 7 == 4 else MAKE)[g["form"]](v)) for k, v in c["rows"]]
            r.shuffle(rows)
            tab = DTable(True, rows); enc.call = n + 1; draws = []
            def draw():
                draws.append(1); return c["d"] / 1000
            random.random = draw
            try: o, x = attempt(lambda: calc.encrypt(tab), 30)
            finally: random.random = real_random
            inp = [dict(k=str(k), form=form(v), v=[num(w) for w in flat(v)]) for k, v in rows]
            e = dict(op="call", out=o, d=c["d"], drew=len(draws) if len(draws) < 2 else 2, rows=inp, res=[], kept=1)
            if o == "ok":
                def view(): return [dict(k=str(k), form=form(v), v=[num(enc.decrypt(w)) for w in flat(v)], f=[int(enc.fresh(w)) for w in flat(v)]) for k, v in x.collect()]
                o2, res = attempt(view, 30)
                if o2 == "ok": e["res"] = res
                else: e["out"] = "result: " + o2
                e["kept"] = int([dict(k=str(k), form=form(v), v=[num(w) for w in flat(v)]) for k, v in tab.collect()] == inp)
            t["ev"].append(e)
        yield t

def corrupt(t):
    for e in t["ev"]:
        if e["op"] == "call" and e["res"]:
            e["res"][0]["v"][0] += 1; return [t]
    return []
