"""C27: affine and RSA ciphers, element-wise helpers, modular helpers."""
DESIGN = [dict(module="AffineMC", cfg="AffineMC_none.cfg", min_states=30000),
          dict(module="AffineMC", cfg="AffineMC_offset.cfg", expect="Faithful"),
          dict(module="AffineMC", cfg="AffineMC_half.cfg", expect="Faithful"),
          dict(module="AffineMC", cfg="AffineMC_thorough.cfg", min_states=500000, thorough=True, timeout=3000, heap="12g")]
GEN = [dict(name="p", module="AffineGen", cfg="AffineGen.cfg", simulate=dict(quick=900, thorough=12000), depth=12, timeout=1500)]
TRACE = "OtherTrace"
CHUNK = 800
MUST_SEE = ["enc", "add", "sub", "mul", "rmul", "zero", "zsub", "dec", "near", "rsa", "rsamul", "powmod", "invert", "isqrt", "primes", "same", "refuse"]
ASSUMPTIONS = ["gmpy2 is replaced by a pure Python stand-in"]

def drive(tier, seed, gen):
    import realcode, math
    import numpy as np
    from fractions import Fraction
    from computing.d_table import DTable
    from ml.secureprotol import gmpy_math as gm
    from ml.secureprotol.affine import AffineCipherKey, AffineCipher
    from ml.secureprotol.encrypt import AffineEncrypt, RsaEncrypt, PaillierEncrypt, FakeEncrypt, Encrypt
    from drv import rng, attempt
    T = 20
    bigs = []
    for b in (512, 1024, 2048):
        for rep in range(2 if tier == "quick" else 8):
            def mk():
                if rep % 2: e = AffineEncrypt(); e.generate_key(b); return e
                return AffineCipher.generate_keypair(key_size=b)
            bigs.append((b, attempt(mk, T)))
    t = dict(id="keys", kind="other", n=0, ev=[])
    for b, (o, k) in bigs: t["ev"].append(dict(op="same", what="affine key generation succeeds", got=o, want="ok"))
    for ratio in (0.0001, 0.001, 0.002, 0.01, 0.5, 0.999):
        for b in (512, 1024):
            def f():
                k = AffineCipher.generate_keypair(key_size=b, a_ratio=ratio)
                return [k.decrypt(k.encrypt(v)) for v in (5, -3, 0)]
            o, v = attempt(f, T)
            t["ev"].append(dict(op="same", what="every generated affine key decrypts what it encrypts", got=[o] + ([int(x == int(x) and x) for x in v] if o == "ok" else []), want=["ok", 5, -3, 0]))
    yield t
    keys = [k for b, (o, k) in bigs if o == "ok"]
    for i, g in enumerate(gen["p"]):
        r = rng(seed, "c27", i); k = g["key"]; kind = g["kind"]
        if kind == "big" and not keys: continue
        key = keys[i % len(keys)] if kind == "big" else AffineCipherKey(k["a"], k["b"], k["n"], k["mult"])
        unit = 16 if kind == "big" else k["mult"]
        t = dict(id="a%d" % i, kind=kind, n=k["n"], ev=[]); regs = []
        for s in g["prog"]:
            a, b, v = s["i"] - 1, s["j"] - 1, s["v"]
            def f():
                if s["op"] == "enc":
                    x = Fraction(v, unit); return key.encrypt(int(x) if x.denominator == 1 and r.random() < .5 else float(x))
                if s["op"] == "add": return regs[a] + regs[b]
                if s["op"] == "sub": return regs[a] - regs[b]
                if s["op"] == "mul": return regs[a] * v
                if s["op"] == "rmul": return v * regs[a]
                if s["op"] == "zero": return r.choice([lambda: regs[a] + 0, lambda: 0 + regs[a], lambda: sum([regs[a]])])()
                return 0 - regs[a]
            o, x = attempt(f, T)
            t["ev"].append(dict(op=s["op"], i=a + 1, j=b + 1, v=v, out=o))
            if o != "ok": break
            regs.append(x)
        else:
            for n, x in enumerate(regs):
                o, v = attempt(lambda: key.decrypt(x) * unit, T)
                t["ev"].append(dict(op="dec", i=n + 1, out=o, v=int(v) if o == "ok" and v == int(v) and abs(v) < 10**9 else 10**9))
        yield t
    t = dict(id="near", kind="other", n=0, ev=[]); r = rng(seed, "near")
    for _ in range(100):
        key = r.choice(keys) if keys else None; v = r.choice([r.uniform(-1000, 1000), r.gauss(0, 1e-6), r.uniform(-1e9, 1e9), r.randint(-10**15, 10**15)])
        o, w = attempt(lambda: key.decrypt(key.encrypt(v)), T)
        t["ev"].append(dict(op="near", ok=int(o == "ok" and abs(w - v) <= abs(v) * 1e-15 + 1e-25)))
    if keys:
        c = keys[0].encrypt(2)
        for w, f in (("only integers multiply affine ciphertexts", lambda: c * 1.5), ("only ciphertexts and zero are added", lambda: c + 1), ("only ciphertexts and zero are added", lambda: c + 0.5), ("only integers multiply affine ciphertexts", lambda: c * c)):
            t["ev"].append(dict(op="refuse", what=w, out=attempt(f, T)[0]))
    yield t
    # RSA with small keys: every message
    for p, q, e in [(5, 11, 3), (61, 53, 17), (11, 13, 7), (3, 11, 7), (101, 113, 3533), (7, 17, 5)]:
        n = p * q; d = pow(e, -1, math.lcm(p - 1, q - 1)); t = dict(id="rsa%d" % n, kind="other", n=n, ev=[])
        E = RsaEncrypt(); E.set_public_key({"e": e, "n": n}); D = RsaEncrypt(); D.set_privacy_key({"d": d, "n": n})
        ms = list(range(n)) if n < 300 else sorted(r.sample(range(n), 300))
        o, res = attempt(lambda: [(lambda c: (c, D.decrypt(c)))(E.encrypt(m)) for m in ms], T)
        ok = o == "ok" and all(isinstance(x, int) and 0 <= x < n for c in res for x in c)
        t["ev"].append(dict(op="rsa", e=e, n=n, ms=ms, cs=[c for c, _ in res] if ok else [0 - 1] * len(ms), ds=[x for _, x in res] if ok else [0 - 1] * len(ms)))
        a = [r.choice(ms) for _ in range(100)]; b = [r.choice(ms) for _ in range(100)]
        o, ds = attempt(lambda: [D.decrypt(E.encrypt(x) * E.encrypt(y) % n) for x, y in zip(a, b)], T)
        t["ev"].append(dict(op="rsamul", n=n, **{"as": a, "bs": b}, ds=ds if o == "ok" and all(isinstance(x, int) and 0 <= x < n for x in ds) else [0 - 1] * 100))
        t["ev"].append(dict(op="same", what="without a key nothing is produced", got=[str(E.decrypt(3)), str(D.encrypt(3)), str(RsaEncrypt().encrypt(3)), str(RsaEncrypt().decrypt(3)), str(PaillierEncrypt().encrypt(3)), str(PaillierEncrypt().decrypt(3)), str(AffineEncrypt().encrypt(3)), str(AffineEncrypt().decrypt(3))], want=["None"] * 8))
        t["ev"].append(dict(op="same", what="keys are handed back", got=list(E.get_public_key()) + list(D.get_privacy_key()), want=[e, n, d, n]))
        yield t
    t = dict(id="rsabig", kind="other", n=0, ev=[])
    def f():
        E = RsaEncrypt(); E.generate_key(1024); e, d, n = E.get_key_pair()
        ms = [0, 1, 2, n - 1, n // 2, r.randrange(n), r.randrange(n)]
        return [int(E.decrypt(E.encrypt(m)) == m) for m in ms] + [int(E.decrypt(E.encrypt(ms[5]) * E.encrypt(ms[6]) % n) == ms[5] * ms[6] % n), int(n.bit_length() == 1024)]
    o, v = attempt(f, 60); t["ev"].append(dict(op="same", what="generated RSA keys decrypt what they encrypt and are multiplicative", got=[o] + (v if o == "ok" else []), want=["ok"] + [1] * 9))
    yield t
    # element-wise helpers
    class Plus(Encrypt):
        def encrypt(s, v): return v * 2 + 1
        def decrypt(s, v): return (v - 1) / 2
    rsa = RsaEncrypt(); rsa.set_public_key({"e": 17, "n": 3233}); rsa.set_privacy_key({"d": pow(17, -1, 780), "n": 3233})
    pal = PaillierEncrypt(); attempt(lambda: pal.generate_key(128), T)
    for name, c in (("plus", Plus()), ("rsa", rsa), ("paillier", pal), ("fake", FakeEncrypt())):
        t = dict(id="help_" + name, kind="other", n=0, ev=[]); ev = t["ev"]
        def same(what, f, want):
            o, v = attempt(f, T); ev.append(dict(op="same", what=what, got=["ok", v] if o == "ok" else [o, want], want=["ok", want]))
        for n in (0, 1, 3, 7):
            vs = [r.randint(0, 50) for _ in range(n)]
            same("lists element by element, in order", lambda: [int(c.decrypt(x)) for x in c.encrypt_list(vs)] if n else [int(c.encrypt_list(vs) == [])], vs if n else [1])
            same("lists element by element, in order", lambda: [int(x) for x in c.decrypt_list([c.encrypt(v) for v in vs])] or [99], vs or [99])
            if n:
                tab = DTable(True, [("k%d" % ((j * 3) % 7), v) for j, v in enumerate(vs)])
                want = [[k, v] for k, v in tab.collect()]
                same("tables value by value, keys kept", lambda: [[k, int(c.decrypt(x))] for k, x in c.distribute_encrypt(tab).collect()], want)
                same("tables value by value, keys kept", lambda: [[k, int(x)] for k, x in c.distribute_decrypt(tab.mapValues(c.encrypt)).collect()], want)
                same("tables value by value, keys kept", lambda: [[k, v] for k, v in tab.collect()], want)
        for shape in [(3,), (2, 3), (1, 1), (4, 1), (2, 2, 2), (3, 1, 2), (2, 1, 2, 2)]:
            A = np.array([r.randint(0, 60) for _ in range(int(np.prod(shape)))]).reshape(shape)
            if name == "rsa": A = np.array(A.tolist(), dtype=object)
            want = [list(shape) if len(shape) > 1 else [1] + list(shape), [int(x) for x in A.reshape(-1)]]
            def view(X, dec): return [list(X.shape), [int(c.decrypt(x.item() if isinstance(x, np.generic) else x)) if dec else int(x) for x in X.reshape(-1)]]
            same("nested arrays element by element, shape kept", lambda: view(c.recursive_encrypt(A), True), want)
            enc = np.array([c.encrypt(int(x)) for x in A.reshape(-1)], dtype=object).reshape(shape)
            same("nested arrays element by element, shape kept", lambda: view(c.recursive_decrypt(enc), False), want)
            if name != "rsa":
                same("nested lists element by element, shape kept", lambda: view(c.recursive_encrypt(A.tolist()), True), want)
                same("nested arrays are decrypted to what was encrypted", lambda: view(c.recursive_decrypt(c.recursive_encrypt(A)), False), want)
        if name != "rsa":
            M = [[r.randint(0, 60) for _ in range(3)] for _ in range(4)]; tab = DTable(True, list(enumerate(M)))
            want = [[4, 3], [x for row in M for x in row]]
            same("tables of rows element by element", lambda: view(c.recursive_encrypt(tab), True), want)
            same("tables of rows element by element", lambda: view(c.recursive_decrypt(tab.mapValues(lambda row: [c.encrypt(x) for x in row])), False), want)
        yield t
    t = dict(id="math", kind="other", n=0, ev=[]); ev = t["ev"]
    q = [(a, b, c) for a in (0, 1, 2, 3, 7, 50, 99, 1000) for b in (0, 1, 2, 3, 10, 64, 101) for c in (2, 3, 7, 16, 97, 1000)]
    o, v = attempt(lambda: [[a, b, c, int(gm.powmod(a, b, c))] for a, b, c in q], T)
    ev.append(dict(op="powmod", q=v if o == "ok" else [[0, 0, 2, 7]]))
    def inv(a, b):
        o, x = attempt(lambda: gm.invert(a, b), T); return int(x) if o == "ok" else -1
    ev.append(dict(op="invert", q=[[a, b, inv(a, b)] for a in range(1, 40) for b in (2, 3, 4, 9, 10, 35, 97, 1000)]))
    o, v = attempt(lambda: [[a, int(gm.isqrt(a))] for a in list(range(0, 200)) + [10**6, 10**6 - 1, 10**6 + 1, 46339**2, 46339**2 - 1]], T)
    ev.append(dict(op="isqrt", q=v if o == "ok" else [[4, 0]]))
    def pr(b):
        o, x = attempt(lambda: gm.getprimeover(b), T); return x if o == "ok" and 0 < x < 2**30 else 0
    ev.append(dict(op="primes", q=[[b, pr(b)] for b in (2, 3, 4, 5, 8, 10, 12, 16, 20, 24) for _ in range(3)]))
    for a, b, c in [(2**70 + 1, 3, 2**65 + 7), (12345, 2**80, 10**30 + 57), (3, 5, 2**64), (2**64, 2, 2**64 - 1), (1, 5, 2**70)]:
        o, v = attempt(lambda: gm.powmod(a, b, c), T)
        ev.append(dict(op="same", what="modular powers are exact", got=int(o == "ok" and v == pow(a, b, c)), want=1))
    yield t

def corrupt(t):
    for e in t["ev"]:
        if e["op"] == "dec" and t["kind"] == "big": e["v"] += 1; return [t]
        if e["op"] == "rsa": e["ds"][2] += 1; return [t]
    return []
