"""C12: Paillier. TLC proves the algebra on whole small groups and generates programs; they are run with the real classes
on keys small enough to recompute every ciphertext and on keys of realistic size."""
from fractions import Fraction
import math
DESIGN = [dict(module="PaillierMC", cfg="PaillierMC_none.cfg", min_states=50000, actions=[]),
          dict(module="PaillierMC", cfg="PaillierMC_toy.cfg", min_states=100000),
          dict(module="PaillierMC", cfg="PaillierMC_noalign.cfg", expect="Faithful"),
          dict(module="PaillierMC", cfg="PaillierMC_unsigned.cfg", expect="Faithful"),
          dict(module="PaillierMC", cfg="PaillierMC_mod.cfg", expect="Faithful"),
          dict(module="PaillierMC", cfg="PaillierMC_nogap.cfg", expect="Noticed"),
          dict(module="PaillierMC", cfg="PaillierMC_thorough.cfg", min_states=1000000, thorough=True, timeout=3000, heap="12g")]
GEN = [dict(name="p", module="PaillierGen", cfg="PaillierGen.cfg", simulate=dict(quick=500, thorough=8000), depth=12, timeout=1500)]
TRACE = "PaillierTrace"
CHUNK = 300
MUST_SEE = ["enc", "add", "sub", "addp", "rsub", "mulp", "divp", "dec", "rencs", "rdecs", "enctab", "refuse", "differ", "keygen"]
ASSUMPTIONS = ["gmpy2 is replaced by a pure Python stand-in for powmod, invert, next_prime and isqrt"]

def isprime(n):
    if n < 2: return False
    for p in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
        if n % p == 0: return n == p
    d = n - 1; s = 0
    while d % 2 == 0: d //= 2; s += 1
    for a in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
        x = pow(a, d, n)
        if x in (1, n - 1): continue
        for _ in range(s - 1):
            x = x * x % n
            if x == n - 1: break
        else: return False
    return True

def units_only():
    """On toy keys a random number can share a factor with the modulus; redraw it then (never happens with real keys)."""
    import random
    class Sys(random.SystemRandom):
        def randrange(self, *a, **k):
            while True:
                r = super().randrange(*a, **k)
                n = a[1] if len(a) > 1 else (a[0] if a else 0)
                if not n or n > 10**6 or math.gcd(r, n) == 1: return r
    random.SystemRandom = Sys
    import secrets
    def unit(f, modulus):
        def g(*a, **k):
            while True:
                r = f(*a, **k); n = modulus(*a)
                if not n or n > 10**6 or r == 0 or math.gcd(r, n) == 1: return r
        return g
    last = lambda *a: a[-1] if a and isinstance(a[-1], int) else 0
    random.randrange = unit(random.randrange, last); random.randint = unit(random.randint, lambda *a: last(*a) + 1); secrets.randbelow = unit(secrets.randbelow, last)

def drive(tier, seed, gen):
    import realcode
    units_only()
    from ml.secureprotol.fate_paillier import PaillierKeypair, PaillierPublicKey, PaillierPrivateKey, PaillierEncryptedNumber
    from ml.secureprotol.encrypt import PaillierEncrypt
    from drv import rng, attempt
    T = 30
    def toy(p, q):
        pk = PaillierPublicKey(p * q); return pk, PaillierPrivateKey(pk, p, q)
    o, big = attempt(lambda: [PaillierKeypair.generate_keypair(b) for b in (256, 512, 1024)], 60)
    o2, twin = attempt(lambda: PaillierKeypair.generate_keypair(256), 60)
    def failed(i, what, o): return dict(id=i, kind="keys", n=0, p=0, q=0, m=0, rem=0, ev=[dict(op="same", what=what, got=o, want="ok")])
    if o != "ok" or o2 != "ok": yield failed("keys", "key generation succeeds", o if o != "ok" else o2); return
    oks = [attempt(lambda: toy(p, q), T)[0] for p, q in [(5, 7), (7, 5), (11, 13)]]
    if set(oks) != {"ok"}: yield failed("keypairs", "keys are made from their prime factors", oks[0] if oks[0] != "ok" else oks[-1]); return
    def base(i, kind, pk, p=0, q=0):
        t = kind in ("toy", "tab")
        return dict(id=i, kind="toy" if t else kind, n=pk.n if t else 0, p=p, q=q, m=pk.max_int if t else 0, rem=(pk.n - 3 * pk.max_int) if kind == "edge" else 0, ev=[])
    def plain(kind, pk, v, r):
        if kind == "edge": return v[0] * pk.max_int + v[1]
        if kind == "toy": return v[0]
        x = Fraction(v[0], 2 ** v[1])
        return int(x) if x.denominator == 1 and r.random() < .5 else float(x)
    def show(kind, pk, x):
        try:
            f = Fraction(x)
            if kind == "edge":
                if f.denominator != 1: return [9999, 9999]
                a, b = divmod(int(f), pk.max_int)
                if b > pk.max_int // 2: a, b = a + 1, b - pk.max_int
                return [a, b] if abs(b) < 10**6 and abs(a) < 10**6 else [9999, 9999]
            k = f.denominator.bit_length() - 1
            if f.denominator != 1 << k or abs(f.numerator) > 10**9 or k > 60: return [999999937, 61]
            return [f.numerator, k]
        except Exception: return [999999937, 62]
    OPS = dict(add=lambda x, y, v: x + y, sub=lambda x, y, v: x - y, addp=lambda x, y, v: x + v, radd=lambda x, y, v: v + x,
               subp=lambda x, y, v: x - v, rsub=lambda x, y, v: v - x, mulp=lambda x, y, v: x * v, rmul=lambda x, y, v: v * x, divp=lambda x, y, v: x / v)
    for n, g in enumerate(gen["p"]):
        kind = g["kind"]; r = rng(seed, "c12", n); p, q = g["key"]
        pk, sk = toy(p, q) if kind == "toy" else big[2] if kind == "big" else big[n % 3]  # a chain of ten floats needs some 600 bits
        wrap = PaillierEncrypt(); wrap.set_public_key(pk); wrap.set_privacy_key(sk)
        t = base("p%d" % n, kind, pk, p, q); regs = []; ev = t["ev"]
        lim = lambda v: (abs(v) <= pk.max_int) if kind != "big" else True
        stop = False
        def decs(final):
            for k in range(len(regs)) if final else [len(regs) - 1]:
                o, x = attempt(lambda: (wrap.decrypt if k % 2 else sk.decrypt)(regs[k]), T)
                ev.append(dict(op="dec", i=k + 1, out=o, v=show(kind, pk, x) if o == "ok" else [0, 0]))
        nv = 0
        # indices in a program count the operations; operations that have to be refused leave no register
        idx = {}
        for k, s in enumerate(g["prog"]):
            o_ = s["op"]; mul = kind == "edge" and o_ in ("mulp", "rmul"); v = s["v"][0] if mul else plain(kind, pk, s["v"], r)
            i, j = idx.get(s["i"]), idx.get(s["j"])
            if o_ != "enc" and (i is None or j is None): continue
            if o_ == "enc":
                c = r.random()
                if kind == "toy" and c < .5:
                    us = [u for u in range(1, pk.n) if math.gcd(u, pk.n) == 1]; rv = r.choice(us)
                    f = lambda: pk.encrypt(v, random_value=rv)
                else: f = lambda: (wrap if c < .75 else pk).encrypt(v)
            else: f = lambda: OPS[o_](regs[i], regs[j], v)
            o, x = attempt(f, T)
            if o == "ok" and not isinstance(x, PaillierEncryptedNumber): o = "noresult"
            c = x.ciphertext(be_secure=False) if o == "ok" and kind == "toy" else 0
            if not isinstance(c, int) or abs(c) >= 2**31: c = 0
            ev.append(dict(op=o_, i=(i or 0) + 1, j=(j or 0) + 1, v=s["v"], out=o, c=c))
            takes = o_ not in ("enc", "addp", "radd", "subp", "rsub", "mulp", "rmul") or lim(v)
            if takes:
                if o != "ok": stop = True; break
                regs.append(x); idx[k + 1] = len(regs) - 1
                if r.random() < .4: decs(False)
        if not stop: decs(True)
        yield t
    # whole groups
    for p, q in [(3, 5), (5, 3), (5, 7), (7, 11), (11, 7), (11, 13), (19, 11)]:
        n = p * q; pk, sk = toy(p, q); t = base("group%d_%d" % (p, q), "tab", pk, p, q); ev = t["ev"]; r = rng(seed, "grp", p, q)
        ev.append(dict(op="room"))
        us = [u for u in range(1, n) if math.gcd(u, n) == 1]
        pairs = [(m, u) for m in range(n) for u in us]
        if len(pairs) > 1500: pairs = r.sample(pairs, 1500)
        o, cs = attempt(lambda: [pk.raw_encrypt(m, u) for m, u in pairs], T)
        if o == "ok": ev.append(dict(op="rencs", ms=[m for m, u in pairs], cs=[c if isinstance(c, int) and 0 < c < 2**31 else 0 for c in cs]))
        else: ev.append(dict(op="same", what="raw encryption succeeds", got=o, want="ok"))
        gs = [c for c in range(1, n * n) if math.gcd(c, n) == 1]
        if len(gs) > 2500: gs = r.sample(gs, 2500)
        o, ms = attempt(lambda: [sk.raw_decrypt(c) for c in gs], T)
        if o == "ok": ev.append(dict(op="rdecs", cs=gs, ms=[m if isinstance(m, int) and 0 <= m < 2**31 else 2**31 - 1 for m in ms]))
        else: ev.append(dict(op="same", what="raw decryption succeeds", got=o, want="ok"))
        vs = list(range(-pk.max_int, pk.max_int + 1))
        o, ws = attempt(lambda: [sk.decrypt(pk.encrypt(v)) for v in vs], T)
        if o == "ok": ev.append(dict(op="enctab", vs=vs, ws=[show("toy", pk, w)[0] for w in ws]))
        else: ev.append(dict(op="same", what="encryption of representable integers succeeds", got=o, want="ok"))
        for v in (pk.max_int + 1, -pk.max_int - 1, n, n - 1, 10 * n, 0.5, 1e30):
            ev.append(dict(op="refuse", what="a number outside the range is refused", out=attempt(lambda: pk.encrypt(v), T)[0]))
        for v in (1.5, "1", None):
            ev.append(dict(op="refuse", what="raw encryption takes integers only", out=attempt(lambda: pk.raw_encrypt(v), T)[0]))
        ev.append(dict(op="refuse", what="a private key matches its public key", out=attempt(lambda: PaillierPrivateKey(pk, p, q + 2), T)[0]))
        yield t
    # foreign keys, freshness
    small = [toy(5, 7), toy(7, 11), toy(11, 13), toy(13, 17), toy(11, 23)]   # the last two have equally many bits
    combos = [(a, b) for a in range(5) for b in range(5) if a != b]
    for k, (A, B) in enumerate([(big[0], big[1]), (big[1], big[0]), (big[0], twin), (twin, big[0])] + [(small[a], small[b]) for a, b in combos]):
        (pa, sa), (pb, sb) = A, B
        t = base("foreign%d" % k, "keys", pa); ev = t["ev"]
        o, cc = attempt(lambda: (pa.encrypt(3), pb.encrypt(4)), T)
        if o != "ok": yield failed("foreign%d" % k, "encryption succeeds", o); continue
        ca, cb = cc
        w = "ciphertexts of different keys are never combined or decrypted with the wrong key"
        for f in (lambda: ca + cb, lambda: cb + ca, lambda: ca - cb, lambda: sb.decrypt(ca), lambda: sa.decrypt(cb), lambda: sa.decrypt(cb * 2 + 1),
                  lambda: (ca + 1) + (cb + 1), lambda: ca * cb, lambda: sa.decrypt(12345), lambda: sa.decrypt(ca.ciphertext())):
            ev.append(dict(op="refuse", what=w, out=attempt(f, T)[0]))
        for pk, sk in (A, B):
            ev.append(dict(op="same", what="keys compare by their value", got=[int(pk == type(pk)(pk.n)), int(pa == pb), int(hash(pk) == hash(type(pk)(pk.n))), int(sk == type(sk)(pk, sk.q, sk.p)), int(sa == sb), int(hash(sk) == hash(type(sk)(pk, sk.q, sk.p)))], want=[1, 0, 1, 1, 0, 1]))
        yield t
    for k, (pk, sk) in enumerate(big):
        t = base("fresh%d" % k, "keys", pk); ev = t["ev"]
        w = PaillierEncrypt(); w.set_public_key(pk)
        for v in (0, 1, -1, 0.5, -2.25, 12345):
            o, cs = attempt(lambda: [pk.encrypt(v).ciphertext(False) for _ in range(4)] + [w.encrypt(v).ciphertext(False) for _ in range(4)] + [c.ciphertext(False) for c in w.encrypt_list([v, v])], T)
            ev.append(dict(op="differ", n=10, distinct=len(set(cs)) if o == "ok" else 0))
            o, cs = attempt(lambda: [pk.raw_encrypt(3) for _ in range(4)], T)
            ev.append(dict(op="differ", n=4, distinct=len(set(cs)) if o == "ok" else 0))
            o, cs = attempt(lambda: (lambda c: [c.ciphertext(False), (c + 1).ciphertext(), (c + 1).ciphertext(), (c * 2).ciphertext()])(pk.encrypt(v)), T)
            ev.append(dict(op="differ", n=4, distinct=len(set(cs)) if o == "ok" else 0))
        # the randomness of ciphertexts does not come from the generators a program may have seeded (as guest.py and host.py do)
        import random
        import numpy as np
        def seeded(v):
            out = []
            for _ in range(3): random.seed(2); np.random.seed(2); out.append(pk.encrypt(v).ciphertext(False)); random.seed(2); np.random.seed(2); out.append(pk.raw_encrypt(5))
            return out
        for v in (0, 1.5):
            o, cs = attempt(lambda: seeded(v), T); ev.append(dict(op="differ", n=6, distinct=len(set(cs)) if o == "ok" else 0))
        # and it is drawn from a range too large to search
        m = 400 if pk.n.bit_length() <= 512 else 60
        o, cs = attempt(lambda: [pk.raw_encrypt(0) for _ in range(m)], T * 4); ev.append(dict(op="differ", n=m, distinct=len(set(cs)) if o == "ok" else 0))
        yield t
    lens = [32, 48, 64, 65, 96, 127, 128, 129, 200, 256] + ([16, 20, 33, 63, 160, 255, 257, 384, 511, 512, 768, 1024] if tier == "thorough" else [])
    for k, b in enumerate(lens * (2 if tier == "quick" else 6)):
        t = base("key%d" % k, "keys", big[0][0]); r = rng(seed, "key", k)
        def mk():
            if k % 3 == 1:
                e = PaillierEncrypt(); e.generate_key(b); return e.get_key_pair()
            return PaillierKeypair.generate_keypair(b)
        o, kp = attempt(mk, 20)
        e = dict(op="keygen", out=o, want=b, bits=0, prime=0, distinct=0, product=0, roundtrip=0)
        if o == "ok":
            pk, sk = kp
            vs = [0, 1, -1, pk.max_int, -pk.max_int] + [r.randrange(-pk.max_int, pk.max_int + 1) for _ in range(5)]
            o2, ws = attempt(lambda: [sk.decrypt(pk.encrypt(v)) for v in vs], T)
            e.update(bits=pk.n.bit_length(), prime=int(isprime(sk.p) and isprime(sk.q)), distinct=int(sk.p != sk.q), product=int(sk.p * sk.q == pk.n), roundtrip=int(o2 == "ok" and ws == vs))
        t["ev"].append(e); yield t

def corrupt(t):
    for e in t["ev"]:
        if e["op"] == "dec" and e["out"] == "ok" and t["kind"] != "edge": e["v"][0] += 1; return [t]
        if e["op"] == "rdecs": e["ms"][3] += 1; return [t]
        if e["op"] == "differ": e["distinct"] -= 1; return [t]
    return []
