"""C05: what the wire reveals. The symbolic knowledge model is checked by TLC (with leaky variants that must fail); every
message of real trainings and predictions, run on marked data, is reduced to its terms and judged by the specification."""
LEAKS = ["key", "queue", "gain", "tree", "thr", "label", "norandom", "reuse"]
DESIGN = [dict(module="SecrecyMC", cfg="SecrecyMC_none.cfg", min_states=40, actions=["SendEnc", "SendQueue", "SendCand", "SendBest", "SendFinal", "SendTree", "SendPredict"])] + \
         [dict(module="SecrecyMC", cfg="SecrecyMC_%s.cfg" % l, expect="HostsBlind") for l in LEAKS] + \
         [dict(module="SecrecyMC", cfg="SecrecyMC_%s.cfg" % l, expect="GuestBlind") for l in ("hostval", "bid")]
TRACE = "SecrecyTrace"
CHUNK = 200
MUST_SEE = ["msg", "run"]
ASSUMPTIONS = ["Paillier encryption with fresh randomness hides its plaintext; the 'fast' and 'balance' modes trade freshness for speed by design and are excluded",
               "structure (node ids, tree shape, which samples are in which node) is public to all parties by design of the protocol"]
LOW = 300
def marked(d):
    """Replaces every secret of a tree data set by values outside the range of structural numbers."""
    m = lambda v: v * 1000003 + (17 if v > 0 else -17) if v else 0
    d = dict(d)
    d["X"] = [[[m(v) for v in row] for row in X] for X in d["X"]]; d["NX"] = [[[m(v) for v in row] for row in X] for X in d["NX"]]
    d["SP"] = [[[-9 * 10**7 + 1009 * j for j in range(LOW)] + [m(v) for v in s] for s in SP] for SP in d["SP"]]
    d["g"] = [v * 1.2345678 + 0.0123 * j for j, v in enumerate(d["g"])]; d["h"] = [v * 0.7654321 + 0.0011 * j for j, v in enumerate(d["h"])]
    d["minleaf"] = max(1, d["minleaf"]); d["keys"] = ["id%d" % j for j in range(d["n"])]
    return d

def tree_level(tier, seed):
    import fed
    from drv import rng
    from leaves import messages
    bad = 0
    for i in range(60 if tier == "quick" else 600):
        r = rng(seed, "c05tree", i)
        d = marked(fed.tree_data(r)); nh = len(d["X"]) - 1
        sched = [r.randint(0, nh) for _ in range(9)]
        enc = "512" if i % 20 == 3 else "sealed"
        if enc == "512": d["depth"] = min(2, d["depth"])
        priv = None
        run = fed.fit_tree(d, sched, enc, limit=60)
        if enc == "512": priv = secrets(run.enc)
        ev = [dict(op="run", out=run.out)] + messages(run.hub, ("1000003", "10000"), priv)
        if run.out == "ok":
            hub, _ = fed.predict_tree(d, None, d["X"], d["keys"], sched, objs=[run.guest] + run.hosts)
            ev += [dict(op="run", out=hub.verdict())] + messages(hub)
            ms = [run.guest.get_model()] + [h.get_model() for h in run.hosts]
            hub, _ = fed.predict_tree(d, ms, d["NX"], ["n%d" % j for j in range(len(d["NX"][0]))], sched)
            ev += [dict(op="run", out=hub.verdict())] + messages(hub)
        yield dict(id="tree%d" % i, n=d["n"], lim=128, ev=ev)
        bad += any(e["op"] == "run" and e["out"] != "ok" for e in ev)
        if bad > 3: return

def secrets(e):
    """(n, numbers that reveal the private key) of a Paillier encrypter."""
    import math
    pk, sk = e.get_key_pair(); n = pk.n; s = set()
    ps = [x for x in vars(sk).values() if isinstance(x, int) and 1 < x < n and n % x == 0]
    if len(ps) >= 1:
        p = ps[0]; q = n // p
        s = {p, q, (p - 1) * (q - 1), (p - 1) * (q - 1) // math.gcd(p - 1, q - 1), p * p, q * q}
    return n, s | {x for x in vars(sk).values() if isinstance(x, int) and x > 2**30}

def boost_level(tier, seed):
    import boost
    from drv import rng
    from leaves import messages
    bad = 0
    for i in range(20 if tier == "quick" else 200):
        r = rng(seed, "c05boost", i)
        b = boost.data(r, n=r.randint(4, 8), mode="strict", trees=r.choice([2, 3]), depth=r.choice([1, 2]))
        b["X"] = [[[v * 1000.0371 + 7003.123 if v else 0 for v in row] for row in X] for X in b["X"]]
        marks = []
        if b["task"] == "classification":
            names = sorted(set(b["y"]), key=str); mk = {c: (777001 + j if i % 2 else "SECRET%d" % j) for j, c in enumerate(names)}
            b["y"] = [mk[v] for v in b["y"]]; marks = ["SECRET", "77700"]
        elif b["objective"] == "tweedie": b["y"] = [v * .377 + 1.1303 for v in b["y"]]      # its score is a logarithm
        else: b["y"] = [v * 1000.77 + 5003.3 for v in b["y"]]; b["mingain"] = 1e-3
        b["keys"] = ["id%d" % j for j in range(b["n"])]
        run = boost.fit(b, [r.randint(0, 3) for _ in range(7)])
        priv = None
        try: priv = secrets(run.guest.encrypter)
        except Exception: pass
        ev = [dict(op="run", out=run.out)] + messages(run.hub, marks, priv)
        if run.out == "ok":
            hub, _ = boost.predict(run, b["X"], b["keys"], b["y"])
            ev += [dict(op="run", out=hub.verdict())] + messages(hub, marks, priv)
        yield dict(id="boost%d" % i, n=b["n"], lim=128, ev=ev)
        bad += any(e["op"] == "run" and e["out"] != "ok" for e in ev)
        if bad > 2: return

def drive(tier, seed, gen):
    import realcode
    yield from tree_level(tier, seed)
    yield from boost_level(tier, seed)

def corrupt(t):
    k = [e for e in t["ev"] if e["op"] == "msg" and e["dir"] == "down"]
    if len(k) < 3: return []
    a = __import__("json").loads(__import__("json").dumps(t))
    k[-1]["ints"] = sorted(k[-1]["ints"] + [70003]); [e for e in a["ev"] if e["op"] == "msg" and e["ciphers"] and e["dir"] == "down"][0]["stale"] = 1
    return [t, a]
