"""C04: the message protocol. TLC explores every interleaving of the guest's and hosts' programs and generates
schedules; the real code runs under them and every send and receive is validated against the specification."""
DESIGN = [dict(module="ProtocolMC", cfg="ProtocolMC.cfg", min_states=6000, actions=["Predict", "Finished"]),
          dict(module="ProtocolMC", cfg="ProtocolMC_three.cfg", min_states=15000),
          dict(module="ProtocolMC", cfg="ProtocolMC_live.cfg", min_states=1500),
          dict(module="ProtocolMC", cfg="ProtocolMC_nobreak.cfg", expect="LockStep"),
          dict(module="ProtocolMC", cfg="ProtocolMC_batch.cfg", expect="LockStep"),
          dict(module="ProtocolMC", cfg="ProtocolMC_stop.cfg", expect="LockStep"),
          dict(module="ProtocolMC", cfg="ProtocolMC_quiet.cfg", expect="Deadlock"),
          dict(module="ProtocolMC", cfg="ProtocolMC_thorough.cfg", min_states=300000, thorough=True, timeout=2400)]
GEN = [dict(name="s", module="ProtocolMC", cfg="ProtocolGen.cfg", simulate=dict(quick=150, thorough=1500), depth=700, timeout=1500)]
TRACE = "ProtocolTrace"
CHUNK = 150
MUST_SEE = ["send", "recv", "finish", "trees"]
ASSUMPTIONS = ["channels are reliable and keep order (C02, C03)", "every party is given the same settings, as the entry points do"]

def tree_level(tier, seed, gen):
    import fed
    from drv import rng
    from wire import wire_events
    bad = 0
    for i in range(200 if tier == "quick" else 2500):
        r = rng(seed, "c04tree", i)
        d = (fed.large if i % 50 == 9 else fed.tree_data)(r, nh=r.choice([1, 1, 2, 2, 3, 4]))
        sched = gen[i % len(gen)]["sched"] if i % 3 else [r.randint(0, 4) for _ in range(r.randint(1, 30))]
        run = fed.fit_tree(d, sched, "sealed" if i % 40 else "512")
        nh = len(d["X"]) - 1
        p = dict(n=nh, depth=d["depth"], dim=1, rounds=1, batch=d["batch"], stop=0)
        yield dict(id="tree%d" % i, p=p, pc="enc", trees=0, ev=wire_events(run.hub))
        if run.out != "ok": bad += 1
        else:
            ms = [run.guest.get_model()] + [h.get_model() for h in run.hosts]
            nn = len(d["NX"][0])
            for what, X, keys in (("train", d["X"], d["keys"]), ("new", d["NX"], ["n%d" % j for j in range(nn)])):
                hub, _ = fed.predict_tree(d, ms, X, keys, sched[::-1] if what == "new" else sched, objs=[run.guest] + run.hosts if what == "train" else None)
                yield dict(id="pred%d%s" % (i, what), p=p, pc="fin", trees=1, ev=wire_events(hub))
                bad += hub.verdict() != "ok"
        if bad > 3: return

def count(obj):
    try: return len(obj.trees_)
    except Exception: return -1

def boost_level(tier, seed, gen):
    import boost
    from drv import rng
    from wire import wire_events
    bad = 0
    for i in range(36 if tier == "quick" else 400):
        r = rng(seed, "c04boost", i)
        b = boost.data(r, n=r.randint(4, 7), depth=r.choice([1, 2, 3]))
        sched = gen[i % len(gen)]["sched"]
        run = boost.fit(b, sched); nh = len(b["X"]) - 1
        k = len(set(map(str, b["y"]))) if b["task"] == "classification" else 1
        p = dict(n=nh, depth=b["depth"], dim=k if k > 2 else 1, rounds=b["trees"], batch=b["batch"], stop=int(b["stop"]))
        ev = wire_events(run.hub); t = [count(x) for x in [run.guest] + run.hosts]
        if run.out == "ok" and -1 not in t: ev.append(dict(op="trees", k=t))
        yield dict(id="boost%d" % i, p=p, pc="dim", trees=0, ev=ev)
        if run.out != "ok": bad += 1
        elif t[0] > 0:
            hub, _ = boost.predict(run, b["X"], b["keys"], b["y"], sched[::-1])
            yield dict(id="bpred%d" % i, p=p, pc="fin", trees=t[0], ev=wire_events(hub))
            bad += hub.verdict() != "ok"
        if bad > 2: return

class Wrapped:
    """A real transport whose traffic is recorded."""
    def __init__(s, inner, me, log, lock): s.inner, s.me, s.log, s.lock = inner, me, log, lock
    def rec(s, op, peer, obj):
        from wire import classify
        k, a = classify(obj)
        with s.lock: s.log.append(dict(op=op, me=s.me, peer=peer, kinds=k, arg=a))
    def send_data_to_hosts(s, data, index):
        n = s.n
        for i in (range(n) if index == -1 else [index]): s.rec("send", i + 1, data)
        s.inner.send_data_to_hosts(data, index)
    def recv_data_from_hosts(s, index):
        v = s.inner.recv_data_from_hosts(index)
        for j, i in enumerate(range(s.n) if index == -1 else [index]): s.rec("recv", i + 1, v[j] if index == -1 else v)
        return v
    def send_data_to_guest(s, data): s.rec("send", 0, data); s.inner.send_data_to_guest(data)
    def recv_data_from_guest(s):
        v = s.inner.recv_data_from_guest(); s.rec("recv", 0, v); return v

def sockets(tier, seed):
    """End to end over real loopback connections."""
    import threading, time, boost
    from checks.c03 import connect, close, nodelay
    from drv import rng
    for i in range(3 if tier == "quick" else 20):
        r = rng(seed, "c04sock", i); b = boost.data(r, nh=1 + i % 3, n=5, trees=2, depth=2)
        nh = len(b["X"]) - 1; run = boost.make(b); log = []; lock = threading.Lock(); out = {}
        g, hosts = connect(nh)
        if g is None: continue
        nodelay(g, hosts)
        gw = Wrapped(g, 0, log, lock); gw.n = nh; run.guest.set_transfer_inst(gw)
        for j, h in enumerate(run.hosts): h.set_transfer_inst(Wrapped(hosts[j], j + 1, log, lock))
        ts = [boost.table(b["keys"], b["X"][p], b["y"] if p == 0 else None, b["forms"][p], b["orders"][p]) for p in range(nh + 1)]
        def body(p, o):
            try: o.fit(ts[p]); out[p] = "ok"
            except BaseException as e: out[p] = type(e).__name__
        th = [threading.Thread(target=body, args=(p, o), daemon=True) for p, o in enumerate([run.guest] + run.hosts)]
        for t in th: t.start()
        end = time.time() + 60
        for t in th: t.join(max(0.1, end - time.time()))
        o = next((out.get(p, "hang") for p in range(nh + 1) if out.get(p, "hang") != "ok"), "ok")
        close(g, hosts)
        k = len(set(map(str, b["y"]))) if b["task"] == "classification" else 1
        p = dict(n=nh, depth=b["depth"], dim=k if k > 2 else 1, rounds=b["trees"], batch=b["batch"], stop=int(b["stop"]))
        yield dict(id="sock%d" % i, p=p, pc="dim", trees=0, ev=list(log) + [dict(op="finish", out=o, left=0)])

def drive(tier, seed, gen):
    import realcode
    yield from tree_level(tier, seed, gen["s"])
    yield from boost_level(tier, seed, gen["s"])
    yield from sockets(tier, seed)

def corrupt(t):
    k = [j for j, e in enumerate(t["ev"]) if e["op"] == "recv"]
    if len(k) < 3: return []
    del t["ev"][k[-1]]
    return [t]
