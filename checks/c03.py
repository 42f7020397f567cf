"""C03: addressing. TLC generates histories of sends and receives; they are replayed over real loopback connections
between one guest transport and n host transports, followed by one sentinel each way per host."""
DESIGN = [dict(module="ChannelsMC", cfg="ChannelsMC.cfg", min_states=20000, actions=["All", "GRecvAll", "Next"]),
          dict(module="ChannelsMC", cfg="ChannelsMC_drop.cfg", expect="Delivered"),
          dict(module="ChannelsMC", cfg="ChannelsMC_swap.cfg", expect="Delivered"),
          dict(module="ChannelsMC", cfg="ChannelsMC_thorough.cfg", min_states=100000, thorough=True, timeout=2400)]
GEN = [dict(name="h", module="ChannelsMC", cfg="ChannelsGen.cfg", simulate=dict(quick=250, thorough=4000), depth=120, timeout=1500)]
TRACE = "ChannelsTrace"
MUST_SEE = ["connect", "to", "all", "refuse", "hsend", "hrecv", "from", "collect"]
ASSUMPTIONS = ["hosts connect one after the other; the operating system hands connections over in connection order"]

def connect(n):
    """A real guest transport with n real host transports, connected in order."""
    import socket, threading, time
    from federation.transfer_inst import TransferInstGuest, TransferInstHost
    from drv import attempt
    for _ in range(20):
        s = socket.socket(); s.bind(("", 0)); port = s.getsockname()[1]; s.close()
        box = {}
        def mk():
            try: box["g"] = TransferInstGuest(port, n)
            except BaseException as e: box["e"] = e
        th = threading.Thread(target=mk, daemon=True); th.start()
        hosts = []; dead = time.time() + 10
        while len(hosts) < n and time.time() < dead and "e" not in box:
            try: hosts.append(TransferInstHost("127.0.0.1", port))
            except ConnectionRefusedError: time.sleep(0.002)
        th.join(5)
        if "g" in box: return box["g"], hosts
        if not isinstance(box.get("e"), OSError): break       # a taken port is retried, anything else is a finding
    return None, None

def sockets(g, hosts):
    import socket
    for o in [g] + list(hosts or []):
        for v in list(vars(o).values()) if o is not None else []:
            for x in v if isinstance(v, (list, tuple)) else [v]:
                if isinstance(x, socket.socket): yield x

def close(g, hosts):
    for x in sockets(g, hosts): x.close()

def nodelay(g, hosts):
    import socket
    for x in sockets(g, hosts):
        try: x.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        except OSError: pass

def mid(v):
    return v[0] if isinstance(v, tuple) and len(v) == 2 and isinstance(v[0], int) else -9

def crowd(r):
    """A history with more hosts than one digit counts."""
    n = r.choice([10, 11, 12, 13]); ops = []; down = [0] * n; up = [0] * n; m = 0
    for _ in range(60):
        m += 1; k = r.choice(["to", "to", "all", "hrecv", "hrecv", "hsend", "hsend", "from", "collect", "refuse"]); i = r.randrange(n)
        if k == "to": ops.append(dict(op="to", i=i, m=m)); down[i] += 1
        elif k == "all": ops.append(dict(op="all", i=-1, m=m)); down = [x + 1 for x in down]
        elif k == "hsend": ops.append(dict(op="hsend", i=i, m=m)); up[i] += 1
        elif k == "hrecv" and down[i]: ops.append(dict(op="hrecv", i=i)); down[i] -= 1
        elif k == "from" and up[i]: ops.append(dict(op="from", i=i)); up[i] -= 1
        elif k == "refuse": ops.append(dict(op="refuse", i=r.choice([n, n + 1, -2, -n]), m=m))
        elif k == "collect":
            for j in r.sample(range(n), n):
                if not up[j]: m += 1; ops.append(dict(op="hsend", i=j, m=m)); up[j] += 1
            ops.append(dict(op="collect", i=-1)); up = [x - 1 for x in up]
    for i in r.sample(range(n), n): ops += [dict(op="hrecv", i=i)] * down[i] + [dict(op="from", i=i)] * up[i]
    return dict(n=n, ops=ops)

def drive(tier, seed, gen):
    import realcode
    from drv import attempt, rng
    hangs = 0
    for b, beh in enumerate(gen["h"][:100] + [crowd(rng(seed, "c03crowd", j)) for j in range(12 if tier == "quick" else 120)] + gen["h"][100:]):
        r = rng(seed, "c03", b); n = beh["n"]; ops = list(beh["ops"]); top = 1000
        for i in range(n): ops += [dict(op="to", i=i, m=top + i), dict(op="hrecv", i=i), dict(op="hsend", i=i, m=top + 50 + i), dict(op="from", i=i)]
        ops += [dict(op="all", i=-1, m=top + 100)] + [dict(op="hrecv", i=i) for i in reversed(range(n))]
        ops += [dict(op="hsend", i=i, m=top + 200 + i) for i in reversed(range(n))] + [dict(op="collect", i=-1)]
        ev = []
        if hangs > 4: break
        g, hosts = connect(n)
        ev.append(dict(op="connect", out="ok" if g is not None else "failed"))
        if g is None: yield dict(id="b%d" % b, n=n, ev=ev); continue
        nodelay(g, hosts)
        for o in ops:
            i, m = o["i"], o.get("m")
            pay = (m, "x" * r.choice([0, 1, 15, 16, 17, 900, 5000]))
            if o["op"] in ("to", "all"): out, _ = attempt(lambda: g.send_data_to_hosts(pay, i), 4); mm = [m]
            elif o["op"] == "refuse":
                if m % 2: out, _ = attempt(lambda: g.send_data_to_hosts(pay, i), 4)
                else: out, _ = attempt(lambda: g.recv_data_from_hosts(i), 4)
                mm = [m]
            elif o["op"] == "hsend": out, _ = attempt(lambda: hosts[i].send_data_to_guest(pay), 4); mm = [m]
            elif o["op"] == "hrecv": out, v = attempt(lambda: hosts[i].recv_data_from_guest(), 4); mm = [mid(v)]
            elif o["op"] == "from": out, v = attempt(lambda: g.recv_data_from_hosts(i), 4); mm = [mid(v)]
            else:
                out, v = attempt(lambda: g.recv_data_from_hosts(-1), 4)
                mm = [mid(x) for x in v] if out == "ok" and isinstance(v, (list, tuple)) else []
            ev.append(dict(op=o["op"], i=i, m=mm, out=out))
            if out != "ok" and o["op"] != "refuse" or out == "hang": hangs += 1; break
        if ev[-1]["out"] == "ok" and b % 3 == 0:
            # the guest is already collecting while the hosts answer, the last host first
            import threading, time
            box = {}
            def take():
                try: box["v"] = g.recv_data_from_hosts(-1)
                except Exception as e: box["e"] = type(e).__name__
            th = threading.Thread(target=take, daemon=True); th.start(); time.sleep(0.01)
            for i in r.sample(range(n), n) if b % 2 else reversed(range(n)):
                m = top + 300 + i
                out, _ = attempt(lambda: hosts[i].send_data_to_guest((m, "x" * r.choice([0, 17, 900]))), 4)
                ev.append(dict(op="hsend", i=i, m=[m], out=out)); time.sleep(0.01)
            th.join(4)
            v = box.get("v"); ok = isinstance(v, (list, tuple))
            ev.append(dict(op="collect", i=-1, m=[mid(x) for x in v] if ok else [], out="ok" if ok else box.get("e", "hang")))
            if not ok: hangs += 1
        close(g, hosts)
        yield dict(id="b%d" % b, n=n, ev=ev)

def corrupt(t):
    k = [e for e in t["ev"] if e["op"] == "collect" and len(e["m"]) > 1]
    if not k: return []
    k[0]["m"] = k[0]["m"][::-1]
    return [t]
