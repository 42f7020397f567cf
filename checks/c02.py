"""C02: framing. TLC generates segmentations and close points; they are replayed byte-exactly into the real receiver
through a scripted socket, and a few over real TCP connections; TLC validates the resulting traces."""
DESIGN = [dict(module="FramingMC", cfg="FramingMC.cfg", min_states=2000, actions=["Write", "Close", "CloseMid", "Seg", "Eof"]),
          dict(module="FramingMC", cfg="FramingMC_short.cfg", expect="FramedAny"),
          dict(module="FramingMC", cfg="FramingMC_noeof.cfg", expect="Temporal"),
          dict(module="FramingMC", cfg="FramingMC_thorough.cfg", min_states=5000, thorough=True, timeout=1500)]
GEN = [dict(name="seg", module="FramingMC", cfg="FramingGen.cfg", simulate=dict(quick=600, thorough=6000), depth=80, timeout=1500)]
TRACE = "FramingTrace"
MUST_SEE = ["send", "read", "recv", "close"]
ASSUMPTIONS = ["TCP delivers bytes in order without corruption; only segmentation and closing are adversarial"]

class Script:
    """A socket stand-in whose recv follows a schedule of absolute stream positions."""
    def __init__(s, data, cuts, end, log):
        s.data, s.cuts, s.end, s.log, s.pos, s.eofs = data, sorted(set(cuts)), end, log, 0, 0
    def _piece(s, n, flags=0):
        import socket
        if n <= 0: return b""
        lim = min(s.end, len(s.data))
        if s.pos >= lim:
            s.eofs += 1
            if s.eofs > 50:
                from drv import Hang
                raise Hang()
            s.log.append(dict(op="read", n=0)); return b""
        stop = min(s.pos + n, lim)
        if not flags & getattr(socket, "MSG_WAITALL", 0):
            for c in s.cuts:
                if c > s.pos: stop = min(stop, c); break
        b = s.data[s.pos:stop]
        if not flags & getattr(socket, "MSG_PEEK", 0): s.pos = stop; s.log.append(dict(op="read", n=len(b)))
        return b
    def recv(s, n, flags=0): return s._piece(n, flags)
    def recv_into(s, buf, nbytes=0, flags=0):
        mv = memoryview(buf).cast("B"); b = s._piece(nbytes or len(mv), flags); mv[:len(b)] = b; return len(b)
    def settimeout(s, t): pass
    def gettimeout(s): return None
    def setblocking(s, f): pass
    def close(s): pass

class Sink:
    """Records what is sent; plain send() accepts only part of the data, as a real socket may."""
    def __init__(s, rng): s.buf = b""; s.rng = rng
    def sendall(s, b, flags=0): s.buf += bytes(b)
    def send(s, b, flags=0):
        k = max(1, min(len(b), s.rng.randint(1, max(1, len(b) // 2)))) if len(b) else 0
        s.buf += bytes(b)[:k]; return k
    def sendmsg(s, bufs, *a):
        return s.send(b"".join(bytes(x) for x in bufs))
    def settimeout(s, t): pass
    def setblocking(s, f): pass

def same(a, b):
    import numpy as np
    from computing.d_table import DTable
    if type(a) is not type(b): return False
    if isinstance(a, np.ndarray): return a.dtype == b.dtype and a.shape == b.shape and bool((a == b).all())
    if isinstance(a, DTable): return list(a.collect()) == list(b.collect())
    return a == b

def message(r, units):
    import numpy as np
    from computing.d_table import DTable
    k = r.randint(0, 9); uid = r.randint(0, 10**9)
    if units >= 4 and k < 3: return [uid, bytes(r.getrandbits(8) for _ in range(r.choice([5000, 70000, 200000])))]
    return [lambda: uid, lambda: (uid, None), lambda: {"k": uid, "v": [1.5, -2, "é\n"]}, lambda: [uid] * r.randint(0, 300),
            lambda: (uid, True), lambda: DTable(True, [(i, (uid, i)) for i in range(r.randint(0, 40))]),
            lambda: np.arange(r.randint(0, 50)) + uid, lambda: "%d" % uid + "x" * r.randint(0, 999), lambda: (uid, b"\0" * r.randint(0, 99)),
            lambda: [(uid, r.getrandbits(2048)) for _ in range(r.randint(1, 5))]][k]()

def drive(tier, seed, gen):
    import realcode, pickle
    from federation.transfer_inst import TransferInst
    from drv import attempt, rng, Hang
    # long messages: the length takes as many digits as it needs
    long = [dict(sizes=[2, 3, 2], cuts=sorted(rng(seed, "c02long", j).sample(range(1, 19), 9)), close=-1, big=z)
            for j, z in enumerate([(1100000, 11000000), (999999 - 30, 10000000)] + ([(120000000, 5)] if tier == "thorough" else []))]
    for i, b in enumerate(gen["seg"] + long):
        r = rng(seed, "c02", i)
        ev = []; msgs = [message(r, u) for u in b["sizes"]]
        if "big" in b: msgs = [(i, b"y" * b["big"][0]), (i, b"x" * b["big"][1]), "end%d" % i]
        elif i % 37 == 0: msgs[-1] = [None, 0, "", [], (), False][i // 37 % 6]
        sink = Sink(r); ends = [0]; bad = False
        for m in msgs:
            o, _ = attempt(lambda: TransferInst.send_data(sink, m), 20)
            ev.append(dict(op="send", n=len(sink.buf) - ends[-1], out=o)); ends.append(len(sink.buf))
            if o != "ok": bad = True; break
        if bad: yield dict(id="s%d" % i, ev=ev); continue
        # unit positions of the model -> byte positions of this stream (4 header units, then body units)
        m2b = {0: 0}; p = 0
        for k, u in enumerate(b["sizes"]):
            f0, f1 = ends[k], ends[k + 1]; hdr = min(16, f1 - f0)
            offs = [f0 + x for x in ([r.randint(1, 5), r.randint(6, 10), r.randint(11, 15)] if hdr == 16 else [f0]*3)] + [f0 + hdr]
            body = f1 - f0 - hdr
            offs += [f0 + hdr + (body * j) // u for j in range(1, u)] + [f1]
            for o in offs: p += 1; m2b[p] = o
        cuts = [m2b[c] for c in b["cuts"]]
        end = len(sink.buf) if b["close"] < 0 else m2b[b["close"]]
        closed = b["close"] >= 0
        if closed: ev.append(dict(op="close", n=end))
        else: end = len(sink.buf); ev.append(dict(op="close", n=end))
        # a sixth of the schedules go byte by byte through the headers
        if i % 6 == 0: cuts += [x + j for x in ends[:-1] for j in range(1, 17)]
        sock = Script(sink.buf, cuts, end, ev)
        for k in range(len(msgs) + 1):
            if k == len(msgs) and i % 3: break           # one more receive than messages: must fail, not wait
            o, v = attempt(lambda: TransferInst.recv_data(sock), 20)
            idx = 0
            if o == "ok": idx = next((j + 1 for j in range(k, len(msgs)) if same(v, msgs[j])), next((j + 1 for j in range(k) if same(v, msgs[j])), 0))
            ev.append(dict(op="recv", out=o, i=idx, rd=1))
            if o != "ok": break
        yield dict(id="s%d" % i, ev=ev)
    for t in real(tier, seed): yield t

def real(tier, seed):
    """Real TCP: a host transport against a raw server that dribbles frames produced by the real sender."""
    import socket, threading, time
    from federation.transfer_inst import TransferInst, TransferInstHost
    from drv import attempt, rng
    for i in range(6 if tier == "quick" else 40):
        r = rng(seed, "c02real", i); msgs = [message(r, 4 if j % 2 else 1) for j in range(4)]; msgs.append([0, b"z" * 400000])
        ev = []; sink = Sink(r); ends = [0]; bad = False
        for m in msgs:
            o, _ = attempt(lambda: TransferInst.send_data(sink, m), 20); ev.append(dict(op="send", n=len(sink.buf) - ends[-1], out=o)); ends.append(len(sink.buf))
            bad = bad or o != "ok"
        if bad: yield dict(id="r%d" % i, ev=ev); continue
        cutmsg = r.randint(0, 4); end = [len(sink.buf), ends[cutmsg] + r.randint(1, 15), (ends[cutmsg] + 16 + ends[cutmsg + 1]) // 2][i % 3]
        ls = socket.socket(); ls.bind(("127.0.0.1", 0)); ls.listen(1)
        def serve():
            try:
                c, _ = ls.accept(); c.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1); p = 0
                while p < end:
                    k = r.choice([1, 3, 15, 17, 100, 5000, 65536]); c.sendall(sink.buf[p:min(end, p + k)]); p += k
                    if k < 20: time.sleep(0.002)
                c.close()
            except OSError: pass
        th = threading.Thread(target=serve, daemon=True); th.start()
        ev.append(dict(op="close", n=end))
        o, h = attempt(lambda: TransferInstHost("127.0.0.1", ls.getsockname()[1]), 20)
        for k in range(len(msgs) + 1):
            if o != "ok": ev.append(dict(op="recv", out="hang", i=0, rd=0)); break
            o2, v = attempt(h.recv_data_from_guest, 20)
            idx = next((j + 1 for j in range(len(msgs)) if same(v, msgs[j])), 0) if o2 == "ok" else 0
            ev.append(dict(op="recv", out=o2, i=idx, rd=0))
            if o2 != "ok": break
        ls.close()
        yield dict(id="r%d" % i, ev=ev)

def corrupt(t):
    if t["id"].startswith("r"): return []
    k = [j for j, e in enumerate(t["ev"]) if e["op"] == "recv" and e["out"] == "ok"]
    if len(k) < 2: return []
    t["ev"][k[-1]]["i"] -= 1
    return [t]
