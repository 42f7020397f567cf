"""Drivers shared by the checks on single trees (C06, C07, C09, C19, C25)."""
import realcode, fed
from drv import rng, attempt

def safely(ev, what, f):
    """Appends f()'s events; code that fails while being observed is an event of its own."""
    o, v = attempt(f, 60)
    if o == "ok": ev += v; return True
    ev.append(dict(op="run", what=what, out=o, left=0)); return False

def one(d, r, ident, focus, enc="sealed", predict=True, module="ml.tree.hetero_decision_tree_guest", reload_=True, want=("host", "imp")):
    nh = len(d["X"]) - 1; ev = []; _, _, wu, gainu = fed.units(d)
    sched = [r.randint(0, nh) for _ in range(r.randint(1, 30))]
    orders = {}
    def order(p):
        if p not in orders:
            o = list(range(d["n"])); r.shuffle(o); orders[p] = o if r.random() < .5 else None
        return orders[p]
    run = fed.fit_tree(d, sched, enc, order, module=module, limit=15 if not enc.isdigit() else 60)
    ev.append(dict(op="run", what="training", out=run.out, left=run.hub.leftover()))
    if run.out == "ok":
        good = safely(ev, "model", lambda: fed.node_events(run, d)) and (ev.append(dict(op="end")) or True)
        if good and "host" in want: good = safely(ev, "hosttree", lambda: fed.host_events(run, d.get("unit", 1)))
        if good and "imp" in want: good = safely(ev, "importance", lambda: fed.imp_events(run, gainu if d.get("imp") == "gain" else 1))
        if good: good = safely(ev, "weights", lambda: fed.weight_events(run, d["keys"], wu))
        if good and predict:
            def pr():
                out = []
                ms = [run.guest.get_model()] + [h.get_model() for h in run.hosts]
                # training samples, by the live trees or by reloaded ones
                objs = None if (reload_ and r.random() < .5) else [run.guest] + run.hosts
                hub, res = fed.predict_tree(d, ms, d["X"], d["keys"], sched, None, module, objs)
                out += fed.pred_events(hub, res, d["keys"], "of training samples", list(range(1, d["n"] + 1)), wu)
                nn = len(d["NX"][0]); nk = ["new%d" % j for j in range(nn)]
                if hub.verdict() == "ok":
                    def order2(p):
                        o = list(range(nn)); r.shuffle(o); return o
                    hub, res = fed.predict_tree(d, ms, d["NX"], nk, sched[::-1], order2, module)
                    out += fed.pred_events(hub, res, nk, "of new samples", [d["n"] + 1 + j for j in range(nn)], wu)
                return out
            safely(ev, "prediction", pr)
    return fed.trace_of(d, focus, ident, ev)

SCALES = [(2.0 ** -6, 2.0 ** -12), (64, 4096), (.125, .125), (2.0 ** -12, 2.0 ** -24), (1, 4), (.5, .25)]
def sweep(tier, seed, focus, quick=420, thorough=3500, paillier=2, want=("host", "imp"), predict=True, **kw):
    n = quick if tier == "quick" else thorough; bad = 0
    for i in range(n):
        r = rng(seed, "tree", focus, i)
        opts = {k: (v(r) if callable(v) else v) for k, v in kw.items()}; big = i % 28 in (9, 23)
        d = fed.large(r, form=(0, 1, 2, 4)[i // 28 % 4] if i % 28 == 9 else (3, 3, 4)[i // 28 % 3], **opts) if big else (fed.close_race if focus == "C06" and i % 3 == 1 else fed.tree_data)(r, **opts)
        enc = "sealed" if i % 4 else "plain"
        if i % (n // paillier) == 5:
            enc = "512"
            d["depth"] = min(d["depth"], 2)
        if big: enc = "sealed"
        if i % 7 == 3: d["gu"], d["hu"] = SCALES[i // 7 % len(SCALES)]      # gradients and hessians of other magnitudes
        t = one(d, r, "t%d" % i, focus, enc, predict, want=want)
        if any(e["op"] == "run" and e["out"] in ("hang", "deadlock") for e in t["ev"]): bad += 1
        yield t
        if bad > 2: break

def spec_data(b, r):
    n = len(b["g"]); np_ = len(b["x"])
    return dict(n=n, X=b["x"], NX=[[[r.randint(-2, 4)] for _ in range(4)] for _ in range(np_)], SP=[[[0, 1]] for _ in range(np_)],
                valid=[[1]] * np_, g=b["g"], h=[1] * n, lamnum=1, lamden=1, minum=0, miden=1, minleaf=b["minleaf"], minsample=2, depth=b["depth"],
                batch=r.choice([1, 2, 65536]), keys=list(range(n)), imp="split")

def from_spec(gen, seed, focus, want=("host", "imp"), predict=True):
    """Replays the data sets of TLC's behaviours into the real code."""
    bad = 0
    for i, b in enumerate(gen):
        r = rng(seed, "gen", focus, i); d = spec_data(b, r)
        t = one(d, r, "g%d" % i, focus, "sealed", predict, want=want)
        yield t
        bad += any(e["op"] == "run" and e["out"] in ("hang", "deadlock") for e in t["ev"])
        if bad > 2: return
