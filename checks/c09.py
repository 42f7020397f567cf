"""C09: routing in training and prediction, by live and by reloaded trees."""
DESIGN = [dict(module="RouteMC", cfg="RouteMC.cfg", min_states=20000, actions=["Guest", "Collect", "Host"]),
          dict(module="RouteMC", cfg="RouteMC_one.cfg", min_states=500),
          dict(module="RouteMC", cfg="RouteMC_last.cfg", expect="Temporal"),
          dict(module="RouteMC", cfg="RouteMC_thorough.cfg", min_states=100000, thorough=True, timeout=2400)]
GEN = [dict(name="g", module="TreeMC", cfg="TreeGen.cfg", simulate=dict(quick=100, thorough=1000), depth=30, timeout=1500)]
TRACE = "TreeTrace"
CHUNK = 300
MUST_SEE = ["node", "leafw", "pred", "extra"]
ASSUMPTIONS = ["every party holds every sample (the tables may list them in different orders)"]
def drive(tier, seed, gen):
    import treecheck
    yield from treecheck.from_spec(gen["g"], seed, "C09", want=())
    yield from treecheck.sweep(tier, seed, "C09", want=())
def corrupt(t):
    ws = {e["w"] for e in t["ev"] if e["op"] == "leafw"}
    if len(ws) < 2: return []
    e = [e for e in t["ev"] if e["op"] in ("pred", "leafw")][-1]
    e["w"] = next(w for w in ws if w != e["w"])
    return [t]
