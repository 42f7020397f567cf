"""C07: shape, statistics, weights and importances of fitted trees."""
DESIGN = [dict(module="TreeMC", cfg="TreeMC.cfg", min_states=20000, actions=["DoLeaf", "DoBranch"]),
          dict(module="TreeMC", cfg="TreeMC_thorough.cfg", min_states=100000, thorough=True, timeout=2400)]
GEN = [dict(name="g", module="TreeMC", cfg="TreeGen.cfg", simulate=dict(quick=100, thorough=1000), depth=30, timeout=1500)]
TRACE = "TreeTrace"
CHUNK = 300
MUST_SEE = ["node", "importance", "hosttree", "end"]
ASSUMPTIONS = ["gradients and hessians are small integers, so that sums are exact"]
def drive(tier, seed, gen):
    import treecheck
    yield from treecheck.from_spec(gen["g"], seed, "C07", predict=False)
    yield from treecheck.sweep(tier, seed, "C07", predict=False)
def corrupt(t):
    k = [e for e in t["ev"] if e["op"] == "node"]
    if len(k) < 3: return []
    k[-1]["g"] += 1000
    u = dict(t, ev=[e for e in t["ev"] if e is not k[-1]])
    return [t, u]
