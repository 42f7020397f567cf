"""C06: split choice, validated node by node against the exact rational gains of the specification."""
DESIGN = [dict(module="TreeMC", cfg="TreeMC.cfg", min_states=20000, actions=["DoLeaf", "DoBranch"]),
          dict(module="TreeMC", cfg="TreeMC_two.cfg", min_states=20000),
          dict(module="TreeMC", cfg="TreeMC_hosttie.cfg", expect="Lossless"),
          dict(module="TreeMC", cfg="TreeMC_hostmin.cfg", expect="Lossless"),
          dict(module="TreeMC", cfg="TreeMC_first.cfg", expect="Lossless"),
          dict(module="TreeMC", cfg="TreeMC_thorough.cfg", min_states=100000, thorough=True, timeout=2400)]
GEN = [dict(name="g", module="TreeMC", cfg="TreeGen.cfg", simulate=dict(quick=150, thorough=1500), depth=30, timeout=1500)]
TRACE = "TreeTrace"
CHUNK = 300
MUST_SEE = ["node", "run", "end"]
ASSUMPTIONS = ["gradients and hessians are small integers, so that the specification compares gains exactly"]
def drive(tier, seed, gen):
    import treecheck
    yield from treecheck.from_spec(gen["g"], seed, "C06", want=(), predict=False)
    yield from treecheck.sweep(tier, seed, "C06", predict=False, want=())
def corrupt(t):
    k = [e for e in t["ev"] if e["op"] == "node" and not e["leaf"]]
    if not k: return []
    k[0]["leaf"] = True
    return [t]
