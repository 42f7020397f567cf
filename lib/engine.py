"""Runs one property check: design models in TLC, traces from the real code, their validation in TLC."""
import os, sys, json, re, subprocess, tempfile, shutil, time, traceback, importlib
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
PY = "/usr/local/bin/python3-vt" if os.path.exists("/usr/local/bin/python3-vt") else (shutil.which("python3-vt") or sys.executable)

class Machinery(Exception): pass

class Tlc:
    def __init__(s): s.out = ""; s.generated = s.distinct = 0; s.ok = False; s.violated = None; s.lines = []; s.coverage = {}

def tlc(module, cfg, scratch, env=None, workers=4, timeout=600, simulate=None, seed=1, depth=100, coverage=False, heap="3g"):
    md = tempfile.mkdtemp(dir=scratch)
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss128m", "-cp", CP, "tlc2.TLC",
           "-workers", str(workers), "-metadir", md, "-noGenerateSpecTE", "-config", cfg]
    if coverage: cmd += ["-coverage", "1"]
    if simulate: cmd += ["-simulate", "num=%d" % simulate, "-depth", str(depth), "-seed", str(seed)]
    cmd += [module + ".tla"]
    e = dict(os.environ); e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Machinery("TLC timed out on %s/%s after %ds" % (module, cfg, timeout))
    finally:
        shutil.rmtree(md, ignore_errors=True)
    r = Tlc(); r.out = p.stdout.decode(errors="replace"); r.rc = p.returncode
    for m in re.finditer(r"(\d+) states generated, (\d+) distinct states found", r.out):
        r.generated, r.distinct = int(m.group(1)), int(m.group(2))
    m = re.search(r"The number of states generated: (\d+)", r.out)
    if m: r.generated = r.distinct = int(m.group(1))
    r.ok = "No error has been found" in r.out or (simulate and p.returncode == 0)
    m = re.search(r"(Invariant (\S+) is violated|Action property (\S+) is violated|Temporal propert(?:y|ies) (?:\S+ )?(?:was|were) violated|Deadlock reached)", r.out)
    if m: r.violated = m.group(1)
    r.lines = [l for l in r.out.splitlines() if l.startswith("<<") or l.startswith('"')]
    for m in re.finditer(r"^<(\w+) line \d+[^>]*>: (\d+):(\d+)", r.out, re.M):
        r.coverage[m.group(1)] = r.coverage.get(m.group(1), 0) + int(m.group(3))
    return r

def parse_tla(s):
    """Parses the small subset of TLA+ values TLC prints: tuples, sets, strings, ints, booleans."""
    pos = 0
    def ws():
        nonlocal pos
        while pos < len(s) and s[pos] in " \n\t": pos += 1
    def val():
        nonlocal pos
        ws()
        if s.startswith("<<", pos) or s[pos] == "{":
            end = ">>" if s.startswith("<<", pos) else "}"
            pos += 2 if end == ">>" else 1
            out = []
            while True:
                ws()
                if s.startswith(end, pos): pos += len(end); return out
                if s[pos] == ",": pos += 1; continue
                out.append(val())
        if s[pos] == '"':
            j = pos + 1; b = ""
            while s[j] != '"':
                if s[j] == "\\": j += 1
                b += s[j]; j += 1
            pos = j + 1; return b
        m = re.compile(r"-?\d+|TRUE|FALSE").match(s, pos)
        if not m: raise ValueError(s[pos:pos + 40])
        pos = m.end(); t = m.group(0)
        return {"TRUE": True, "FALSE": False}.get(t, None) if t in ("TRUE", "FALSE") else int(t)
    return val()

def verdicts(r):
    out = {}
    buf = r.out
    for m in re.finditer(r'<<\s*"VERDICT",', buf):
        # a verdict may be wrapped over several lines by TLC's pretty printer: find the matching >>
        i = m.start(); depth = 0; j = i; instr = False
        while j < len(buf):
            c = buf[j]
            if instr:
                if c == "\\": j += 1
                elif c == '"': instr = False
            elif c == '"': instr = True
            elif buf.startswith("<<", j): depth += 1; j += 1
            elif buf.startswith(">>", j):
                depth -= 1; j += 1
                if depth == 0: break
            j += 1
        v = parse_tla(buf[i:j + 1])
        out.setdefault(v[1], []).append(v[2:])
    return out

UNKIND = re.compile(r"Attempted to|argument of \S+ should be|should be an? \w+, but|Overflow when computing")

def strange(x):
    """Values which no specification speaks of: nothing, fractions and integers beyond TLC's."""
    if isinstance(x, dict): return any(strange(v) for v in x.values())
    if isinstance(x, list): return any(strange(v) for v in x)
    return x is None or isinstance(x, float) or (isinstance(x, int) and abs(x) >= 2**31)

def validate(module, traces, scratch, timeout=800, workers=8, chunk=None, cfg=None, heap="6g", env=None):
    """Every trace gets exactly one verdict. Returns ({id: verdict}, states, generated)."""
    res = {}; st = ge = 0
    ids = [t["id"] for t in traces]
    if len(set(ids)) != len(ids): raise Machinery("duplicate trace ids")
    groups = [traces] if not chunk else [traces[i:i + chunk] for i in range(0, len(traces), chunk)]
    todo = [(n, g) for n, g in enumerate(groups)]; splits = 0
    while todo:
        n, g = todo.pop(0)
        if not g: continue
        f = os.path.join(scratch, "traces_%s_%d_%d.json" % (module, os.getpid(), n))
        with open(f, "w") as fh: json.dump(g, fh)
        e = {"TRACE_FILE": f}; e.update(env or {})
        r = tlc(module, cfg or module + ".cfg", scratch, env=e, workers=workers, timeout=timeout, heap=heap)
        os.unlink(f)
        v = verdicts(r)
        if not r.ok and UNKIND.search(r.out) and splits < 40:
            # a value of a kind no clause can be evaluated on: found by halving; the trace it stands in is not a behaviour of the specification
            splits += 1
            if len(g) == 1: res[g[0]["id"]] = ["REJECTED", 0, ["every observation is a value of the kind the specification knows"]]; print(r.out[-1500:]); continue
            todo[:0] = [(n, g[:len(g) // 2]), (n, g[len(g) // 2:])]; continue
        if not r.ok:
            raise Machinery("TLC failed on trace module %s:\n%s" % (module, r.out[-4000:]))
        st += r.distinct; ge += r.generated
        for t in g:
            vs = v.get(t["id"], [])
            if len(vs) != 1: raise Machinery("trace %s got %d verdicts" % (t["id"], len(vs)))
            res[t["id"]] = vs[0]
    return res, st, ge

def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else []

def run_check(prop, tier, seed):
    t0 = time.time()
    mod = importlib.import_module("checks." + prop.lower())
    scratch = tempfile.mkdtemp(prefix="verif_%s_" % prop)
    cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[])
    design = []
    try:
        # 1. the specification's own properties
        for d in getattr(mod, "DESIGN", []):
            if tier == "quick" and d.get("thorough"): continue
            if os.environ.get("VERIF_SKIPDESIGN"): continue      # development only (tools/automut.py): the models do not depend on the code
            cfg = d["cfg"]
            r = tlc(d["module"], cfg, scratch, workers=d.get("workers", 8), timeout=d.get("timeout", 700),
                    coverage=bool(d.get("actions")), heap=d.get("heap", "6g"), simulate=d.get("simulate"), seed=seed, depth=d.get("depth", 100))
            if d.get("expect"):
                # a deliberately broken variant of the model: the invariant must be able to fail
                if not (r.violated and d["expect"] in r.violated):
                    raise Machinery("model variant %s should violate %s\n%s" % (cfg, d["expect"], r.out[-2500:]))
            elif not r.ok: raise Machinery("model %s %s: %s\n%s" % (d["module"], cfg, r.violated, r.out[-3500:]))
            if r.distinct < d.get("min_states", 1): raise Machinery("model %s explored only %d states" % (cfg, r.distinct))
            for a in d.get("actions", []):
                if r.coverage.get(a, 0) == 0: raise Machinery("model %s: action %s never taken" % (cfg, a))
            cov["states"] += r.distinct; cov["transitions"] += r.generated
            design.append(dict(model=d["module"], config=cfg, distinct_states=r.distinct, generated=r.generated,
                               actions={a: r.coverage.get(a, 0) for a in d.get("actions", [])}, expect=d.get("expect")))
        # 2. behaviours generated from the specification, to be replayed into the code
        gen = {}
        cache = os.environ.get("VERIF_GENCACHE") and os.path.join(os.environ["VERIF_GENCACHE"], "%s_%s_%d.json" % (prop, tier, seed))
        if cache and os.path.exists(cache): gen = json.load(open(cache))
        for g in getattr(mod, "GEN", []):
            if g["name"] in gen: continue
            r = tlc(g["module"], g["cfg"], scratch, workers=g.get("workers", 1), timeout=g.get("timeout", 300),
                    simulate=(g["simulate"][tier] if g.get("simulate") else None), seed=seed, depth=g.get("depth", 100), heap=g.get("heap", "3g"),
                    env=dict(g.get("env", {}), VERIF_TIER=tier))
            if not r.ok or re.search(r"^Error:", r.out, re.M): raise Machinery("generator %s: %s" % (g["cfg"], r.out[-3000:]))
            beh = []; seen = set()
            for l in r.out.splitlines():
                m = re.match(r'^"?BEHAVIOUR (.*?)"?$', l)
                if m:
                    js = m.group(1).replace('\\"', '"').replace('\\\\', '\\')
                    if js in seen: continue
                    seen.add(js); beh.append(json.loads(js))
            if not beh: raise Machinery("generator %s produced nothing\n%s" % (g["cfg"], r.out[-3000:]))
            gen[g["name"]] = beh
            cov["states"] += r.distinct; cov["transitions"] += r.generated
            design.append(dict(generator=g["module"], config=g["cfg"], behaviours=len(beh), generated=r.generated))
        gf = os.path.join(scratch, "gen.json"); json.dump(gen, open(gf, "w"))
        if cache and not os.path.exists(cache): json.dump(gen, open(cache, "w"))
        # 3. drive the real code
        tf = os.path.join(scratch, "out.json"); wd = os.path.join(scratch, "wd"); os.mkdir(wd)
        lim = getattr(mod, "DRIVE_TIMEOUT", {"quick": 400, "thorough": 3000})[tier]
        env = dict(os.environ); env.update(PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", VERIF_DRIVE_LIMIT=str(lim))
        try:
            p = subprocess.run([PY, os.path.join(VERIF, "run.py"), "--drive", prop, tier, str(seed), gf, tf], cwd=wd, env=env,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=lim)
        except subprocess.TimeoutExpired:
            raise Machinery("driver timed out after %ds" % lim)
        if p.returncode != 0: raise Machinery("driver failed:\n" + p.stdout.decode(errors="replace")[-4000:])
        traces = json.load(open(tf))
        for t in traces:
            if strange(t): t.update(module="CrashTrace", ev=[dict(op="crash", error="an observation of no known kind", text=json.dumps([e for e in t["ev"] if strange(e)][:1] or t)[:600].replace('"', "'"), where="", driver=0)])
        # 4. negative controls: corrupted copies which the specification has to reject
        controls = []
        if hasattr(mod, "corrupt"):
            for t in traces:
                for c in mod.corrupt(json.loads(json.dumps(t))) or []:
                    c["id"] = "NEG%d:%s" % (len(controls), t["id"]); controls.append(c)
                    if len(controls) >= getattr(mod, "MAX_CONTROLS", 6): break
                if len(controls) >= getattr(mod, "MAX_CONTROLS", 6): break
        bymod = {}
        for t in traces + controls: bymod.setdefault(t.get("module", getattr(mod, "TRACE", None)), []).append(t)
        ver = {}; per = {}
        for m, ts in bymod.items():
            v, st, ge = validate(m, ts, scratch, chunk=getattr(mod, "CHUNK", None), timeout=getattr(mod, "TLC_TIMEOUT", 800 if tier == "quick" else 3000))
            ver.update(v); cov["states"] += st; cov["transitions"] += ge; per[m] = len(ts)
        rejected = [t for t in traces if ver[t["id"]][0] != "ACCEPTED"]
        cov["traces_validated_against_impl"] = len(traces)
        kinds = {}
        for t in traces:
            for e in t.get("ev", []):
                k = e.get("op", "?") if isinstance(e, dict) else "?"
                kinds[k] = kinds.get(k, 0) + 1
        cov["events_by_kind"] = kinds
        for k in getattr(mod, "MUST_SEE", []):
            if not kinds.get(k) and not rejected: raise Machinery("no event of kind %s was produced" % k)
        bad = [c["id"] for c in controls if ver[c["id"]][0] == "ACCEPTED"]
        if bad and not rejected: raise Machinery("negative controls accepted: %s" % bad)
        cov["negative_controls_rejected"] = len(controls) - len(bad)
        cov["models"] = design; cov["trace_modules"] = per
        small = sorted(traces, key=lambda t: len(json.dumps(t)))
        cov["samples"] = [json.loads(json.dumps(t)[:1500]) if len(json.dumps(t)) <= 1500 else dict(id=t["id"], head=json.dumps(t)[:700]) for t in small[len(small)//2:len(small)//2+2]]
        known = [k for k in load_known() if k.get("property") == prop and k.get("status") == "known"]
        nv = 0; hit = {}
        rdir = os.path.join(scratch if os.environ.get("VERIF_NOEVIDENCE") else os.path.join(VERIF, "evidence"), "replay"); os.makedirs(rdir, exist_ok=True)
        shown = 0
        for t in rejected:
            v = ver[t["id"]]
            k = next((k for k in known if k["signature"] == t.get("sig") and set(v[2]) <= set(k["clauses"])), None)
            if k: hit.setdefault(k["signature"], (k, t, v)); continue
            nv += 1
            if shown < 5:
                shown += 1
                path = os.path.join(rdir, "%s_%d.json" % (prop, shown))
                step = v[1]; ev = t["ev"][step - 1] if 0 < step <= len(t.get("ev", [])) else None
                json.dump(dict(property=prop, tier=tier, seed=seed, trace=t, verdict=v), open(path, "w"), indent=1)
                print("rejected: trace %s step %s clauses %s event %s" % (t["id"], step, v[2], json.dumps(ev)[:600]))
                print("VIOLATION property=%s replay=%s" % (prop, path))
        for s, (k, t, v) in sorted(hit.items()):
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
        ev = dict(property=prop, tier=tier, seed=seed, level="model_checking", coverage=cov,
                  assumptions=getattr(mod, "ASSUMPTIONS", []), wall_s=round(time.time() - t0, 2), violations=nv)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        if not os.environ.get("VERIF_NOEVIDENCE"): json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
        print("%s %s: %d states, %d traces validated, %d controls rejected, %d violations, %.1fs" %
              (prop, tier, cov["states"], len(traces), len(controls) - len(bad), nv, time.time() - t0))
        return 1 if nv else 0
    finally:
        if not os.environ.get("VERIF_KEEP"): shutil.rmtree(scratch, ignore_errors=True)
        else: print("scratch kept:", scratch)

def drive(prop, tier, seed, gf, tf):
    """Records the traces. An exception the repository's own code raises in a call the driver does not guard (it only leaves
    calls unguarded whose inputs are valid) is an event too: spec/CrashTrace.tla rejects it. Any other exception is ours."""
    import signal, threading
    class Stuck(BaseException): pass
    def stuck(*a): raise Stuck("no end after most of the time allowed")
    gen = json.load(open(gf)); traces = []
    signal.signal(signal.SIGUSR1, stuck)
    w = threading.Timer(float(os.environ.get("VERIF_DRIVE_LIMIT", 400)) * .85, os.kill, (os.getpid(), signal.SIGUSR1)); w.daemon = True; w.start()
    try:
        mod = importlib.import_module("checks." + prop.lower())
        for t in mod.drive(tier, seed, gen): traces.append(t)
    except (Exception, Stuck) as e:
        repo = os.environ.get("VERIF_REPO", "/repo") + "/"
        fs = [f for f in traceback.extract_tb(e.__traceback__) if f.name != "stuck"]; last = max(i for i, f in enumerate(fs) if f.filename.startswith(VERIF + "/"))
        inside = [f for f in fs[last + 1:] if f.filename.startswith(repo)]
        # what the code gave could not be read: as on the unchanged tree every driver reads every result, it is the result which is wrong
        if not inside and not isinstance(e, (TypeError, ValueError, KeyError, IndexError, AttributeError, ZeroDivisionError, OverflowError, RecursionError)): raise
        if not inside: inside = fs[last:]
        traceback.print_exc()
        traces.append(dict(id="crash", module="CrashTrace", ev=[dict(op="crash", error=type(e).__name__, text=str(e)[:300], where="%s:%d %s" % (inside[-1].filename.replace(repo, ""), inside[-1].lineno, inside[-1].name), driver=fs[last].lineno)]))
    w.cancel()
    json.dump(traces, open(tf, "w"))
