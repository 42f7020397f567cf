"""Development aid: mutates the code mechanically (operators, constants, conditions, dropped statements, swapped arguments)
and reports the mutants no check notices. Usage: python3 tools/automut.py SEED COUNT [file-substring ...]"""
import ast, sys, os, random, subprocess, shutil, tempfile, json, time, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MUT_REPO", "/repo")
MAP = [("computing/", "C01 C17"), ("federation/", "C02 C03"), ("i_o/", "C20"), ("guest.py", "C20 C24"), ("host.py", "C20 C24"),
       ("ml/feature/binning", "C16 C17 C23"), ("ml/feature/quantile", "C15 C23 C16"), ("ml/feature/", "C28 C16 C17 C23 C01"),
       ("ml/loss", "C22 C10"), ("ml/optim/activation", "C22"), ("ml/optim/conv", "C26 C10"), ("ml/optim", "C26 C22"), ("ml/model_base", "C24 C10"),
       ("ml/param/", "C21"), ("ml/secureprotol/fixedpoint", "C14 C12"), ("ml/secureprotol/fate_pail", "C12 C14"), ("ml/secureprotol/gmpy", "C27 C12"),
       ("ml/secureprotol/affine", "C27"), ("ml/secureprotol/encrypt_mode", "C13 C05"), ("ml/secureprotol/", "C27 C12"),
       ("ml/statistic", "C23 C28 C16 C17"), ("ml/utils/param", "C21"), ("ml/utils/", "C28 C23 C22 C10 C20 C27 C21"),
       ("ml/tree/creterion", "C06 C19 C07"), ("ml/tree/splitter", "C06 C19 C07 C08"), ("ml/tree/feateur", "C08 C06"), ("ml/tree/node", "C07 C18"),
       ("xgboost/hetero_decision_tree", "C19 C10 C25 C18 C17 C11"), ("xgboost/", "C10 C19 C11 C25 C24 C17"),
       ("ml/tree/hetero_decision_tree_guest", "C07 C06 C09 C04 C19 C18 C25 C05 C17 C10"),
       ("ml/tree/hetero_decision_tree_host", "C07 C06 C09 C04 C19 C18 C25 C05 C17 C10"),
       ("ml/tree/hetero_secureboosting_tree_guest", "C10 C11 C04 C25 C24 C17 C05 C19"), ("ml/tree/hetero_secureboosting_tree_host", "C10 C04 C25 C24 C17 C05"),
       ("ml/tree/", "C28 C10 C25 C07 C18 C11")]
def props(f):
    for k, p in MAP:
        if f == k or (k in f and k not in ("guest.py", "host.py")): return p.split()
    return []
SKIPCALL = ("print", "debug", "info", "warning", "error", "LOGGER")
class Sites(ast.NodeVisitor):
    """Collects (description, function editing the tree)."""
    def __init__(s): s.out = []
    def add(s, node, kind, f): s.out.append((node.lineno, kind, f))
    def visit_Compare(s, n):
        T = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq],
             ast.In: [ast.NotIn], ast.NotIn: [ast.In], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}
        for t in T.get(type(n.ops[0]), []):
            s.add(n, "cmp %s->%s" % (type(n.ops[0]).__name__, t.__name__), lambda n=n, t=t: n.ops.__setitem__(0, t()))
        s.generic_visit(n)
    def visit_BoolOp(s, n):
        s.add(n, "boolop", lambda: setattr(n, "op", ast.Or() if isinstance(n.op, ast.And) else ast.And()))
        for i in range(len(n.values)): s.add(n, "drop operand %d" % i, lambda i=i: n.values.__delitem__(i) if len(n.values) > 1 else None)
        s.generic_visit(n)
    def visit_UnaryOp(s, n):
        if isinstance(n.op, ast.Not): s.add(n, "drop not", lambda: setattr(n, "op", ast.Not()) or setattr(n, "operand", ast.UnaryOp(ast.Not(), n.operand)))
        if isinstance(n.op, ast.USub): s.add(n, "drop minus", lambda: setattr(n, "op", ast.UAdd()))
        s.generic_visit(n)
    def visit_BinOp(s, n):
        T = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.FloorDiv: ast.Mult, ast.Mod: ast.FloorDiv, ast.Pow: ast.Mult}
        if type(n.op) in T and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)) and not isinstance(n.left, ast.JoinedStr):
            s.add(n, "op %s" % type(n.op).__name__, lambda: setattr(n, "op", T[type(n.op)]()))
            s.add(n, "left only", lambda: (setattr(n, "op", ast.Add()), setattr(n, "right", ast.Constant(0))))
        s.generic_visit(n)
    def visit_Constant(s, n):
        if n.value is True or n.value is False: s.add(n, "flip bool", lambda: setattr(n, "value", not n.value))
        elif isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
            s.add(n, "const %r+1" % n.value, lambda: setattr(n, "value", n.value + 1))
            if n.value not in (0,): s.add(n, "const %r->0" % n.value, lambda: setattr(n, "value", 0))
    def body(s, b):
        for i, st in enumerate(b):
            if isinstance(st, (ast.Assign, ast.AugAssign)) or (isinstance(st, ast.Expr) and isinstance(st.value, ast.Call)):
                s.add(st, "drop statement", lambda i=i, b=b: b.__setitem__(i, ast.Pass()))
            if isinstance(st, ast.If) and st.orelse == []: s.add(st, "drop if", lambda i=i, b=b: b.__setitem__(i, ast.Pass()))
            if isinstance(st, ast.Break): s.add(st, "break->continue", lambda i=i, b=b: b.__setitem__(i, ast.Continue()))
            if isinstance(st, ast.Continue): s.add(st, "continue->pass", lambda i=i, b=b: b.__setitem__(i, ast.Pass()))
    def generic_visit(s, n):
        for f in ("body", "orelse", "finalbody"):
            b = getattr(n, f, None)
            if isinstance(b, list) and not isinstance(n, (ast.ClassDef, ast.Module)): s.body(b)
        super().generic_visit(n)
    def visit_If(s, n):
        s.add(n, "if True", lambda: setattr(n, "test", ast.Constant(True)))
        s.add(n, "if False", lambda: setattr(n, "test", ast.Constant(False)))
        s.generic_visit(n)
    def visit_IfExp(s, n):
        s.add(n, "ifexp body", lambda: setattr(n, "test", ast.Constant(True)))
        s.add(n, "ifexp else", lambda: setattr(n, "test", ast.Constant(False)))
        s.generic_visit(n)
    def visit_Call(s, n):
        name = getattr(n.func, "attr", getattr(n.func, "id", ""))
        if any(k in ast.dump(n.func) for k in SKIPCALL): return
        if len(n.args) >= 2 and name not in ("isinstance",): s.add(n, "swap args", lambda: n.args.__setitem__(slice(0, 2), [n.args[1], n.args[0]]))
        if name in ("copy", "deepcopy", "abs", "sorted", "list", "set", "round", "float", "int") and len(n.args) == 1:
            s.add(n, "drop %s()" % name, lambda: (setattr(n, "func", ast.parse("(lambda x: x)", mode="eval").body), setattr(n, "keywords", [])))
        for i, k in enumerate(n.keywords): s.add(n, "drop keyword %s" % k.arg, lambda k=k: n.keywords.remove(k))
        s.generic_visit(n)
    def visit_Raise(s, n): pass
    def visit_FunctionDef(s, n):
        if n.name.startswith("__repr") or n.name in ("show_path",): return
        n2 = n.args; s.generic_visit(n)
def files(subs):
    r = []
    for d, _, fs in os.walk(REPO):
        for f in fs:
            p = os.path.relpath(os.path.join(d, f), REPO)
            if f.endswith(".py") and not f.endswith("_pb2.py") and "test_d_table" not in f and ".git" not in p and props(p) and (not subs or any(x in p for x in subs)): r.append(p)
    return sorted(r)
def sites(p):
    t = ast.parse(open(os.path.join(REPO, p)).read()); v = Sites(); v.visit(t)
    return t, v.out
def mutant(p, i):
    t, o = sites(p); o[i][2](); return ast.unparse(ast.fix_missing_locations(t)) + "\n"
CACHE = os.environ.get("VERIF_GENCACHE", "/tmp/w/gencache")
def run(m):
    p, i, line, kind = m
    w = tempfile.mkdtemp(prefix="amut_"); c = w + "/repo"
    try:
        src = mutant(p, i)
        if src == ast.unparse(ast.parse(open(os.path.join(REPO, p)).read())) + "\n": return m, "same", ""
        shutil.copytree(REPO, c, ignore=shutil.ignore_patterns(".git", "img"))
        open(os.path.join(c, p), "w").write(src)
        if p.startswith("computing/"):
            t = subprocess.run(["python3-vt", "-m", "pytest", "-q", "-x", "computing/test_d_table.py"], cwd=c, capture_output=True)
            if t.returncode: return m, "tests", ""
        note = ""
        for q in props(p):
            e = dict(os.environ, VERIF_REPO=c, VERIF_NOEVIDENCE="1", VERIF_SKIPDESIGN="1", VERIF_GENCACHE=CACHE, VERIF_SEED="1", VERIF_TIER="quick")
            r = subprocess.run(["python3-vt", V + "/run.py", q], cwd=V, env=e, capture_output=True, text=True)
            if r.returncode == 1: return m, "caught", q
            if r.returncode != 0: note += " %s rc%d %s" % (q, r.returncode, r.stdout[-200:].replace("\n", " "))
        return m, "SURVIVED", note
    finally: shutil.rmtree(w, ignore_errors=True)
if __name__ == "__main__":
    os.makedirs(CACHE, exist_ok=True)
    seed, cnt = int(sys.argv[1]), int(sys.argv[2])
    allm = [(p, i, o[0], o[1]) for p in files(sys.argv[3:]) for i, o in enumerate(sites(p)[1])]
    random.Random(seed).shuffle(allm)
    print(len(allm), "sites", flush=True)
    n = {}
    with cf.ThreadPoolExecutor(int(os.environ.get("MUT_JOBS", "5"))) as ex:
        for f in cf.as_completed([ex.submit(run, m) for m in allm[:cnt]]):
            m, r, note = f.result(); n[r] = n.get(r, 0) + 1
            if r != "caught" and r != "same": print(r, m[0], "line", m[2], m[3], note, flush=True)
    print(n)
