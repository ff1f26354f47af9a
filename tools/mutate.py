"""developer tool: random mutants of causy; prints the ones that no check reports. usage: mutate.py SEED COUNT [file-suffix...]"""
import ast, copy, difflib, json, os, random, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FUN = (ast.FunctionDef, ast.AsyncFunctionDef)
CMP = {ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt], ast.In: [ast.NotIn], ast.NotIn: [ast.In], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}
SWAP = {"u": "v", "v": "u", "from_node": "to_node", "to_node": "from_node", "append": "remove", "name": "id", "id": "name"}
SWAP.pop("append")

def skip(n):
    """message-only statements"""
    if isinstance(n, ast.Raise): return True
    if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant): return True
    if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
        s = ast.unparse(n.value.func)
        return s.startswith(("logger", "typer.echo", "warnings", "console", "logging", "print", "click")) or s.endswith("warn")
    return False

def sites(tree):
    out = []
    def walk(n, infn):
        if skip(n): return
        if isinstance(n, FUN): infn = n.name
        if infn:
            if isinstance(n, ast.Compare) and len(n.ops) == 1:
                for o in CMP.get(type(n.ops[0]), []): out.append((n, "cmp", o))
            if isinstance(n, ast.BoolOp): out.extend([(n, "boolop", None)] + [(n, "drop", i) for i in range(len(n.values))])
            if isinstance(n, (ast.If, ast.While, ast.IfExp)): out.append((n, "negate", None)); out.append((n, "true", None)); out.append((n, "false", None))
            if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not): out.append((n, "unnot", None))
            if isinstance(n, ast.Constant) and n.value is not None and not isinstance(n.value, (bytes, type(...))) and not (isinstance(n.value, str) and (" " in n.value or not n.value)): out.append((n, "const", None))
            if isinstance(n, ast.Call) and len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args) and ast.unparse(n.func) not in ("isinstance", "hasattr"): out.append((n, "args", None))
            if isinstance(n, ast.Call) and n.keywords: out.extend([(n, "dropkw", i) for i in range(len(n.keywords)) if n.keywords[i].arg])
            if isinstance(n, ast.Attribute) and n.attr in SWAP and isinstance(n.ctx, ast.Load): out.append((n, "attr", None))
            if isinstance(n, ast.BinOp): out.append((n, "binop", None))
            if isinstance(n, (ast.Break, ast.Continue)): out.append((n, "jump", None))
            if isinstance(n, ast.Return) and n.value is not None and not isinstance(n.value, ast.Constant): out.append((n, "retnone", None))
            if isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Delete)) and not (isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name)): out.append((n, "delete", None))
            if isinstance(n, ast.For): out.append((n, "once", None))
            if isinstance(n, (ast.List, ast.Tuple)) and len(n.elts) > 1 and isinstance(n.ctx, ast.Load): out.extend([(n, "dropelt", i) for i in range(len(n.elts))])
            if isinstance(n, ast.comprehension) and n.ifs: out.append((n, "noif", None))
        for f, v in ast.iter_fields(n):
            if f in ("decorator_list", "returns", "annotation", "args") and isinstance(n, FUN + (ast.AnnAssign, ast.arg)): continue
            if isinstance(n, ast.JoinedStr): continue
            for c in v if isinstance(v, list) else [v]:
                if isinstance(c, ast.AST): walk(c, infn)
    walk(tree, None)
    return out

def mutate(n, kind, x):
    if kind == "cmp": n.ops = [x()]
    elif kind == "boolop": n.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
    elif kind == "drop": del n.values[x]; (n.values.append(n.values[0]) if len(n.values) == 1 else None)
    elif kind == "negate": n.test = ast.UnaryOp(ast.Not(), n.test)
    elif kind == "true": n.test = ast.BoolOp(ast.Or(), [n.test, ast.Constant(True)])
    elif kind == "false": n.test = ast.BoolOp(ast.And(), [n.test, ast.Constant(False)])
    elif kind == "unnot": n.op = ast.UAdd(); n.op = ast.Not(); n.operand = ast.UnaryOp(ast.Not(), n.operand)
    elif kind == "const":
        v = n.value
        n.value = (not v) if isinstance(v, bool) else v + 1 if isinstance(v, (int, float)) else v + "x"
    elif kind == "args": n.args[0], n.args[1] = n.args[1], n.args[0]
    elif kind == "dropkw": del n.keywords[x]
    elif kind == "attr": n.attr = SWAP[n.attr]
    elif kind == "binop": n.op = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult}.get(type(n.op), ast.Add)()
    elif kind == "retnone": n.value = ast.Constant(None)
    elif kind == "once": n.body.append(ast.Break())
    elif kind == "dropelt": del n.elts[x]
    elif kind == "noif": n.ifs = []

def variants(path):
    src = open(path).read()
    k = len(sites(ast.parse(src)))
    return k

def make(path, idx):
    src = open(path).read()
    tree = ast.parse(src)
    n, kind, x = sites(tree)[idx]
    line = getattr(n, "lineno", 0)
    if kind in ("delete", "jump"):
        class T(ast.NodeTransformer):
            def visit(self, m):
                if m is n: return ast.copy_location(ast.Pass() if kind == "delete" else (ast.Continue() if isinstance(m, ast.Break) else ast.Break()), m)
                return self.generic_visit(m)
        tree = T().visit(tree)
    else: mutate(n, kind, x)
    a, b = ast.unparse(ast.parse(src)), ast.unparse(ast.fix_missing_locations(tree))
    return a, b, kind, line

def main():
    seed, count, suf = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3:]
    props = [json.loads(l) for l in open(ROOT + "/properties.jsonl")]
    ids = [c["property"] for c in json.load(open(ROOT + "/MANIFEST.json"))["checks"]]
    files = {p["id"]: p["anchors"]["files"] for p in props}
    pool = []
    for d, _, fs in os.walk("/repo/causy"):
        for f in fs:
            p = os.path.join(d, f)
            if f.endswith(".py") and (not suf or any(p.endswith(s) for s in suf)): pool += [(p, i) for i in range(variants(p))]
    pool.sort()
    random.Random(seed).shuffle(pool)
    print(len(pool), "mutants", flush=True)
    stat = {"caught": 0, "missed": 0, "broken": 0}
    def one(m):
        p, i = m
        a, b, kind, line = make(p, i)
        if a == b: return
        w = tempfile.mkdtemp(prefix="mutt_")
        try:
            shutil.copytree(os.environ.get("SRC", "/repo") + "/causy", w + "/causy", ignore=shutil.ignore_patterns("__pycache__", "static"))
            rel = os.path.relpath(p, "/repo")
            open(os.path.join(w, rel), "w").write(b + "\n")
            und = []
            for c in sorted(ids, key=lambda c: rel not in files[c]):
                r = subprocess.run([sys.executable, ROOT + "/check.py", c, "quick"], env=dict(os.environ, SA_REPO=w, SA_EVIDENCE=w + "/ev"), capture_output=True, text=True)
                if r.returncode == 1:
                    stat["caught"] += 1
                    return
                if r.returncode not in (0, 1): und.append("%s=%d" % (c, r.returncode))
                if "UNDECIDED" in r.stdout: und.append(c)
            stat["missed"] += 1
            d = [l for l in difflib.unified_diff(a.splitlines(), b.splitlines(), lineterm="", n=2)][2:]
            print("MISSED %s:%d %s undecided=%s\n" % (rel, line, kind, und) + "\n".join("    " + x[:170] for x in d), flush=True)
        finally:
            shutil.rmtree(w)
    with ThreadPoolExecutor(8) as ex: list(ex.map(one, pool[:count]))
    print(stat)
main()
