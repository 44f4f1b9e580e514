#!/usr/bin/env python3
"""Systematic mutants of the library, to find what the checks do not see (development tool).

usage: tools/mutate.py OUT.json [--file SUBSTR] [--runs N] [--jobs N] [--seed N] [--props C01,C02] [--only ID ...]

Each mutant is one small change (operator, constant, condition, dropped statement, swapped argument)
in a scratch copy of /repo. For each, N traces of every property are executed until one shows a
mismatch. Survivors are listed for reading; many are equivalent.
"""
import ast, copy, json, os, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILES = ["core/states.py", "core/controller.py", "core/viewer.py", "core/tensoreditor.py", "core/builder.py", "core/utils.py",
         "core/immutable.py", "layers/act.py", "layers/core.py", "frameworks/flax.py"]
SWAP = {ast.Gt: [ast.GtE, ast.Lt], ast.Lt: [ast.LtE, ast.Gt], ast.GtE: [ast.Gt], ast.LtE: [ast.Lt], ast.Eq: [ast.NotEq],
        ast.NotEq: [ast.Eq], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Add, ast.Div: ast.Mult, ast.BitAnd: ast.BitOr, ast.BitOr: ast.BitAnd}
FAMILIES = [("probabilities", "residuals", "iterations"), ("accumulators", "defaults", "updates")]


def sites(tree):
    """yield (line, description, apply) where apply mutates the (fresh) tree's node in place"""
    def walk(node, infn, path):
        for field, value in ast.iter_fields(node):
            if field in ("annotation", "returns", "decorator_list", "type_comment"):
                continue
            items = value if isinstance(value, list) else [value]
            for i, child in enumerate(items):
                if not isinstance(child, ast.AST):
                    continue
                p = path + [(field, i if isinstance(value, list) else None)]
                inside = infn or isinstance(node, (ast.FunctionDef, ast.Lambda)) and field == "body"
                if inside:
                    yield from variants(child, p, value if isinstance(value, list) else None, i)
                yield from walk(child, inside, p)

    def variants(n, p, siblings, i):
        line = getattr(n, "lineno", 0)

        def put(new):
            return lambda root: replace(root, p, new)
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for o in SWAP.get(type(n.ops[0]), []):
                m = copy.deepcopy(n)
                m.ops = [o()]
                yield line, "compare -> " + o.__name__, put(m)
        if isinstance(n, ast.BinOp) and type(n.op) in BIN:
            m = copy.deepcopy(n)
            m.op = BIN[type(n.op)]()
            yield line, "binop -> " + type(m.op).__name__, put(m)
        if isinstance(n, ast.BoolOp):
            m = copy.deepcopy(n)
            m.op = ast.And() if isinstance(n.op, ast.Or) else ast.Or()
            yield line, "boolop", put(m)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Invert, ast.Not)):
            yield line, "drop " + type(n.op).__name__, put(n.operand)
        if isinstance(n, ast.Constant) and not isinstance(n.value, str) and n.value is not None and n.value is not Ellipsis:
            v = n.value
            for w in ([not v] if isinstance(v, bool) else [v + 1] if v == 0 else [0 if isinstance(v, int) else 0.0, v + 1]):
                yield line, "constant %r -> %r" % (v, w), put(ast.Constant(w))
        if isinstance(n, ast.If):
            for c in (True, False):
                m = copy.deepcopy(n)
                m.test = ast.Constant(c)
                yield line, "if -> %s" % c, put(m)
        if isinstance(n, ast.IfExp):
            yield line, "ifexp -> body", put(n.body)
            yield line, "ifexp -> else", put(n.orelse)
        if isinstance(n, (ast.Raise, ast.Expr, ast.Assert)) and not (
                isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
            yield line, "drop statement", put(ast.Pass())
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Subscript, ast.Attribute)):
            yield line, "drop assignment", put(ast.Pass())
        if isinstance(n, ast.AugAssign):
            yield line, "drop augassign", put(ast.Pass())
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
            names = [x.id for x in ast.walk(n.value) if isinstance(x, ast.Name)]
            if n.targets[0].id in names:
                yield line, "drop rebinding of " + n.targets[0].id, put(ast.Pass())
        if isinstance(n, ast.Call):
            if isinstance(n.func, ast.Attribute) and n.func.attr in ("copy", "astype") and len(n.args) <= 1:
                yield line, "drop ." + n.func.attr, put(n.func.value)
            for k in range(len(n.keywords)):
                m = copy.deepcopy(n)
                name = m.keywords.pop(k).arg
                yield line, "drop keyword %s" % name, put(m)
            fname = n.func.attr if isinstance(n.func, ast.Attribute) else getattr(n.func, "id", "")
            if fname in ("isinstance", "format_error_message"):
                return
            if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
                m = copy.deepcopy(n)
                m.args[-1], m.args[-2] = m.args[-2], m.args[-1]
                yield line, "swap last arguments of " + fname, put(m)
            if len(n.args) == 1 and fname not in ("len", "str", "type", "range", "getattr") and \
                    not isinstance(n.args[0], (ast.Starred, ast.GeneratorExp)):
                yield line, "call %s(x) -> x" % fname, put(n.args[0])
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
            for fam in FAMILIES:
                if n.attr in fam:
                    m = copy.deepcopy(n)
                    m.attr = fam[(fam.index(n.attr) + 1) % 3]
                    yield line, "%s -> %s" % (n.attr, m.attr), put(m)
        if isinstance(n, (ast.Break, ast.Continue)):
            yield line, "drop " + type(n).__name__, put(ast.Pass())
    yield from walk(tree, False, [])


def replace(root, path, new):
    node = root
    for field, i in path[:-1]:
        node = getattr(node, field)
        if i is not None:
            node = node[i]
    field, i = path[-1]
    if i is None:
        setattr(node, field, new)
    else:
        getattr(node, field)[i] = new


def mutants(only):
    out = []
    for f in FILES:
        if only and only not in f:
            continue
        src = open("/repo/src/jax_act/" + f).read()
        tree = ast.parse(src)
        n = 0
        for line, what, apply in sites(tree):
            root = copy.deepcopy(tree)
            apply(root)
            try:
                text = ast.unparse(ast.fix_missing_locations(root))
                compile(text, f, "exec")
            except Exception:
                continue
            n += 1
            out.append(("%s#%d" % (f, n), f, line, what, src.splitlines()[line - 1].strip(), text))
    return out


WORK = '''
import sys, json, random
sys.path.insert(0, %r)
sys.argv[0] = "x"
runs, seed = int(sys.argv[1]), int(sys.argv[2])
try:
    from dst import boot, known, props, run, runner, session
except SystemExit as e:
    raise
except BaseException as e:
    print(json.dumps(["import", type(e).__name__])); raise SystemExit
S = {p: session.Session(seed, p, 0, "quick") for p in runner.CLAIMED}
K = {p: known.load(p) for p in runner.CLAIMED}
order = sys.argv[3].split(",") if len(sys.argv) > 3 and sys.argv[3] else list(runner.CLAIMED)
for i in range(runs):
    for p in order:
        try:
            res, hits, kn = props.evaluate(p, S[p].trace(i), K[p])
        except BaseException as e:
            print(json.dumps([p, "harness " + type(e).__name__ + str(e)[:200]])); raise SystemExit
        if hits:
            print(json.dumps([p, repr(hits[0][1])[:160]])); raise SystemExit
print(json.dumps(None))
''' % ROOT


def main():
    a = sys.argv[1:]
    out = a.pop(0)
    opt = {"--file": "", "--runs": "6", "--jobs": "8", "--seed": "3", "--props": ""}
    only = None
    while a:
        k = a.pop(0)
        if k == "--only":
            only, a = a, []
        else:
            opt[k] = a.pop(0)
    todo = [m for m in mutants(opt["--file"]) if only is None or m[0] in only]
    print(len(todo), "mutants", flush=True)
    base = tempfile.mkdtemp(prefix="dst-mut-")
    results = []

    def one(m):
        ident, f, line, what, text, code = m
        d = tempfile.mkdtemp(dir=base)
        shutil.copytree("/repo/src", d + "/src", ignore=shutil.ignore_patterns("__pycache__"))
        open(d + "/src/jax_act/" + f, "w").write(code)
        t = time.time()
        try:
            r = subprocess.run(["/opt/venv/bin/python", "-B", "-c", WORK, opt["--runs"], opt["--seed"], opt["--props"]], capture_output=True, text=True,
                               timeout=900, cwd=ROOT, env=dict(os.environ, DST_REPO=d, JAX_PLATFORMS="cpu", PYTHONHASHSEED="5"))
            lines = [l for l in r.stdout.splitlines() if l.startswith(("[", "null"))]
            how = json.loads(lines[-1]) if lines else ["crash", r.stderr[-300:]]
        except subprocess.TimeoutExpired:
            how = ["timeout", ""]
        shutil.rmtree(d, ignore_errors=True)
        rec = dict(id=ident, line=line, what=what, text=text, killed=how, t=round(time.time() - t))
        results.append(rec)
        if how is None or how[0] in ("crash", "timeout") or how[1].startswith("harness"):
            print(ident, "line", line, what, "|", text[:90], "|", "SURVIVED" if how is None else how, rec["t"], flush=True)
        json.dump(results, open(out, "w"))
    with ThreadPoolExecutor(int(opt["--jobs"])) as ex:
        list(ex.map(one, todo))
    shutil.rmtree(base, ignore_errors=True)
    print("killed", sum(r["killed"] is not None for r in results), "of", len(results))


main()
