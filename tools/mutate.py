"""Development tool (not a check): automatic mutants of /repo's source, to find what no check notices.

  mutate.py FILE [-n N] [-s SEED] [-j J] [--props C01,C02]   prints the mutants that survive
A mutant is one AST edit; it is tried against one shard (1/8 of the quick budget) of each property in turn, then,
if it survives, against the full quick budget of the first few properties.
"""
import ast, copy, concurrent.futures as cf, json, os, random, shutil, subprocess, sys, tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"
ALL = ["C%02d" % i for i in range(1, 27)]
FIRST = {
    "causy/graph.py": "C01 C02 C03 C04 C05 C13 C11 C10 C06",
    "causy/graph_utils.py": "C21 C18 C22 C13 C09 C20 C14",
    "causy/graph_model.py": "C13 C15 C14 C20 C16 C09 C17 C08",
    "causy/generators.py": "C06 C17 C08 C09 C15 C18",
    "causy/causal_discovery/constraint/independence_tests/common.py": "C07 C08 C17 C09",
    "causy/causal_discovery/constraint/orientation_rules/pc.py": "C10 C11 C14 C09",
    "causy/causal_discovery/constraint/orientation_rules/fci.py": "C11 C10",
    "causy/causal_discovery/constraint/algorithms/pc.py": "C09 C08 C18 C20 C17",
    "causy/causal_effect_estimation/multivariate_regression.py": "C12 C17",
    "causy/common_pipeline_steps/logic.py": "C13 C15 C14 C18 C10",
    "causy/common_pipeline_steps/exit_conditions.py": "C13 C10 C09",
    "causy/common_pipeline_steps/calculation.py": "C07 C12 C17",
    "causy/common_pipeline_steps/placeholder.py": "C18 C13",
    "causy/data_loader.py": "C16 C21 C22",
    "causy/edge_types.py": "C13 C19 C01 C09 C11",
    "causy/interfaces.py": "C19 C18 C01 C13 C20 C15",
    "causy/math_utils.py": "C06 C07 C18 C09",
    "causy/models.py": "C18 C19 C20 C21 C22",
    "causy/serialization.py": "C18 C19 C23 C20 C21",
    "causy/variables.py": "C20 C18 C21",
    "causy/sample_generator.py": "C24",
    "causy/ui/server.py": "C25",
    "causy/cli.py": "C19 C18 C23",
    "causy/workspaces/cli.py": "C22 C21 C26 C20",
    "causy/workspaces/models.py": "C22 C21 C25",
}
CMP = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt,
       ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult}


def mutants(src):
    tree = ast.parse(src)
    sites = []
    for node in ast.walk(tree):
        for field, val in ast.iter_fields(node):
            if isinstance(val, list) and val and all(isinstance(x, ast.stmt) for x in val) and not isinstance(node, (ast.Module, ast.ClassDef)):
                for i, x in enumerate(val):
                    if isinstance(x, (ast.Import, ast.ImportFrom, ast.FunctionDef, ast.ClassDef, ast.Pass)):
                        continue
                    if isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant):
                        continue
                    if isinstance(x, ast.Expr) and ast.unparse(x).startswith(("logger", "logging", "typer.echo", "print", "warnings")):
                        continue
                    sites.append(("del", x.lineno, node, field, i))
        if isinstance(node, ast.Compare) and type(node.ops[0]) in CMP:
            sites.append(("cmp", node.lineno, node, None, None))
        if isinstance(node, ast.BoolOp):
            sites.append(("boolop", node.lineno, node, None, None))
            for i in range(len(node.values)):
                sites.append(("dropcond", node.lineno, node, None, i))
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            sites.append(("not", node.lineno, node, None, None))
        if isinstance(node, ast.BinOp) and type(node.op) in BIN:
            sites.append(("bin", node.lineno, node, None, None))
        if isinstance(node, ast.Constant) and isinstance(node.value, bool):
            sites.append(("bool", node.lineno, node, None, None))
        elif isinstance(node, ast.Constant) and isinstance(node.value, (int, float)):
            sites.append(("num", node.lineno, node, None, None))
        if isinstance(node, ast.If):
            sites.append(("iftrue", node.lineno, node, None, True))
            sites.append(("iffalse", node.lineno, node, None, False))
        if isinstance(node, ast.Call) and len(node.args) >= 2 and not any(isinstance(a, ast.Starred) for a in node.args):
            sites.append(("swap", node.lineno, node, None, None))
        if isinstance(node, ast.Call) and node.keywords:
            for i, k in enumerate(node.keywords):
                if k.arg not in ("help", "prompt", "default"):
                    sites.append(("dropkw", node.lineno, node, None, i))
        if isinstance(node, (ast.Break, ast.Continue)):
            sites.append(("brk", node.lineno, node, None, None))
    memo = {id(n): k for k, n in enumerate(ast.walk(tree))}
    for kind, line, node, field, i in sites:
        t2 = copy.deepcopy(tree)
        m = list(ast.walk(t2))[memo[id(node)]]
        before = ast.unparse(m).splitlines()[0][:110]
        if kind == "del":
            before = ast.unparse(getattr(m, field)[i]).splitlines()[0][:110]
            getattr(m, field)[i] = ast.Pass()
        elif kind == "cmp":
            m.ops[0] = CMP[type(m.ops[0])]()
        elif kind == "boolop":
            m.op = ast.Or() if isinstance(m.op, ast.And) else ast.And()
        elif kind == "dropcond":
            m.values[i] = ast.Constant(isinstance(m.op, ast.And))
        elif kind == "not":
            m.op = ast.Not()
            m.operand = ast.UnaryOp(ast.Not(), m.operand)
        elif kind == "bin":
            m.op = BIN[type(m.op)]()
        elif kind == "bool":
            m.value = not m.value
        elif kind == "num":
            m.value = m.value + 1
        elif kind in ("iftrue", "iffalse"):
            m.test = ast.Constant(i)
        elif kind == "swap":
            m.args[0], m.args[1] = m.args[1], m.args[0]
        elif kind == "dropkw":
            before += " [" + m.keywords[i].arg.__repr__() + "]"
            del m.keywords[i]
        elif kind == "brk":
            continue
        ast.fix_missing_locations(t2)
        try:
            yield kind, line, before, ast.unparse(t2)
        except Exception:
            pass


def attempt(args):
    f, kind, line, before, text, props = args
    tmp = tempfile.mkdtemp(prefix="mut_")
    try:
        repo, ver = tmp + "/repo", tmp + "/verif"
        os.makedirs(repo)
        subprocess.run(f"git -C {R} archive HEAD | tar x -C {repo}; mkdir {ver}; cp -a {V}/vf {V}/corpus {V}/run.sh {V}/setup.sh {V}/known_findings.json {ver}/; ln -s {V}/.deps {ver}/.deps; mkdir {ver}/evidence {ver}/replays", shell=True)
        open(f"{repo}/{f}", "w").write(text)
        env = dict(os.environ, VERIF_REPO=repo, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", NO_COLOR="1", TMPDIR=tmp,
                   OMP_NUM_THREADS="1", PYTHONPATH=f"{repo}:{ver}:{V}/.deps", HYPOTHESIS_STORAGE_DIRECTORY="/nonexistent")
        r = subprocess.run(["/opt/venv/bin/python", "-c", "import causy.causal_discovery.constraint.algorithms, causy.workspaces.cli, causy.ui.server"], cwd=ver, env=env, capture_output=True)
        if r.returncode:
            return ("stillborn", kind, line, before, "")
        for p in props:
            out = f"{tmp}/o.json"
            try:
                r = subprocess.run(["/opt/venv/bin/python", "-W", "ignore", "-m", "vf.main", "--worker", p, "quick", "1", "0", "8", out], cwd=ver, env=env, capture_output=True, timeout=300)
            except subprocess.TimeoutExpired:
                return ("timeout", kind, line, before, p)
            try:
                d = json.load(open(out))
            except Exception:
                return ("crash", kind, line, before, p)
            if d.get("failure"):
                return ("killed" if d["failure"].get("status") == "violation" else "HARNESS", kind, line, before, p + " " + str(d["failure"].get("message"))[:80])
        return ("SURVIVED", kind, line, before, "")
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    a = sys.argv[1:]
    opt = lambda k, d: a[a.index(k) + 1] if k in a else d
    f = a[0]
    props = opt("--props", None)
    props = props.split(",") if props else FIRST.get(f, " ".join(ALL)).split()
    ms = list(mutants(open(f"{R}/{f}").read()))
    rng = random.Random(int(opt("-s", "1")))
    n = int(opt("-n", "60"))
    if len(ms) > n:
        ms = rng.sample(ms, n)
    ms.sort(key=lambda m: m[1])
    cnt = {}
    with cf.ThreadPoolExecutor(int(opt("-j", "8"))) as ex:
        for r in ex.map(attempt, [(f, *m, props) for m in ms]):
            cnt[r[0]] = cnt.get(r[0], 0) + 1
            if r[0] not in ("killed", "stillborn", "timeout") or "-v" in a:
                print(*r, flush=True)
    print(f, cnt, flush=True)
