"""mutants.py gen N SEED | test | eval : mutation campaign on scratch copies (self-test of the checks; not registered).
State in /tmp/mu/*.json"""
import ast, sys, os, json, random, shutil, subprocess, glob
from concurrent.futures import ThreadPoolExecutor
D = "/tmp/mu"; REPO = "/repo"; PY = "/opt/venv/bin/python"
SWAP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.In: "not in", ast.NotIn: "in"}


def mutants(path):
    src = open(path).read(); tree = ast.parse(src); lines = src.split("\n"); out = []
    off = [0]
    for l in lines: off.append(off[-1] + len(l) + 1)
    pos = lambda ln, c: off[ln - 1] + c
    seg = lambda n: src[pos(n.lineno, n.col_offset):pos(n.end_lineno, n.end_col_offset)]
    def rep(n, new, what): out.append((pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset), new, what, n.lineno))
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == "logger":
            for x in ast.walk(n): skip.add(id(x))
        if isinstance(n, ast.Raise):
            for x in ast.walk(n): skip.add(id(x))
        if isinstance(n, ast.arguments):
            for x in ast.walk(n): skip.add(id(x))
    for n in ast.walk(tree):
        if id(n) in skip: continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in SWAP:
            rep(n, "%s %s %s" % (seg(n.left), SWAP[type(n.ops[0])], seg(n.comparators[0])), "cmp")
        elif isinstance(n, ast.BoolOp):
            for i in range(len(n.values)):
                vs = [seg(v) for j, v in enumerate(n.values) if j != i]; rep(n, "(" + (" and " if isinstance(n.op, ast.And) else " or ").join(vs) + ")", "dropcond")
            rep(n, "(" + (" or " if isinstance(n.op, ast.And) else " and ").join("(%s)" % seg(v) for v in n.values) + ")", "andor")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not): rep(n, "(" + seg(n.operand) + ")", "not")
        elif isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)) and not isinstance(n.left, ast.Constant) or isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)) and not isinstance(n.left.value, str):
            rep(n, "%s %s %s" % (seg(n.left), "-" if isinstance(n.op, ast.Add) else "+", seg(n.right)), "arith")
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool): rep(n, str(not n.value), "bool")
        elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float)): rep(n, repr(n.value + 1), "const")
        elif isinstance(n, ast.If): rep(n.test, "True", "iftrue"); rep(n.test, "False", "iffalse")
        elif isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign)) and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)): rep(n, "pass", "drop")
        elif isinstance(n, ast.Break): rep(n, "pass", "nobreak")
        elif isinstance(n, ast.Continue): rep(n, "pass", "nocontinue")
        elif isinstance(n, ast.Constant) and n.value in ("Source", "Sink"): rep(n, '"Sink"' if n.value == "Source" else '"Source"', "depot")
        elif isinstance(n, ast.Name) and n.id in ("min", "max"): rep(n, "max" if n.id == "min" else "min", "minmax")
        elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Constant) and n.slice.value in ("demand", "lower", "collect"): rep(n.slice, {"demand": '"collect"', "lower": '"upper"', "collect": '"demand"'}[n.slice.value], "attr")
    return src, out


def gen(N, seed):
    rnd = random.Random(seed); k = len(glob.glob(D + "/m*.json"))
    w = {"vrp.py": 30, "master_solve_pulp.py": 14, "subproblem_lp.py": 14, "subproblem_cspy.py": 14, "subproblem_greedy.py": 8, "subproblem.py": 8, "clarke_wright.py": 8, "greedy.py": 5, "checks.py": 8, "schedule.py": 7, "hyper_heuristic.py": 8, "restricted_master_heuristics.py": 4, "preprocessing.py": 4, "masterproblem.py": 1}
    done = {(m["file"], m["a"], m["b"], m["new"]) for m in (json.load(open(f)) for f in glob.glob(D + "/m*.json"))}
    tot = sum(w.values())
    for f, x in w.items():
        src, ms = mutants(REPO + "/vrpy/" + f); rnd.shuffle(ms); n = 0
        for a, b, new, what, ln in ms:
            if n >= max(1, round(N * x / tot)): break
            if (f, a, b, new) in done: continue
            t = src[:a] + new + src[b:]
            try: ast.parse(t)
            except SyntaxError: continue
            fn = None
            for nd in ast.walk(ast.parse(src)):
                if isinstance(nd, ast.FunctionDef) and nd.lineno <= ln <= nd.end_lineno: fn = nd.name
            if fn is None: continue
            json.dump(dict(id="m%03d" % k, file=f, a=a, b=b, new=new, old=src[a:b], what=what, line=ln, func=fn), open(D + "/m%03d.json" % k, "w")); k += 1; n += 1


def copy(m, where):
    shutil.rmtree(where, ignore_errors=True); os.makedirs(where)
    subprocess.run("cd /repo && git archive HEAD vrpy tests benchmarks examples $(ls | grep -E '^(setup.py|setup.cfg|pytest.ini|README.md)') | tar x -C %s" % where, shell=True, check=True)
    p = where + "/vrpy/" + m["file"]; s = open(p).read(); open(p, "w").write(s[:m["a"]] + m["new"] + s[m["b"]:])


def test1(f):
    m = json.load(open(f))
    if "survives" in m: return
    w = D + "/w_" + m["id"]; copy(m, w)
    ids = [(".".join(x.split("::")[0].split(".")[:-1 if x.split("::")[0].split(".")[-1][0].isupper() else None]).replace(".", "/") + ".py" + ("::" + x.split("::")[0].split(".")[-1] if x.split("::")[0].split(".")[-1][0].isupper() else "") + "::" + x.split("::")[1]) for x in json.load(open("/opt/vp/BASELINE.json"))["stable"]]
    env = dict(os.environ, PYTHONPATH=w, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", HOME=w)
    ok = True
    for d in ("tests/", "benchmarks/"):
        sel = [i for i in ids if i.startswith(d) and not any(x in i for x in ("test_examples", "solomon.py::TestsSolomon::test_subproblem_lp"))]
        r = subprocess.run([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--rootdir=" + w, "--timeout=300", "--tb=line", "--show-capture=no", "-o", "log_cli=false"] + sel, cwd=w, env=env, capture_output=True, text=True)
        if r.returncode != 0: ok = False; m["killed_by"] = [l for l in r.stdout.split("\n") if l.startswith(("FAILED", "ERROR")) or "Error" in l][:2]; break
    m["survives"] = ok; json.dump(m, open(f, "w")); shutil.rmtree(w, ignore_errors=True)
    print(m["id"], m["file"], m["func"], m["line"], m["what"], "SURVIVES" if ok else "killed", flush=True)


if __name__ == "__main__":
    if sys.argv[1] == "gen": gen(int(sys.argv[2]), int(sys.argv[3]))
    elif sys.argv[1] == "test":
        with ThreadPoolExecutor(int(sys.argv[2]) if sys.argv[2:] else 4) as ex: list(ex.map(test1, sorted(glob.glob(D + "/m*.json"))))
    elif sys.argv[1] == "list":
        for f in sorted(glob.glob(D + "/m*.json")):
            m = json.load(open(f))
            if m.get("survives"): print(m["id"], m["file"], m["func"], m["line"], m["what"], repr(m["old"][:90]), "->", repr(m["new"][:90]), m.get("verdict", ""))
