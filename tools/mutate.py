"""Mutation campaign over /repo/src, to find what the checks miss.  Not registered, works on scratch copies.

  mutate.py list                        the mutants
  mutate.py tests OUT [N] [SALT]        which of N sampled mutants pass the unit tests
  mutate.py checks IN OUT [IDS]         which of these survivors the checks report
"""
import ast, hashlib, json, multiprocessing, os, random, shutil, subprocess, sys, tempfile

SRC = os.environ.get("MUT_SRC", "/repo/src")
PY = "/opt/venv/bin/python"
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SKIP = {"dependencies_from_model.py", "__init__.py", "identifiable.py"}
SWAP = dict(origin="destination", destination="origin", loading="unloading", unloading="loading", START="STOP", STOP="START",
            WAIT_START="WAIT_STOP", WAIT_STOP="WAIT_START", get="put", put="get", min="max", max="min", any="all", all="any",
            start_time="end_time", end_time="start_time", capacity="level", pre_process="post_process", mover="destination")
CHECKS = {  # file -> checks in the order in which they are tried
    "core/container.py": "C01 C02 C04 C03 C11", "core/events_container.py": "C04 C01 C02 C17 C16 C03 C20",
    "core/locatable.py": "C08 C07 C11 C02", "core/log.py": "C11 C10 C31 C29 C30", "core/movable.py": "C07 C32 C11 C05",
    "core/processor.py": "C01 C08 C09 C11 C03 C02", "core/resource.py": "C05 C06 C20", "core/simpy_object.py": "C10",
    "io.py": "C29 C30", "utils.py": "C31 C07", "model/base_activities.py": "C10 C17 C06 C05 C24 C13 C14 C18 C20 C23 C22 C26",
    "model/basic_activity.py": "C12 C10 C11 C24 C26", "model/helpers.py": "C18 C21 C15 C10", "model/move_activity.py": "C07 C10 C24 C05 C06 C20 C26",
    "model/parallel_activity.py": "C14 C10 C24 C18", "model/sequential_activity.py": "C13 C10 C24 C18",
    "model/shift_amount_activity.py": "C01 C02 C03 C08 C09 C10 C24 C05 C06 C20 C26 C17", "model/single_run_process.py": "C19",
    "model/while_activity.py": "C16 C15 C10 C24 C17 C18", "plot/log_dataframe.py": "C31 C30 C25", "plot/step_chart.py": "C31",
    "plot/vessel_planning.py": "C31", "plugins/delay.py": "C23", "plugins/weather.py": "C22",
    "critical_path/base_cp.py": "C25 C27", "critical_path/simulation_graph.py": "C27",
    "critical_path/dependencies_from_recorded_activities.py": "C26 C27", "critical_path/dependencies_from_simpy_step.py": "C28 C26 C27",
}


def mutants():
    for d, _, fs in sorted(os.walk(os.path.join(SRC, "openclsim"))):
        for f in sorted(fs):
            if not f.endswith(".py") or f in SKIP:
                continue
            path = os.path.join(d, f)
            text = open(path).read()
            starts = [0]
            for line in text.splitlines(True):
                starts.append(starts[-1] + len(line))
            tree = ast.parse(text)
            seen = set()
            for a, b, new, kind, line in muts(tree, text, starts):
                if (a, b, new) in seen or text[a:b] == new:
                    continue
                seen.add((a, b, new))
                rel = os.path.relpath(path, os.path.join(SRC, "openclsim"))
                yield dict(file=rel, a=a, b=b, old=text[a:b], new=new, kind=kind, line=line,
                           id=hashlib.md5(f"{rel}:{text[a-40:a]}:{text[a:b]}:{new}".encode()).hexdigest()[:8])


def muts(tree, text, starts):
    def pos(n):
        return starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset

    CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.In: "not in",
           ast.NotIn: "in", ast.Is: "is not", ast.IsNot: "is"}
    BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*"}
    doc = {id(n.body[0]) for n in ast.walk(tree) if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body}
    for n in ast.walk(tree):
        ln = getattr(n, "lineno", 0)
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            a, b = pos(n.left)[1], pos(n.comparators[0])[0]
            yield a, b, f" {CMP[type(n.ops[0])]} ", "compare", ln
        elif isinstance(n, ast.BoolOp):
            a, b = pos(n.values[0])[1], pos(n.values[1])[0]
            seg = text[a:b]
            w = "and" if isinstance(n.op, ast.And) else "or"
            yield a, b, seg.replace(w, "or" if w == "and" else "and", 1), "bool", ln
            for v in n.values:
                yield *pos(v), "True" if w == "and" else "False", "drop operand", ln
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            a, b = pos(n.left)[1], pos(n.right)[0]
            seg = text[a:b]
            o = {"-": "+", "+": "-", "/": "*", "*": "/"}[BIN[type(n.op)]]
            yield a, b, seg.replace(o, BIN[type(n.op)], 1), "arith", ln
        elif isinstance(n, ast.Constant) and not isinstance(n.value, str) and n.value is not None:
            a, b = pos(n)
            if isinstance(n.value, bool):
                yield a, b, str(not n.value), "const", ln
            elif isinstance(n.value, (int, float)):
                yield a, b, repr(n.value + 1), "const", ln
                if n.value:
                    yield a, b, "0", "const", ln
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            a, b = pos(n)
            yield a, b, text[slice(*pos(n.operand))], "unary", ln
        elif isinstance(n, (ast.If, ast.IfExp, ast.While)):
            a, b = pos(n.test)
            yield a, b, "False", "cond", ln
            if not isinstance(n, ast.While):
                yield a, b, "True", "cond", ln
        elif isinstance(n, ast.Attribute) and n.attr in SWAP:
            b = pos(n)[1]
            yield b - len(n.attr), b, SWAP[n.attr], "name", ln
        elif isinstance(n, ast.Name) and n.id in SWAP and isinstance(n.ctx, ast.Load):
            yield *pos(n), SWAP[n.id], "name", ln
        elif isinstance(n, ast.keyword) and n.arg and not isinstance(n.value, ast.Constant):
            pass
        elif isinstance(n, ast.Call) and len(n.args) == 2 and not n.keywords:
            a, b = pos(n.args[0]), pos(n.args[1])
            yield a[0], b[1], text[slice(*b)] + text[a[1]:b[0]] + text[slice(*a)], "swap args", ln
        if isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Return, ast.Continue, ast.Break)) and id(n) not in doc:
            if isinstance(n, ast.Return) and n.value is None:
                continue
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
                continue
            yield *pos(n), "pass", "drop", ln
        if isinstance(n, ast.Raise):
            yield *pos(n), "pass", "drop", ln


def place(m):
    d = tempfile.mkdtemp(prefix="mut", dir="/tmp/mut")
    shutil.copytree(SRC, d + "/src", ignore=shutil.ignore_patterns("__pycache__"))
    p = os.path.join(d, "src/openclsim", m["file"])
    s = open(p).read()
    near = [i for i in range(len(s)) if s.startswith(m["old"], i)]
    if not near:
        shutil.rmtree(d)
        return None
    a = m["a"] if s[m["a"]: m["b"]] == m["old"] else min(near, key=lambda i: abs(i - m["a"]))
    s = s[:a] + m["new"] + s[a + len(m["old"]):]
    try:
        compile(s, p, "exec")
    except SyntaxError:
        shutil.rmtree(d)
        return None
    open(p, "w").write(s)
    return d


def test(m):
    d = place(m)
    if d is None:
        return m, "syntax"
    env = dict(os.environ, PYTHONPATH=d + "/src", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg",
               PROJ_NETWORK="OFF", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
    try:
        r = subprocess.run([PY, "-m", "pytest", "/repo/tests", "-q", "-x", "-p", "no:cacheprovider", "-o", "addopts=", "-W", "ignore",
                            "--timeout=60", "-p", "no:xdist"], cwd=d, env=env, capture_output=True, text=True, timeout=150)
        out = "survived" if r.returncode == 0 else "killed"
    except subprocess.TimeoutExpired:
        out = "killed"
    shutil.rmtree(d)
    return m, out


def check(m):
    d = place(m)
    if d is None:
        return dict(m, res="gone", by=None)
    env = dict(os.environ, OCS_REPO_SRC=d + "/src", OCS_PROCS="2", PYTHONHASHSEED="0", VERIF_SEED=os.environ.get("VERIF_SEED", "1"))
    env["OCS_EVIDENCE"] = d + "/evidence"
    res, by = "missed", None
    for stride in os.environ.get("OCS_STRIDES", "10 1").split():  # a tenth of the jobs of all checks first
        for c in CHECKS.get(m["file"], "").split():
            try:
                r = subprocess.run([PY, os.path.join(ROOT, "check.py"), c, "--tier", "quick"], env=dict(env, OCS_STRIDE=stride, OCS_STOP="1"),
                                   capture_output=True, text=True, timeout=900)
            except subprocess.TimeoutExpired:
                res, by = "timeout", c
                break
            if r.returncode == 1 or (r.returncode != 0 and stride == "1"):
                res, by = ("caught" if r.returncode == 1 else f"exit {r.returncode}"), c + ": " + " ".join(r.stdout.split("\n")[1:2])[:200]
                if r.returncode == 1:
                    break
        if res in ("caught", "timeout"):
            break
    shutil.rmtree(d)
    return dict(m, res=res, by=by)


if __name__ == "__main__":
    os.makedirs("/tmp/mut", exist_ok=True)
    if sys.argv[1] == "list":
        ms = list(mutants())
        print(len(ms))
    elif sys.argv[1] == "tests":
        ms = list(mutants())
        random.Random(sys.argv[4] if len(sys.argv) > 4 else "1").shuffle(ms)
        n = int(sys.argv[3]) if len(sys.argv) > 3 else len(ms)
        with multiprocessing.Pool(8) as p, open(sys.argv[2], "w") as f:
            for m, o in p.imap_unordered(test, ms[:n]):
                if o == "survived":
                    f.write(json.dumps(m) + "\n")
                    f.flush()
    else:
        ms = [json.loads(x) for x in open(sys.argv[2])]
        if len(sys.argv) > 4:
            ms = [m for m in ms if m["id"] in sys.argv[4].split(",")]
        with multiprocessing.Pool(4) as p, open(sys.argv[3], "w") as f:
            for m in p.imap_unordered(check, ms):
                f.write(json.dumps(m) + "\n")
                f.flush()
