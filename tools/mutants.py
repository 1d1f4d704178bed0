"""Mutation analysis of the checks: small changes to cheval, each in a scratch copy.

mutants.py prepare                        writes the programs of all suites to /tmp/mutants/programs.json
mutants.py run OUT.jsonl [N [SEED [FILE...]]]   tries N random mutants of the files; appends to OUT.jsonl
mutants.py show OUT.jsonl                 the survivors

A mutant that passes the repository's stable tests should be caught by a program, unless it is equivalent.
"""
import ast, json, os, random, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "harness"))
WORK = "/tmp/mutants"
FILES = ("model.py", "api.py", "core.py", "utils.py", "ldf/api.py", "ldf/missing_data.py", "parsing/ast_transformer.py",
         "parsing/expr_items.py", "parsing/expressions.py")
# The properties whose suites are tried, the likeliest first
RELEVANT = {
    "model.py": "C05 C06 C09 C10 C12 C11 C13 C08 C02 C04 C03 C01", "api.py": "C05 C12 C11 C13 C10 C09 C06 C08",
    "core.py": "C01 C02 C03 C04 C06", "utils.py": "C13 C12 C19 C06 C14", "ldf/api.py": "C14 C15 C16 C17 C18 C19 C13 C11",
    "ldf/missing_data.py": "C17 C14 C15 C16", "parsing/ast_transformer.py": "C07 C08 C19 C06 C12 C05",
    "parsing/expr_items.py": "C07 C08 C19 C12 C13", "parsing/expressions.py": "C07 C08 C19 C12"}


def prepare():
    import registry, common, explore
    suites = []

    def record(report, name, programs, jit=False, module="Trace", cfg="Trace.cfg", **kw):
        suites.append({"property": report.prop, "name": name, "jit": jit, "module": module, "cfg": cfg, "programs": programs})
    for m in (registry, explore, common) + ((sys.modules["cases"],) if "cases" in sys.modules else ()):
        if hasattr(m, "run_suite"):
            m.run_suite = record
    for p in sorted(registry.CHECKS):
        for part in registry.CHECKS[p].parts:
            r = common.Report(p)
            try:
                part(r)
            except Exception as exc:
                print(p, repr(exc))
        print(p, [(s["name"], len(s["programs"])) for s in suites if s["property"] == p], flush=True)
    os.makedirs(WORK, exist_ok=True)
    r = random.Random(5)
    for s in suites:
        r.shuffle(s["programs"])
    json.dump(suites, open(os.path.join(WORK, "programs.json"), "w"))


SWAP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is",
        ast.In: "not in", ast.NotIn: "in"}
OPS = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.FloorDiv: "*", ast.BitOr: "&", ast.BitAnd: "|", ast.Mod: "+"}


def mutants(path):
    """All mutants of a file: (line, kind, what it was, what it becomes, the new text)"""
    text = open(path).read()
    lines = text.splitlines(keepends=True)
    starts = [0]
    for l in lines:
        starts.append(starts[-1] + len(l.encode()))
    data = text.encode()
    out = []

    def at(node):
        return starts[node.lineno - 1] + node.col_offset, starts[node.end_lineno - 1] + node.end_col_offset

    def put(node, a, b, new, kind):
        out.append((node.lineno, kind, data[a:b].decode(), new, (data[:a] + new.encode() + data[b:]).decode()))

    def seg(n):
        a, b = at(n)
        return data[a:b].decode()

    def walk(node, inside):
        for child in ast.iter_child_nodes(node):
            if isinstance(child, (ast.FunctionDef, ast.ClassDef)):
                ok = isinstance(child, ast.FunctionDef)
                for x in child.body:
                    visit(x, ok or inside)
            else:
                visit(child, inside)

    def visit(n, inside):
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            return
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            for d in n.body:
                visit(d, inside or isinstance(n, ast.FunctionDef))
            if isinstance(n, ast.FunctionDef):
                for d in list(n.args.defaults) + [k for k in n.args.kw_defaults if k is not None]:
                    visit(d, True)
            return
        if not inside:
            for c in ast.iter_child_nodes(n):
                visit(c, inside)
            return
        a, b = at(n) if hasattr(n, "lineno") else (0, 0)
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in SWAP:
            put(n, a, b, "%s %s %s" % (seg(n.left), SWAP[type(n.ops[0])], seg(n.comparators[0])), "compare")
        elif isinstance(n, ast.BoolOp):
            word = " or " if isinstance(n.op, ast.And) else " and "
            put(n, a, b, "(" + word.join("(%s)" % seg(v) for v in n.values) + ")", "boolop")
            for k in range(len(n.values)):
                rest = [v for m, v in enumerate(n.values) if m != k]
                put(n, a, b, "(" + (" and " if word == " or " else " or ").join("(%s)" % seg(v) for v in rest) + ")", "dropterm")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            put(n, a, b, "(%s)" % seg(n.operand), "not")
        elif isinstance(n, ast.BinOp) and type(n.op) in OPS:
            put(n, a, b, "(%s %s %s)" % (seg(n.left), OPS[type(n.op)], seg(n.right)), "binop")
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
            put(n, a, b, str(not n.value), "bool")
        elif isinstance(n, ast.Constant) and isinstance(n.value, int):
            put(n, a, b, "%d" % (n.value + 1), "int")
            if n.value > 0:
                put(n, a, b, "%d" % (n.value - 1), "int")
        elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Delete)) or (isinstance(n, ast.Expr) and isinstance(n.value, ast.Call)):
            if not (isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name)):
                put(n, a, b, "pass", "delete")
        elif isinstance(n, (ast.Continue, ast.Break)):
            put(n, a, b, "pass", "jump")
        elif isinstance(n, ast.IfExp):
            put(n, a, b, "(%s)" % seg(n.body), "ifexp")
            put(n, a, b, "(%s)" % seg(n.orelse), "ifexp")
        if isinstance(n, ast.If):
            x, y = at(n.test)
            put(n.test, x, y, "True", "if")
            put(n.test, x, y, "False", "if")
        if isinstance(n, ast.Call):
            for k in n.keywords:
                if k.arg:
                    x, y = at(k)
                    tail = data[y:].decode()
                    if tail.lstrip().startswith(","):
                        y += tail.index(",") + 1
                    put(k, x, y, "", "keyword")
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            for part in (n.slice.lower, n.slice.upper):
                if part is not None:
                    x, y = at(part)
                    put(part, x, y, "", "slice")
        if isinstance(n, ast.Raise):
            put(n, a, b, "pass", "raise")
        if isinstance(n, (ast.JoinedStr,)):
            return
        for c in ast.iter_child_nodes(n):
            visit(c, inside)
    walk(ast.parse(text), False)
    good = []
    for m in out:
        try:
            ast.parse(m[4])
        except SyntaxError:
            continue
        good.append(m)
    return good


def stable_tests(repo, work):
    """Whether the stable tests pass on a copy"""
    env = dict(os.environ, PYTHONPATH=repo, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", NUMBA_CACHE_DIR=os.path.join(work, "nb"))
    stable = [x.split("::")[1] for x in json.load(open("/opt/vp/BASELINE.json"))["stable"]]
    try:
        r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--timeout=200", "-rf",
                            "-k", " or ".join(stable), "testing"], cwd=repo, env=env, capture_output=True, text=True, timeout=400)
    except subprocess.TimeoutExpired:
        return False
    return r.returncode == 0 and "%d passed" % len(stable) in r.stdout


PROGRAM = r"""
import json, os, sys
sys.path.insert(0, sys.argv[1])
import common, registry
common.ROOT = sys.argv[2]
suites = json.load(sys.stdin)
for s in suites:
    r = common.Report(s["property"])
    try:
        common.run_suite(r, s["name"], s["programs"], jit=s["jit"], shards=1, module=s["module"], cfg=s["cfg"], timeout=900)
    except common.MachineryError as e:
        print("MACHINERY", s["name"], str(e)[:300], flush=True)
        continue
    if r.violations:
        print("CAUGHT", s["property"], r.violations[0][0][:200], flush=True)
        break
"""


def attempt(m, suites):
    file, (line, kind, was, new, text) = m
    res = {"file": file, "line": line, "kind": kind, "was": was[:120], "new": new[:120]}
    d = tempfile.mkdtemp(prefix="m-", dir=WORK)
    t0 = time.time()
    try:
        repo = os.path.join(d, "repo")
        subprocess.run(["cp", "-a", "/repo", repo], check=True)
        with open(os.path.join(repo, "cheval", file), "w") as f:
            f.write(text)
        if file in ("core.py", "ldf/api.py", "ldf/missing_data.py", "utils.py", "parsing/expressions.py", "parsing/ast_transformer.py",
                    "parsing/expr_items.py"):
            if not stable_tests(repo, d):
                return dict(res, outcome="tests")
        wanted = RELEVANT[file].split()
        order = sorted((s for s in suites if s["property"] in wanted and (not s["jit"] or file == "core.py")),
                       key=lambda s: wanted.index(s["property"]))
        order = list({(s["name"] if s["name"].startswith("MC") else (s["property"], s["name"])): s for s in reversed(order)}.values())[::-1]
        first = [dict(s, programs=s["programs"][:max(12, len(s["programs"]) // 8)]) for s in order]
        rest = [dict(s, programs=s["programs"][max(12, len(s["programs"]) // 8):]) for s in order]
        rest = [s for s in rest if s["programs"]]
        said = ""
        for batch in (first, rest):
            r = subprocess.run([sys.executable, "-c", PROGRAM, os.path.join(HERE, "harness"), d], input=json.dumps(batch),
                               env=dict(os.environ, CHEVAL_REPO=repo), capture_output=True, text=True)
            said += r.stdout
            if "CAUGHT" in r.stdout:
                break
            if r.returncode:
                said += r.stderr[-500:]
        caught = [x for x in said.splitlines() if x.startswith("CAUGHT")]
        return dict(res, outcome="caught" if caught else "survived", said=(caught or [said])[0][-600:], wall=round(time.time() - t0))
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run(out, n, seed, files):
    suites = json.load(open(os.path.join(WORK, "programs.json")))
    pool = [(f, m) for f in files or FILES for m in mutants(os.path.join("/repo/cheval", f))]
    seen = {(x["file"], x["line"], x["kind"], x["was"], x["new"]) for x in map(json.loads, open(out))} if os.path.exists(out) else set()
    pool = [x for x in pool if (x[0], x[1][0], x[1][1], x[1][2][:120], x[1][3][:120]) not in seen]
    print(len(pool), "mutants left")
    r = random.Random(seed)
    todo = r.sample(pool, min(n, len(pool)))
    count = {}
    with ThreadPoolExecutor(int(os.environ.get("PLANT_JOBS", 8))) as ex:
        for res in ex.map(lambda m: attempt(m, suites), todo):
            count[res["outcome"]] = count.get(res["outcome"], 0) + 1
            with open(out, "a") as f:
                f.write(json.dumps(res) + "\n")
            if res["outcome"] == "survived":
                print(res["file"], res["line"], res["kind"], "|", res["was"], "->", res["new"], "|", res["said"][-200:], flush=True)
    print(count)


if __name__ == "__main__":
    if sys.argv[1] == "prepare":
        prepare()
    elif sys.argv[1] == "show":
        for x in map(json.loads, open(sys.argv[2])):
            if x["outcome"] == "survived":
                print("%s:%d %s | %s -> %s" % (x["file"], x["line"], x["kind"], x["was"], x["new"]))
    else:
        run(sys.argv[2], int(sys.argv[3]) if len(sys.argv) > 3 else 20, int(sys.argv[4]) if len(sys.argv) > 4 else 1, sys.argv[5:])
