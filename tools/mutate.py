#!/usr/bin/env python3
"""Mutation campaign over the code a check executes (a tool for strengthening the checks, not a check).
  mutate.py cover PROP OUT.json          lines of /repo/metku executed by the quick tier
  mutate.py run PROP                     fail-fast run (exit 1 at the first deviation)
  mutate.py go PROP COVER.json N SEED [substring of file] [timeout]   N mutants in parallel, survivors listed
"""
import ast, importlib, json, os, random, shutil, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"


def setup():
    sys.path[:0] = [HERE, os.environ.get("METKU_REPO", "/repo")]
    from mc import core
    with core.quiet():
        import metku.framefem.framefem  # noqa
    return core


def cover(prop, out):
    core = setup()
    mon = sys.monitoring
    mon.use_tool_id(1, "cov")
    seen = set()

    def line(code, n):
        if "/metku/" in code.co_filename and code.co_name != "<module>":
            seen.add((code.co_filename.split("/metku/", 1)[1], n))
        return mon.DISABLE
    mon.register_callback(1, mon.events.LINE, line)
    mon.set_events(1, mon.events.LINE)
    orig = core._run_chunk
    os.makedirs(out + ".d", exist_ok=True)

    def chunk(a):
        r = orig(a)
        json.dump(sorted(seen), open(f"{out}.d/{os.getpid()}", "w"))
        return r
    core._run_chunk = chunk
    chunk.__name__ = chunk.__qualname__ = "_run_chunk"
    chunk.__module__ = "mc.core"
    mod = importlib.import_module("mc.props." + prop.lower())
    core.main(prop, mod.families, ["--tier", "quick", "--family", os.environ["FAM"]] if "FAM" in os.environ else ["--tier", "quick"])
    allseen = set(seen)
    for f in os.listdir(out + ".d"):
        allseen |= {tuple(x) for x in json.load(open(f"{out}.d/{f}"))}
    shutil.rmtree(out + ".d")
    json.dump(sorted(allseen), open(out, "w"))
    print(prop, len(allseen), "lines in", sorted({f for f, _ in allseen}))


def run(prop):
    core = setup()
    orig = core.run_case

    def rc(fam, case):
        r = orig(fam, case)
        if r.fails:
            f = r.fails[0]
            sys.__stdout__.write(f"KILLED {fam.name}/{f['key']}\n")
            sys.__stdout__.flush()
            os._exit(1)
        return r
    core.run_case = rc
    mod = importlib.import_module("mc.props." + prop.lower())
    with core.quiet():
        fams = mod.families("quick")
    for fam in fams:
        if "FAM" in os.environ and fam.name not in os.environ["FAM"].split(","):
            continue
        cases = list(fam.cases())
        # a spread order kills early; the order does not change the verdict
        step = 97
        for k in range(step):
            for c in cases[k::step]:
                rc(fam, c)
    sys.__stdout__.write("SURVIVED\n")


CMP = {ast.Lt: ["<=", ">="], ast.LtE: ["<", ">"], ast.Gt: [">=", "<"], ast.GtE: [">", "<="], ast.Eq: ["!="], ast.NotEq: ["=="], ast.Is: ["is not"], ast.IsNot: ["is"], ast.In: ["not in"], ast.NotIn: ["in"]}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*"}
FUN = {"min": "max", "max": "min", "sin": "cos", "cos": "sin", "abs": "float", "sqrt": "abs", "argmin": "argmax", "argmax": "argmin", "all": "any", "any": "all", "tan": "sin"}


def mutants(src, lines):
    """[(line, description, start, end, new text)] with byte offsets"""
    tree = ast.parse(src)
    offs = [0]
    for l in src.encode().split(b"\n"):
        offs.append(offs[-1] + len(l) + 1)
    b = src.encode()

    def pos(n):
        return offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset

    def text(n):
        s, e = pos(n)
        return b[s:e].decode()
    out = []

    def add(n, new, what):
        s, e = pos(n)
        if b[s:e].decode() != new and not (what in ("bin", "cmp", "const") and "gammaM" in b[s:e].decode()[-9:]):
            out.append((n.lineno, what, s, e, new))
    doc = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            doc.add(id(n.body[0]))
    infun = set()
    skip = set()
    for f in ast.walk(tree):
        if isinstance(f, ast.FunctionDef):
            for s in f.body:
                for n in ast.walk(s):
                    infun.add(id(n))
        if isinstance(f, ast.Call) and isinstance(f.func, ast.Name) and f.func.id == "print" or isinstance(f, (ast.JoinedStr, ast.Raise)):
            for n in ast.walk(f):
                skip.add(id(n))
            for n in ast.walk(f):
                pass
    for n in ast.walk(tree):
        if id(n) not in infun or id(n) in skip or not hasattr(n, "lineno") or n.lineno not in lines:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for o in CMP.get(type(n.ops[0]), []):
                add(n, f"({text(n.left)} {o} {text(n.comparators[0])})", "cmp")
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            if isinstance(n.left, ast.Constant) and isinstance(n.left.value, str) or isinstance(n.right, (ast.List,)) or isinstance(n.left, ast.List):
                continue
            add(n, f"({text(n.left)} {BIN[type(n.op)]} {text(n.right)})", "bin")
        elif isinstance(n, ast.BinOp) and isinstance(n.op, ast.Pow) and isinstance(n.right, ast.Constant):
            add(n, f"(({text(n.left)})**{n.right.value + 1})", "pow")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
            add(n, f"({text(n.operand)})", "unary")
        elif isinstance(n, ast.BoolOp):
            op = " or " if isinstance(n.op, ast.And) else " and "
            add(n, "(" + op.join(f"({text(v)})" for v in n.values) + ")", "bool")
            add(n, f"({text(n.values[0])})", "bool-first")
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
            add(n, str(not n.value), "const")
        elif isinstance(n, ast.Constant) and isinstance(n.value, int):
            add(n, str(n.value + 1), "const")
            if n.value == 1:
                add(n, "0", "const")
        elif isinstance(n, ast.Constant) and isinstance(n.value, float):
            add(n, repr(n.value * 1.02) if n.value else "0.5", "const")
        elif isinstance(n, ast.Call):
            f = n.func
            name = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else ""
            if name in FUN:
                add(f, text(f)[:-len(name)] + FUN[name] if name != "abs" or isinstance(f, ast.Name) else text(f), "fun")
        elif isinstance(n, (ast.Assign, ast.AugAssign)):
            t = n.targets[0] if isinstance(n, ast.Assign) else n.target
            if isinstance(t, (ast.Attribute, ast.Subscript)):
                add(n, "pass", "drop")
            if isinstance(n, ast.AugAssign) and isinstance(n.op, ast.Add):
                add(n, f"{text(n.target)} = {text(n.value)}", "aug")
        elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and id(n) not in doc:
            f = n.value.func
            if not (isinstance(f, ast.Name) and f.id == "print") and "super" not in text(n):
                add(n, "pass", "drop")
        elif isinstance(n, ast.If):
            add(n.test, f"(False)", "if-false")
            add(n.test, f"(True)", "if-true")
        elif isinstance(n, (ast.Break, ast.Continue)):
            add(n, "pass", "drop")
    return out, b


def go(prop, cov, n, seed, sub="", timeout="240"):
    lines = {}
    for f, l in json.load(open(cov)):
        lines.setdefault(f, set()).add(l)
    if not sub:
        files = [a[len("metku/"):] for a in json.loads([x for x in open(HERE + "/properties.jsonl") if f'"{prop}"' in x[:20]][0])["anchors"]["files"]]
    else:
        files = [f for f in lines if any(s in f for s in sub.split(","))]
    pool = []
    for f in files:
        if f not in lines:
            continue
        src = open("/repo/metku/" + f).read()
        ms, b = mutants(src, lines[f])
        for m in ms:
            pool.append((f, b, m))
    random.Random(int(seed)).shuffle(pool)
    print(prop, len(pool), "mutants possible; taking", n, flush=True)
    pool = pool[:int(n)]
    K = int(os.environ.get("K", "8"))
    procs = {}
    res = {"killed": 0, "survived": [], "timeout": []}
    for k in range(K):
        d = f"/tmp/mut/{prop}w{k}"
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        shutil.copytree("/repo/metku", d + "/metku", ignore=shutil.ignore_patterns("__pycache__"))
    it = iter(pool)
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", MPLCONFIGDIR="/opt/venv/mplconfig", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")

    def start(k):
        while True:
            x = next(it, None)
            if x is None:
                return False
            f, b, (ln, what, s, e, new) = x
            t = b[:s] + new.encode() + b[e:]
            try:
                compile(t, f, "exec")
            except SyntaxError:
                continue
            d = f"/tmp/mut/{prop}w{k}"
            open(f"{d}/metku/{f}", "wb").write(t)
            p = subprocess.Popen(["timeout", timeout, PY, "-W", "ignore", HERE + "/tools/mutate.py", "run", prop], env=dict(env, METKU_REPO=d), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, cwd=HERE)
            procs[k] = (p, x)
            return True
    import time
    for k in range(K):
        start(k)
    done = 0
    while procs:
        time.sleep(0.2)
        for k in list(procs):
            p, x = procs[k]
            if p.poll() is None:
                continue
            o, err = p.communicate()
            f, b, (ln, what, s, e, new) = x
            done += 1
            d = f"{f}:{ln} [{what}] {b[s:e].decode()[:90]!r} -> {new[:90]!r}"
            if "KILLED" in o or p.returncode == 1:
                res["killed"] += 1
            elif p.returncode == 124:
                res["timeout"].append(d)
                print("TIMEOUT", d, flush=True)
            elif "SURVIVED" in o:
                res["survived"].append(d)
                print("SURVIVED", d, flush=True)
            else:
                res["killed"] += 1
                print("ERROR", p.returncode, d, err[-200:], flush=True)
            open(f"/tmp/mut/{prop}w{k}/metku/{f}", "wb").write(b)
            del procs[k]
            start(k)
    print(prop, "killed", res["killed"], "survived", len(res["survived"]), "timeout", len(res["timeout"]))
    for k in range(K):
        shutil.rmtree(f"/tmp/mut/{prop}w{k}", ignore_errors=True)


if __name__ == "__main__":
    {"cover": cover, "run": run, "go": go}[sys.argv[1]](*sys.argv[2:])
