"""mutate.py PROP N [SEED]: N random small changes of the functions under PROP's contracts, each on a scratch copy; reports those that pass the
stable tests and that the check misses, or catches without a failing input (development aid)."""
import ast, concurrent.futures, json, os, queue, random, shutil, subprocess, sys
PID, N = sys.argv[1], int(sys.argv[2])
SEED = int(sys.argv[3]) if len(sys.argv) > 3 else 1
W = int(os.environ.get("P", "4"))
SRC = "/repo/sdk/python/lib/pulumi/"
rng = random.Random(SEED)
ev = json.load(open(f"/verif/evidence/{PID}.json"))["coverage"]


def files():
    out = {}
    for q in ev["functions_under_contract"]:
        q = q.split(".<locals>")[0]
        parts = q.split(".")
        for i in range(len(parts), 0, -1):
            f = "/".join(parts[1:i])
            for cand in (f + ".py", f + "/__init__.py"):
                if os.path.isfile(SRC + cand) and i < len(parts):
                    out.setdefault(cand, set()).add(".".join(parts[i:]))
                    break
            else:
                continue
            break
    return out


def find(tree, q):
    body = tree.body
    n = None
    for p in q.split("."):
        n = [x for x in body if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)) and x.name == p]
        if not n:
            return None
        n = n[-1]
        body = n.body
    return n


class Src:
    def __init__(self, f):
        self.text = open(SRC + f).read()
        self.lines = [0]
        for l in self.text.encode().split(b"\n"):
            self.lines.append(self.lines[-1] + len(l) + 1)
        self.b = self.text.encode()

    def span(self, n):
        return self.lines[n.lineno - 1] + n.col_offset, self.lines[n.end_lineno - 1] + n.end_col_offset

    def seg(self, n):
        a, z = self.span(n)
        return self.b[a:z].decode()


def mutations(s, fn):
    out = []

    def rep(n, t, what):
        out.append((s.span(n), t, n.lineno, what))
    skip = set()
    for n in ast.walk(fn):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            a = n.args
            for x in [y.annotation for y in a.args + a.kwonlyargs if y.annotation] + ([n.returns] if n.returns else []) + n.decorator_list:
                for y in ast.walk(x):
                    skip.add(y)
            if n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
                skip.add(n.body[0]); skip.add(n.body[0].value)
        if isinstance(n, ast.AnnAssign):
            for y in ast.walk(n.annotation):
                skip.add(y)
        if isinstance(n, ast.Raise) or isinstance(n, ast.Call) and "log." in s.seg(n.func):
            for y in ast.walk(n):
                skip.add(y)
            if isinstance(n, ast.Call):
                skip.add(n)
        if isinstance(n, ast.Expr) and "log." in s.seg(n)[:10]:
            skip.add(n)
    for n in ast.walk(fn):
        if n in skip:
            continue
        if isinstance(n, (ast.If, ast.While, ast.IfExp)):
            rep(n.test, f"not ({s.seg(n.test)})", "negated")
            if isinstance(n, ast.If) and not n.orelse:
                rep(n.test, f"(False and ({s.seg(n.test)}))", "never")
                rep(n.test, f"(True or ({s.seg(n.test)}))", "always")
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            l, r, o = s.seg(n.left), s.seg(n.comparators[0]), type(n.ops[0])
            m = {ast.Eq: "!=", ast.NotEq: "==", ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.In: "not in", ast.NotIn: "in", ast.Is: "is not", ast.IsNot: "is"}[o]
            rep(n, f"({l} {m} {r})", "comparison")
            if o is ast.IsNot and r == "None":
                rep(n, f"bool({l})", "truth for not None")
            if o is ast.Is and r == "None":
                rep(n, f"(not {l})", "falsity for None")
            if o is ast.Eq:
                rep(n, f"({l} is {r})", "identity") if not isinstance(n.comparators[0], ast.Constant) else None
        if isinstance(n, ast.BoolOp):
            for k, v in enumerate(n.values):
                rest = [s.seg(x) for j, x in enumerate(n.values) if j != k]
                rep(n, "(" + (" and " if isinstance(n.op, ast.And) else " or ").join(rest) + ")", f"operand {k} dropped")
            rep(n, "(" + (" or " if isinstance(n.op, ast.And) else " and ").join(s.seg(x) for x in n.values) + ")", "and/or")
        if isinstance(n, ast.Constant):
            if n.value is True or n.value is False:
                rep(n, str(not n.value), "bool")
            elif isinstance(n.value, int):
                rep(n, str(n.value + 1), "int")
            elif isinstance(n.value, str) and n.value and s.seg(n)[0] in "'\"":
                rep(n, repr(n.value + "x"), "string")
        if isinstance(n, ast.Expr) and isinstance(n.value, (ast.Call, ast.Await)):
            rep(n, "pass", "statement dropped")
        if isinstance(n, ast.Assign) and not isinstance(n.targets[0], ast.Name):
            rep(n, "pass", "assignment dropped")
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.lineno != fn.body[0].lineno:
            pass
        if isinstance(n, ast.AugAssign):
            rep(n, "pass", "augmented assignment dropped")
        if isinstance(n, ast.Return) and n.value is not None and not isinstance(n.value, ast.Constant):
            rep(n.value, "None", "return None")
        if isinstance(n, ast.Call):
            for k in n.keywords:
                if k.arg:
                    rep(k.value, "None", f"keyword {k.arg} None")
            if len(n.args) >= 2 and not any(isinstance(x, ast.Starred) for x in n.args):
                a, b = n.args[0], n.args[1]
                t = s.seg(n)
                base = s.span(n)[0]
                (a0, a1), (b0, b1) = s.span(a), s.span(b)
                out.append(((a0, b1), s.b[b0:b1].decode() + s.b[a1:b0].decode() + s.b[a0:a1].decode(), n.lineno, "arguments swapped"))
            if len(n.args) == 1 and not n.keywords and isinstance(n.func, ast.Name) and n.func.id in ("list", "dict", "set", "bool", "str"):
                rep(n, s.seg(n.args[0]), "conversion dropped")
        if isinstance(n, ast.Break):
            rep(n, "continue", "continue")
        if isinstance(n, ast.Continue):
            rep(n, "break", "break")
        if isinstance(n, ast.BinOp):
            rep(n, s.seg(n.left), "right operand dropped")
            rep(n, s.seg(n.right), "left operand dropped")
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            rep(n, s.seg(n.operand), "not dropped")
        if isinstance(n, ast.Try) and n.finalbody:
            a, z = s.span(n.finalbody[0])[0], s.span(n.finalbody[-1])[1]
            out.append(((a, z), "pass", n.finalbody[0].lineno, "finally dropped"))
        if isinstance(n, ast.Await) and isinstance(n.value, ast.Name):
            pass
    return out


cands = []
for f, qs in files().items():
    s = Src(f)
    tree = ast.parse(s.text)
    seen = set()
    for q in sorted(qs):
        n = find(tree, q)
        if n is None or isinstance(n, ast.ClassDef) or n in seen:
            continue
        seen.add(n)
        for (a, z), t, line, what in mutations(s, n):
            new = (s.b[:a] + t.encode() + s.b[z:]).decode()
            try:
                compile(new, f, "exec")
            except SyntaxError:
                continue
            cands.append((f, q, line, what, s.b[a:z].decode(), t, new))
rng.shuffle(cands)
print(len(cands), "candidates", flush=True)
todo = cands[:N]
pool = queue.Queue()
TEST = open("/opt/vp/test.sh").read()
for k in range(W):
    d = f"/tmp/mutw_{PID}_{k}"
    subprocess.run(["rm", "-rf", d])
    os.makedirs(d)
    subprocess.run(["cp", "-a", "/repo", d + "/repo"], check=True)
    lib = d + "/repo/sdk/python/lib"
    open(d + "/test.sh", "w").write(TEST.replace("/repo", d + "/repo").replace("unset PYTHONPATH PYTHONHOME", f"export PYTHONPATH={lib}").replace("$C:$META", "$C:$META:" + lib))
    pool.put(d)
KNOWN = json.dumps([x for x in json.load(open("/verif/known_findings.json"))["findings"] if x["property"] == PID])
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])


def one(c):
    f, q, line, what, old, t, new = c
    d = pool.get()
    lib = d + "/repo/sdk/python/lib"
    p = f"{lib}/pulumi/{f}"
    orig = open(p).read()
    try:
        open(p, "w").write(new)
        env = dict(os.environ, PV_REPO_LIB=lib, PV_OUT=d, PULUMI_HOME=d)
        def nat(secs, seed):
            o = d + "/n.json"
            if os.path.exists(o):
                os.unlink(o)
            subprocess.run(["/opt/venv/bin/python", "/verif/tools/native.py", "spec." + PID.lower(), "--seed", str(seed), "--time", str(secs), "--out", o, "--known", KNOWN], cwd=d, env=env, capture_output=True, timeout=300)
            j = json.load(open(o)) if os.path.exists(o) else {"violations": [], "error": "x"}
            return bool(j["violations"])
        try:
            if nat(8, 1000):
                return c, "input"
            r = subprocess.run([sys.executable, "/verif/check.py", PID, "--no-native"], cwd="/verif", env=env, capture_output=True, text=True, timeout=900)
        except subprocess.TimeoutExpired:
            return c, "timeout"
        subprocess.run(["bash", d + "/test.sh", d + "/o.json"], capture_output=True)
        passed = set(json.load(open(d + "/o.json")).get("passed", [])) if os.path.exists(d + "/o.json") else set()
        if not stable <= passed:
            return c, "tests"
        return c, "SURVIVED" if r.returncode == 0 else "noinput"
    except Exception as e:
        return c, f"error {e!r}"
    finally:
        open(p, "w").write(orig)
        pool.put(d)


tally = {}
with concurrent.futures.ThreadPoolExecutor(W) as ex:
    for c, r in ex.map(one, todo):
        tally[r] = tally.get(r, 0) + 1
        if r not in ("input", "tests"):
            f, q, line, what, old, t, new = c
            print(f"{r}: {f}:{line} {q}: {what}: {old[:90]!r} -> {t[:90]!r}", flush=True)
print(PID, tally, flush=True)
for k in range(W):
    subprocess.run(["rm", "-rf", f"/tmp/mutw_{PID}_{k}"])
