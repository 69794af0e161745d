"""refac.py KIND DEST: rewrite the library in DEST (a copy of sdk/python/lib) in a way that changes no behaviour, to see that the checks stay quiet.

KIND: comp (comprehensions become loops), inv (if/else swapped), ret (returned values named first), ren (locals renamed),
idx (loops over enumerate), tern (conditional expressions become statements), ext (statements extracted into helpers), noop."""
import ast, os, sys, glob, copy, itertools, functools
FUN = (ast.FunctionDef, ast.AsyncFunctionDef)
CTR = itertools.count()


def walk_own(f):
    """Nodes of a function without those of functions and classes nested in it."""
    todo = list(f.body)
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, FUN + (ast.ClassDef, ast.Lambda)):
            continue
        todo.extend(ast.iter_child_nodes(n))


def bodies(t):
    for n in ast.walk(t):
        for k in ("body", "orelse", "finalbody"):
            b = getattr(n, k, None)
            if isinstance(b, list):
                yield n, b


def in_functions(t):
    for f in ast.walk(t):
        if isinstance(f, FUN):
            yield f


def uses_tricks(f):
    return any(isinstance(n, ast.Name) and n.id in ("locals", "exec", "super") for n in ast.walk(f)) or any(isinstance(n, (ast.Nonlocal, ast.Global)) for n in ast.walk(f))


def comp(t):
    def loops(gens, inner):
        for g in reversed(gens):
            for c in reversed(g.ifs):
                inner = [ast.If(c, inner, [])]
            inner = [ast.For(g.target, g.iter, inner, [])]
        return inner
    for f in in_functions(t):
        for n in ast.walk(f):
            for k in ("body", "orelse", "finalbody"):
                b = getattr(n, k, None)
                if not isinstance(b, list):
                    continue
                out = []
                for s in b:
                    v = getattr(s, "value", None)
                    if isinstance(s, (ast.Assign, ast.Return, ast.AnnAssign)) and isinstance(v, (ast.ListComp, ast.SetComp, ast.DictComp)) and not any(g.is_async for g in v.generators):
                        x = f"collected_{next(CTR)}"
                        if isinstance(v, ast.ListComp):
                            init, add = ast.List([], ast.Load()), ast.Expr(ast.Call(ast.Attribute(ast.Name(x, ast.Load()), "append", ast.Load()), [v.elt], []))
                        elif isinstance(v, ast.SetComp):
                            init, add = ast.Call(ast.Name("set", ast.Load()), [], []), ast.Expr(ast.Call(ast.Attribute(ast.Name(x, ast.Load()), "add", ast.Load()), [v.elt], []))
                            if "_types" in FILE:          # the module has a function of its own called set
                                out.append(s); continue
                        else:
                            init, add = ast.Dict([], []), ast.Assign([ast.Subscript(ast.Name(x, ast.Load()), v.key, ast.Store())], v.value)
                        m = {tn.id: f"{tn.id}_{x[10:]}" for g in v.generators for tn in ast.walk(g.target) if isinstance(tn, ast.Name)}
                        for sub in ast.walk(v):
                            if isinstance(sub, ast.Name) and sub.id in m:
                                sub.id = m[sub.id]
                        if any(isinstance(z, ast.Lambda) for z in ast.walk(v)):
                            pass
                        out.append(ast.Assign([ast.Name(x, ast.Store())], init))
                        out += loops(v.generators, [add])
                        s.value = ast.Name(x, ast.Load())
                    out.append(s)
                b[:] = out


def inv(t):
    for f in in_functions(t):
        for n in ast.walk(f):
            if isinstance(n, ast.If) and n.orelse and not (len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If)):
                n.test = n.test.operand if isinstance(n.test, ast.UnaryOp) and isinstance(n.test.op, ast.Not) else ast.UnaryOp(ast.Not(), n.test)
                n.body, n.orelse = n.orelse, n.body


def ret(t):
    for f in in_functions(t):
        for n, b in list(bodies(f)):
            out = []
            for s in b:
                if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, (ast.Name, ast.Constant)):
                    out.append(ast.Assign([ast.Name("answer", ast.Store())], s.value))
                    s.value = ast.Name("answer", ast.Load())
                out.append(s)
            b[:] = out


def local_names(f):
    params = {a.arg for a in f.args.args + f.args.kwonlyargs + f.args.posonlyargs} | ({f.args.vararg.arg} if f.args.vararg else set()) | ({f.args.kwarg.arg} if f.args.kwarg else set())
    names = set()
    for n in walk_own(f):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            names.add(n.id)
    return params, names - params


def ren(t):
    def fix(f, inherited):
        params, names = local_names(f)
        nested = {n.name for n in walk_own(f) if isinstance(n, FUN + (ast.ClassDef,))}
        imported = {a.asname or a.name for n in walk_own(f) if isinstance(n, (ast.Import, ast.ImportFrom)) for a in n.names}
        nonloc = {x for n in ast.walk(f) if isinstance(n, (ast.Nonlocal, ast.Global)) for x in n.names}
        m = {k: v for k, v in inherited.items() if k not in params and k not in names and k not in nested}
        m.update({x: x + "_2" for x in names if x not in nonloc and x not in imported and x not in nested and not x.startswith("__")})
        for s in f.body:
            rename(s, m)

    def rename(n, m):
        if isinstance(n, FUN):
            for d in n.args.defaults + [x for x in n.args.kw_defaults if x] + n.decorator_list:
                rename(d, m)
            fix(n, m)
            return
        if isinstance(n, ast.Lambda):
            for d in n.args.defaults:
                rename(d, m)
            ps = {a.arg for a in n.args.args}
            rename(n.body, {k: v for k, v in m.items() if k not in ps})
            return
        if isinstance(n, ast.ClassDef):
            return
        if isinstance(n, ast.ExceptHandler) and n.name:
            mm = {k: v for k, v in m.items() if k != n.name}
            for c in ast.iter_child_nodes(n):
                rename(c, mm)
            return
        if isinstance(n, ast.Name) and n.id in m:
            n.id = m[n.id]
        for c in ast.iter_child_nodes(n):
            rename(c, m)
    def top(n):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, FUN):
                if not any(isinstance(x, ast.ClassDef) for x in ast.walk(c)):
                    fix(c, {})
            elif isinstance(c, ast.ClassDef):
                top(c)
    top(t)


def idx(t):
    for f in in_functions(t):
        for n in list(walk_own(f)):
            if isinstance(n, ast.For):
                n.target = ast.Tuple([ast.Name(f"position_{next(CTR)}", ast.Store()), n.target], ast.Store())
                n.iter = ast.Call(ast.Name("enumerate", ast.Load()), [n.iter], [])


def tern(t):
    for f in in_functions(t):
        for n, b in list(bodies(f)):
            out = []
            for s in b:
                if isinstance(s, (ast.Return, ast.Assign)) and isinstance(s.value, ast.IfExp) and not any(isinstance(z, ast.ClassDef) for z in [n]):
                    v = s.value
                    x, y = copy.deepcopy(s), s
                    x.value, y.value = v.body, v.orelse
                    out.append(ast.If(v.test, [x], [y]))
                else:
                    out.append(s)
            b[:] = out


def ext(t):
    new = []
    for f in [n for n in t.body if isinstance(n, FUN)] + [m for c in t.body if isinstance(c, ast.ClassDef) for m in c.body if isinstance(m, FUN)]:
        if uses_tricks(f) or any(isinstance(n, FUN + (ast.ClassDef, ast.Lambda)) for s in f.body for n in ast.walk(s)):
            continue
        params, names = local_names(f)
        loc = params | names | {a.asname or a.name for n in walk_own(f) if isinstance(n, (ast.Import, ast.ImportFrom)) for a in n.names}
        if any(x.startswith("__") for x in loc):
            continue
        for n, b in list(bodies(f)):
            if n is f or not isinstance(n, (ast.If, ast.For, ast.While, ast.With)):
                continue
            ok = (ast.Assign, ast.AugAssign, ast.Expr)
            if not b or not all(isinstance(s, ok) for s in b) or any(isinstance(x, (ast.Await, ast.Yield, ast.YieldFrom, ast.AsyncFor)) for s in b for x in ast.walk(s)):
                continue
            if any(isinstance(x, ast.Attribute) and x.attr.startswith("__") and not x.attr.endswith("__") for s in b for x in ast.walk(s)):
                continue
            if any(isinstance(x, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)) and any(g.is_async for g in x.generators) for s in b for x in ast.walk(s)):
                continue
            comps = {y.id for s in b for x in ast.walk(s) if isinstance(x, ast.comprehension) for y in ast.walk(x.target) if isinstance(y, ast.Name)}
            writes = []
            for s in b:
                for x in ast.walk(s):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id not in comps and x.id not in writes:
                        writes.append(x.id)
            seen, reads = set(), []
            for s in b:
                w = set()
                for x in ast.walk(s):
                    if isinstance(x, ast.Name) and x.id in loc and x.id not in comps:
                        if isinstance(x.ctx, ast.Load) or isinstance(s, ast.AugAssign) and x is s.target:
                            if x.id not in seen and x.id not in reads:
                                reads.append(x.id)
                        if isinstance(x.ctx, ast.Store):
                            w.add(x.id)
                seen |= w
            name = f"_part_{next(CTR)}"
            body = list(b)
            tup = lambda c: ast.Name(writes[0], c) if len(writes) == 1 else ast.Tuple([ast.Name(w, c) for w in writes], c)
            if writes:
                body.append(ast.Return(tup(ast.Load())))
            new.append(ast.FunctionDef(name, ast.arguments([], [ast.arg(r) for r in reads], None, [], [], None, []), body, [], None, None, type_params=[]))
            call = ast.Call(ast.Name(name, ast.Load()), [ast.Name(r, ast.Load()) for r in reads], [])
            b[:] = [ast.Assign([tup(ast.Store())], call) if writes else ast.Expr(call)]
    at = next((k for k, n in enumerate(t.body) if isinstance(n, FUN + (ast.ClassDef,))), len(t.body))
    t.body[at:at] = new


def noop(t):
    for f in in_functions(t):
        at = 1 if f.body and isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant) else 0
        f.body.insert(at, ast.Assign([ast.Name("unused", ast.Store())], ast.Constant(0)))


def els(t):
    """What follows an early exit becomes its else branch."""
    for f in in_functions(t):
        for n, b in list(bodies(f)):
            for k, st in enumerate(b):
                if isinstance(st, ast.If) and not st.orelse and isinstance(st.body[-1], (ast.Return, ast.Raise, ast.Continue)) and b[k + 1:]:
                    st.orelse = b[k + 1:]
                    del b[k + 1:]
                    break


def lit(t):
    """Empty collections are made by calls; text by concatenation."""
    class T(ast.NodeTransformer):
        def visit_Dict(self, n):
            self.generic_visit(n)
            return n if n.keys else ast.Call(ast.Name("dict", ast.Load()), [], [])

        def visit_List(self, n):
            self.generic_visit(n)
            return n if n.elts or not isinstance(n.ctx, ast.Load) else ast.Call(ast.Name("list", ast.Load()), [], [])

        def visit_JoinedStr(self, n):
            self.generic_visit(n)
            if any(isinstance(v, ast.FormattedValue) and (v.format_spec or v.conversion != -1) for v in n.values) or not n.values:
                return n
            parts = [ast.Call(ast.Name("str", ast.Load()), [v.value], []) if isinstance(v, ast.FormattedValue) else v for v in n.values]
            return functools.reduce(lambda a, b: ast.BinOp(a, ast.Add(), b), parts)
    for f in in_functions(t):
        f.body = [T().visit(x) for x in f.body]


def orx(t):
    """a or b, with a simple a, becomes a conditional expression."""
    class T(ast.NodeTransformer):
        def visit_BoolOp(self, n):
            self.generic_visit(n)
            a = n.values[0]
            while isinstance(a, ast.Attribute):
                a = a.value
            if len(n.values) == 2 and isinstance(a, ast.Name):
                x, y = n.values
                return ast.IfExp(x, x, y) if isinstance(n.op, ast.Or) else ast.IfExp(x, y, x)
            return n
    for f in in_functions(t):
        f.body = [T().visit(x) for x in f.body]


def tmp(t):
    """The first argument of a call is computed first."""
    for f in in_functions(t):
        for n, b in list(bodies(f)):
            out = []
            for st in b:
                v = st.value if isinstance(st, (ast.Return, ast.Assign, ast.Expr)) else None
                c = v.value if isinstance(v, ast.Await) else v
                if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.args and isinstance(c.args[0], (ast.Call, ast.Attribute, ast.BinOp, ast.IfExp, ast.ListComp, ast.DictComp)):
                    x = f"first_{next(CTR)}"
                    out.append(ast.Assign([ast.Name(x, ast.Store())], c.args[0]))
                    c.args[0] = ast.Name(x, ast.Load())
                out.append(st)
            b[:] = out


SIGS = {}


def kw(t):
    """Arguments of the library's own functions are given by keyword."""
    if not SIGS:
        count = {}
        for p in glob.glob(dest + "/pulumi/**/*.py", recursive=True):
            if "/proto/" in p:
                continue
            for n in ast.walk(ast.parse(open(p).read())):
                if isinstance(n, FUN):
                    count.setdefault(n.name, []).append(n)
        for k, v in count.items():
            if len(v) == 1 and not v[0].args.vararg and not v[0].args.posonlyargs and not v[0].decorator_list and not k.startswith("__"):
                SIGS[k] = [a.arg for a in v[0].args.args]
    modlevel = {n.name for n in t.body if isinstance(n, FUN)} | {a.asname or a.name for n in t.body if isinstance(n, ast.ImportFrom) for a in n.names}
    for f in in_functions(t):
        for n in ast.walk(f):
            if not isinstance(n, ast.Call) or any(isinstance(a, ast.Starred) for a in n.args):
                continue
            if isinstance(n.func, ast.Name) and n.func.id in SIGS and n.func.id in modlevel:
                ps = SIGS[n.func.id]
                if ps[:1] == ["self"]:
                    continue
                first = 1
            elif isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == "self" and n.func.attr in SIGS and SIGS[n.func.attr][:1] == ["self"]:
                ps = SIGS[n.func.attr][1:]
                first = 1
            else:
                continue
            if len(n.args) > len(ps):
                continue
            n.keywords = [ast.keyword(p, a) for p, a in list(zip(ps, n.args))[first:]] + n.keywords
            n.args = n.args[:first]


kind, dest = sys.argv[1:3]
for p in glob.glob(dest + "/pulumi/**/*.py", recursive=True):
    FILE = p
    if "/proto/" in p or "_pb2" in p or p.endswith("/_utils.py"):   # _utils looks at the code of empty functions
        continue
    t = ast.parse(open(p).read())
    globals()[kind](t)
    ast.fix_missing_locations(t)
    open(p, "w").write(ast.unparse(t) + "\n")
