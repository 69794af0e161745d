"""pyvc.interp: symbolic interpreter over the Python AST of the real source (and of specifications)."""
import ast
import builtins as pyb
import os
from .core import *
from .values import *

REPO_LIB = os.environ.get("PV_REPO_LIB", "/repo/sdk/python/lib")
SAFE_TYPES = (type(None), bool, int, float, str, bytes)


def conc(v):
    return isinstance(v, SAFE_TYPES)


def static_test(t):
    """Value of a module-level test on the interpreter version; None if it is anything else."""
    names = {x.id for x in ast.walk(t) if isinstance(x, ast.Name)}
    if names != {"sys"} or any(isinstance(x, ast.Attribute) and x.attr != "version_info" for x in ast.walk(t)) \
            or any(isinstance(x, ast.Call) for x in ast.walk(t)):
        return None
    import sys
    return bool(eval(compile(ast.Expression(t), "<test>", "eval"), {"sys": sys}))


class Module:
    """A module of the repository (or of the specifications), parsed from source on every run."""

    def __init__(self, name, path, is_pkg):
        self.name, self.path, self.is_pkg = name, path, is_pkg
        with open(path, encoding="utf-8") as f:
            self.source = f.read()
        self.tree = ast.parse(self.source)
        self.defs = {}
        self._scan(self.tree.body)

    def _scan(self, body):
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                self.defs[n.name] = n
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    for x in ast.walk(t):
                        if isinstance(x, ast.Name):
                            self.defs[x.id] = n
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.value is not None:
                self.defs[n.target.id] = n
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                for a in n.names:
                    nm = a.asname or (a.name.split(".")[0] if isinstance(n, ast.Import) else a.name)
                    if a.name == "*":
                        self.defs.setdefault("*", []).append(n)
                    else:
                        self.defs[nm] = n
            elif isinstance(n, ast.Try):
                self._scan(n.body)
            elif isinstance(n, ast.If):
                t = n.test
                if isinstance(t, ast.Name) and t.id == "TYPE_CHECKING":
                    continue
                v = static_test(t)
                if v is not None:
                    self._scan(n.body if v else n.orelse)
                    continue
                self._scan(n.body)
                self._scan(n.orelse)


GENERICS = {"typing.Dict", "typing.List", "typing.Mapping", "typing.Sequence", "typing.Optional", "typing.Union"}


class Interp:
    def __init__(self, ctx, roots=None):
        self.ctx = ctx
        self.roots = roots or {"pulumi": REPO_LIB}
        self.modules = {}
        self.modvals = {}     # module name -> dict of evaluated globals (journaled)
        self.contracts = {}   # qualname -> fn(interp, bound, fn) -> meta or NotImplemented
        self.ext = {}         # dotted external name -> python model
        self.schema = {}      # class name -> {attr: spec}
        self.isa_known = {}   # term id -> list of (clsname, bool) asked   (journaled)
        self.kinds = {}       # term id -> kind (journaled)
        self.fields = {}      # (term id, attr) -> meta (journaled)
        self.sheap = {}       # overlay for mutated symbolic containers: term id -> Heap
        self.tasks = []
        self.depth = 0
        self.functions_seen = set()
        self.invariants = {}
        self.rec_contracts = {}
        self.specof = {}
        self.ghost = {}
        self.spec_uf = {}
        self.ghost_terms = {}
        self.hooks = {}
        self.class_cache = {}
        self.exc_ok = False
        self.callstack = []
        self.inlined = set()
        from . import lib, loops
        lib.install(self)
        self.loops = loops

    # ================================================================== modules
    def find_module(self, name):
        if name in self.modules:
            return self.modules[name]
        top = name.split(".")[0]
        m = None
        if top in self.roots:
            base = os.path.join(self.roots[top], *name.split("."))
            if os.path.isfile(base + ".py"):
                m = Module(name, base + ".py", False)
            elif os.path.isfile(os.path.join(base, "__init__.py")):
                m = Module(name, os.path.join(base, "__init__.py"), True)
        self.modules[name] = m
        return m

    def get_module(self, name):
        if name in self.ext:
            v = self.ext[name]
            if isinstance(v, ModuleV):
                return v
        m = self.find_module(name)
        return ModuleV(name) if m is not None else ExtV(name)

    def module_attr(self, mod, attr, default=MISSING):
        vals = self.modvals.get(mod)
        if vals is None:
            vals = self.modvals[mod] = {}
        if attr in vals:
            return vals[attr]
        if (mod + "." + attr) in self.hooks:
            v = self.hooks[mod + "." + attr](self)
            self.ctx.jdict(vals, attr, v)
            return v
        m = self.find_module(mod)
        node = m.defs.get(attr)
        if node is None or attr == "*":
            for n in m.defs.get("*", []):
                src = self.import_name(m, n)
                if isinstance(src, ModuleV):
                    v = self.module_attr(src.name, attr, None) if self.has_module_attr(src.name, attr) else None
                    if v is not None:
                        return v
            sub = self.find_module(mod + "." + attr) if m.is_pkg else None
            if sub is not None:
                return ModuleV(mod + "." + attr)
            if attr == "__name__":
                return mod
            if attr == "__file__":
                return m.path
            if default is not MISSING:
                return default
            raise Unsupported(f"module {mod} has no attribute {attr}")
        env = Env(None, m)
        v = MISSING
        if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
            key = (mod, attr)
            v = self.class_cache.get(key)
            if v is None:
                v = self.make_func(node, None, m, f"{mod}.{attr}")
                if not (isinstance(v, FuncV) and (v.defaults or v.kw_defaults)):
                    pass
                if isinstance(v, FuncV) and all(conc(d) for d in v.defaults):
                    self.class_cache[key] = v
        elif isinstance(node, ast.ClassDef):
            key = (mod, attr)
            v = self.class_cache.get(key)
            if v is None:
                v = self.make_class(node, None, m)
                self.class_cache[key] = v
                return v
        elif isinstance(node, ast.Assign):
            val = self.eval(node.value, env)
            for t in node.targets:
                if isinstance(t, ast.Name):
                    if t.id == attr:
                        v = val
                else:
                    names = {}
                    self.assign_target(t, val, env)
                    v = env.vars.get(attr, MISSING)
        elif isinstance(node, ast.AnnAssign):
            v = self.eval(node.value, env)
        elif isinstance(node, ast.Import):
            for a in node.names:
                if a.asname == attr:
                    v = self.get_module(a.name)
                elif a.asname is None and a.name.split(".")[0] == attr:
                    v = self.get_module(attr)
        elif isinstance(node, ast.ImportFrom):
            src = self.import_name(m, node)
            for a in node.names:
                if (a.asname or a.name) == attr:
                    if isinstance(src, ModuleV) and src.name == mod and self.find_module(mod + "." + a.name) is not None:
                        v = ModuleV(mod + "." + a.name)
                    else:
                        v = self.getattr_(src, a.name)
        if v is MISSING:
            raise Unsupported(f"module attribute {mod}.{attr}")
        self.ctx.jdict(vals, attr, v)
        return v

    def has_module_attr(self, mod, attr):
        m = self.find_module(mod)
        if m is None:
            return False
        if attr in m.defs:
            return True
        return any(self.has_module_attr(s.name, attr) for n in m.defs.get("*", [])
                   for s in [self.import_name(m, n)] if isinstance(s, ModuleV))

    def import_name(self, m, node):
        if node.level:
            parts = m.name.split(".")
            if not m.is_pkg:
                parts = parts[:-1]
            parts = parts[:len(parts) - (node.level - 1)]
            name = ".".join(parts + ([node.module] if node.module else []))
        else:
            name = node.module
        return self.get_module(name)

    # ================================================================== environments
    def lookup(self, name, env):
        e = env
        while e is not None:
            if name in e.vars:
                v = e.vars[name]
                if isinstance(v, Poison):
                    raise Unsupported(f"variable {name}: {v.why}")
                return v
            if name in e.locals_ and name not in e.globals_ and name not in e.nonlocals:
                self.raise_(ExcV(UnboundLocalError, (name,)))
            if e.parent is None:
                mod = e.module
                break
            e = e.parent
        else:
            mod = env.module
        if mod is not None:
            vals = self.modvals.get(mod.name, {})
            if name in vals or name in mod.defs or (mod.name + "." + name) in self.hooks or "*" in mod.defs:
                v = self.module_attr(mod.name, name, None)
                if v is not None or name in mod.defs:
                    return v
        if name in self.ext:
            return self.ext[name]
        b = getattr(pyb, name, MISSING)
        if b is not MISSING:
            if isinstance(b, type):
                return b
            if conc(b):
                return b
            return ExtV("builtins." + name)
        if name in ("__name__", "__file__"):
            return self.module_attr(mod.name, name)
        self.raise_(ExcV(NameError, (name,)))

    def setvar(self, env, name, value):
        if name in env.globals_:
            vals = self.modvals.setdefault(env.module.name, {})
            self.log_write(("dictvar", vals, name))
            self.ctx.jdict(vals, name, value)
            return
        if name in env.nonlocals:
            e = env.parent
            while e is not None and name not in e.vars and name not in e.locals_:
                e = e.parent
            env = e
        if isinstance(value, Heap) and env.vars.get(name) is value:
            return
        self.log_write(("env", env, name))
        self.ctx.jdict(env.vars, name, value)

    writes = None

    def log_write(self, loc):
        if self.writes is not None:
            self.writes.append(loc)

    def hset(self, obj, attr, new):
        """Journaled and logged write of a heap object's state."""
        self.log_write(("heap", obj, attr))
        self.ctx.jset(obj, attr, new)

    # ================================================================== exceptions
    def raise_(self, exc):
        raise PyRaise(exc)

    def pyraise(self, cls, *args):
        raise PyRaise(ExcV(cls, args))

    # ================================================================== functions and classes
    def make_func(self, node, env, module, qualname, cls=None):
        menv = env if env is not None else Env(None, module)
        decos = []
        if not isinstance(node, ast.Lambda):
            for d in node.decorator_list:
                dn = ast.unparse(d)
                decos.append(dn)
            if any(d in ("overload", "typing.overload") for d in decos):
                return None
        a = node.args
        defaults = tuple(self.eval(d, menv) for d in a.defaults)
        kwd = tuple(self.eval(d, menv) if d is not None else MISSING for d in a.kw_defaults)
        f = FuncV(node, env, module, qualname, cls, defaults, kwd)
        f.deco = decos
        v = f
        if not isinstance(node, ast.Lambda):
            for d in reversed(node.decorator_list):
                dn = ast.unparse(d)
                if dn.split("(")[0] in ("functools.wraps", "wraps") and isinstance(d, ast.Call) and isinstance(v, FuncV):
                    w = self.eval(d.args[0], menv)
                    if isinstance(w, FuncV):
                        v.attrs = dict(w.attrs, __name__=self.getattr_(w, "__name__"))
                if dn in ("staticmethod", "classmethod", "property", "abstractmethod", "contextproperty", "functools.wraps",
                          "abc.abstractmethod", "uf", "no_type_check") or dn.endswith(".setter") or dn.split("(")[0] in (
                              "functools.wraps", "wraps", "uf", "deprecated", "pulumi.getter", "getter", "lemma"):
                    continue
                dv = self.eval(d, menv)
                v = self.call(dv, [v], {})
        return v

    def local_names(self, node):
        cached = getattr(node, "_pyvc_locals", None)
        if cached is not None:
            return cached
        names = set()
        a = node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            names.add(x.arg)
        if a.vararg:
            names.add(a.vararg.arg)
        if a.kwarg:
            names.add(a.kwarg.arg)
        if not isinstance(node, ast.Lambda):
            def walk(n):
                for c in ast.iter_child_nodes(n):
                    if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                        names.add(c.name)
                        continue
                    if isinstance(c, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                        for w in ast.walk(c):
                            if isinstance(w, ast.NamedExpr):
                                names.add(w.target.id)
                        continue
                    if isinstance(c, ast.Name) and isinstance(c.ctx, (ast.Store, ast.Del)):
                        names.add(c.id)
                    if isinstance(c, ast.ExceptHandler) and c.name:
                        names.add(c.name)
                    if isinstance(c, (ast.Import, ast.ImportFrom)):
                        for al in c.names:
                            names.add(al.asname or al.name.split(".")[0])
                    walk(c)
            for st in node.body:
                walk(ast.Module(body=[st], type_ignores=[]))
        node._pyvc_locals = names
        return names

    def make_class(self, node, env, module):
        menv = env if env is not None else Env(None, module)
        bases = []
        for b in node.bases:
            try:
                bv = self.eval(b, menv)
            except Unsupported:
                bv = None
            if isinstance(bv, (ClassV, type)):
                bases.append(bv)
            elif isinstance(bv, ExtV) and bv.name in ("enum.Enum", "typing.NamedTuple", "enum.IntEnum"):
                bases.append(bv)
            elif isinstance(bv, ExtV) and bv.name.startswith("grpc"):
                bases.append(Exception)
        c = ClassV(node.name, module, node, bases, menv)
        cenv = Env(menv, module)
        for st in node.body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                dn = [ast.unparse(d) for d in st.decorator_list]
                if any(d == "overload" for d in dn):
                    continue
                if any(d.endswith(".setter") for d in dn):
                    c.attrs[st.name + ".setter"] = ("func", st)
                    continue
                c.attrs[st.name] = ("func", st)
            elif isinstance(st, ast.ClassDef):
                c.attrs[st.name] = ("class", st)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        c.attrs[t.id] = ("expr", st.value)
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                if st.value is not None:
                    c.attrs[st.target.id] = ("expr", st.value)
                c.fieldnames = (c.fieldnames or []) + [st.target.id]
        for b in bases:
            if isinstance(b, ExtV) and b.name in ("enum.Enum", "enum.IntEnum"):
                c.kindname = "enum"
            if isinstance(b, ExtV) and b.name == "typing.NamedTuple":
                c.kindname = "namedtuple"
            if isinstance(b, ClassV) and b.kindname:
                c.kindname = b.kindname
        for d in node.decorator_list:
            if "dataclass" in ast.unparse(d):
                c.kindname = "dataclass"
        return c

    def class_attr(self, c, name):
        """-> (owner, raw, decorators) or None"""
        for k in c.mro():
            if isinstance(k, ClassV) and name in k.attrs:
                a = k.attrs[name]
                if a[0] == "func":
                    key = (k.module.name, k.name, name, id(a[1]))
                    f = self.class_cache.get(key)
                    if f is None:
                        f = self.make_func(a[1], k.env if k.env.parent or k.env.vars else None, k.module,
                                           f"{k.module.name}.{k.name}.{name}", k)
                        if isinstance(f, FuncV) and all(conc(d) for d in f.defaults):
                            self.class_cache[key] = f
                    return k, f, [ast.unparse(d) for d in a[1].decorator_list]
                if a[0] == "class":
                    key = (k.module.name, k.name, name, id(a[1]))
                    cv = self.class_cache.get(key)
                    if cv is None:
                        cv = self.class_cache[key] = self.make_class(a[1], k.env, k.module)
                    return k, cv, []
                if a[0] == "expr":
                    if k.kindname == "enum" and not name.startswith("_"):
                        key = ("enum", k.module.name, k.name, name)
                        ev = self.class_cache.get(key)
                        if ev is None:
                            val = self.eval(a[1], k.env)
                            ev = ObjV(k, DictV((("set", "_value_", val), ("set", "value", val), ("set", "name", name))))
                            self.class_cache[key] = ev
                        return k, ev, []
                    return k, self.eval(a[1], k.env), []
                if a[0] == "value":
                    return k, a[1], []
        return None

    # ------------------------------------------------------------------ calls
    def bind_args(self, fn, args, kwargs, starkw=None):
        node = fn.node
        a = node.args
        params = [x.arg for x in a.posonlyargs + a.args]
        bound = {}
        pos = list(args)
        named = getattr(fn, "stands_for", None)      # a stand-in takes its arguments under the names the real function has
        if named and kwargs and not a.kwarg and any(k not in params and k not in [x.arg for x in a.kwonlyargs] for k in kwargs):
            kwargs = dict(kwargs)
            for p in named[len(pos):]:
                if p not in kwargs:
                    break
                pos.append(kwargs.pop(p))
        i = 0
        star = None
        for k, v in enumerate(pos):
            if isinstance(v, Star):
                star = k
                break
        if star is None:
            n = min(len(pos), len(params))
            for k in range(n):
                bound[params[k]] = pos[k]
            extra = pos[n:]
            if a.vararg:
                bound[a.vararg.arg] = tuple(extra)
            elif extra:
                self.pyraise(TypeError, f"{fn.qualname}() takes {len(params)} positional arguments but {len(pos)} were given")
        else:
            if len(params) > star or not a.vararg:
                raise Unsupported(f"symbolic *args passed to positional parameters of {fn.qualname}")
            for k in range(len(params)):
                bound[params[k]] = pos[k]
            segs = []
            for v in pos[len(params):]:
                if isinstance(v, Star):
                    segs.extend(v.segs)
                else:
                    segs.append(("el", v))
            bound[a.vararg.arg] = TupV(segs)
        extra_kw = {}
        names = params + [x.arg for x in a.kwonlyargs]
        posonly = {x.arg for x in a.posonlyargs}
        for k, v in kwargs.items():
            if k in names and k not in posonly:
                if k in bound:
                    self.pyraise(TypeError, f"{fn.qualname}() got multiple values for argument '{k}'")
                bound[k] = v
            else:
                extra_kw[k] = v
        if a.kwarg:
            ops = tuple(("set", k, v) for k, v in extra_kw.items())
            d = DictV(ops)
            if starkw is not None:
                d = DictV(tuple(starkw.ops) + ops)
            bound[a.kwarg.arg] = d
        else:
            if extra_kw:
                self.pyraise(TypeError, f"{fn.qualname}() got an unexpected keyword argument '{list(extra_kw)[0]}'")
            if starkw is not None:
                self.bind_starkw(fn, names, posonly, bound, starkw)
        nd = len(fn.defaults)
        for k, p in enumerate(params):
            if p not in bound:
                di = k - (len(params) - nd)
                if di >= 0:
                    bound[p] = fn.defaults[di]
                else:
                    self.pyraise(TypeError, f"{fn.qualname}() missing required argument: '{p}'")
        for k, x in enumerate(a.kwonlyargs):
            if x.arg not in bound:
                if fn.kw_defaults[k] is MISSING:
                    self.pyraise(TypeError, f"{fn.qualname}() missing keyword argument '{x.arg}'")
                bound[x.arg] = fn.kw_defaults[k]
        return bound

    def bind_starkw(self, fn, names, posonly, bound, starkw):
        """A symbolic ** argument passed to named parameters: each of its keys must be one of them."""
        if len(starkw.ops) != 1 or starkw.ops[0][0] != "base":
            raise Unsupported(f"symbolic **kwargs passed to {fn.qualname}")
        found = 0
        for p in names:
            if p in posonly:
                continue
            has, v = self.ops_lookup(starkw.ops, p)
            if has:
                if p in bound:
                    self.pyraise(TypeError, f"{fn.qualname}() got multiple values for argument '{p}'")
                bound[p] = v
                found += 1
        if not self.ctx.branch(self.dict_base(starkw.ops[0][1]).n == found, "no other keyword"):
            self.pyraise(TypeError, f"{fn.qualname}() got an unexpected keyword argument")

    def loop_inv(self, where, loc, value, seg):
        h = self.hooks.get("loop_inv")
        return h(self, where, loc, value, seg) if h is not None else None

    def while_inv(self, node, env):
        if self.invariants:
            key = self.loop_key(node, env)
            inv = self.invariants.get(key) or (self.invariants.get((env.module.name + ".*", "while")) if key is not None else None)
            if inv is not None:
                return lambda i, n, e: self.loops.inv_while(i, n, e, inv)
        h = self.hooks.get("while_inv")
        return h(self, node, env) if h is not None else None

    def exec_func(self, fn, bound):
        if fn.qualname == "asyncio.gather":
            out = ListV()
            self.loops.run_loop(self, bound["aws"].segs, lambda x: self.list_append(out, self.await_(x)), where="asyncio.gather")
            return out
        node = fn.node
        self.depth += 1
        if self.depth > 120:
            self.depth -= 1
            raise Unsupported(f"recursion without contract: {fn.qualname}")
        env = Env(fn.env, fn.module, fn, self.local_names(node))
        if fn.env is None:
            env.parent = None
        env.vars.update(bound)
        self.inlined.add(fn.qualname)
        self.callstack.append(fn.qualname)
        try:
            if isinstance(node, ast.Lambda):
                return self.eval(node.body, env)
            try:
                self.exec_block(node.body, env)
            except ReturnEx as r:
                return r.value
            return None
        finally:
            self.callstack.pop()
            self.depth -= 1

    def is_gen(self, node):
        c = getattr(node, "_pyvc_gen", None)
        if c is None:
            c = False
            if not isinstance(node, ast.Lambda):
                stack = list(node.body)
                while stack:
                    n = stack.pop()
                    if isinstance(n, (ast.Yield, ast.YieldFrom)):
                        c = True
                        break
                    if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
                        continue
                    stack.extend(ast.iter_child_nodes(n))
            node._pyvc_gen = c
        return c

    def call_func(self, fn, args, kwargs, starkw=None):
        bound = self.bind_args(fn, args, kwargs, starkw)
        node = fn.node
        is_async = isinstance(node, ast.AsyncFunctionDef)
        ct = self.contracts.get(fn.qualname)
        if ct is None and self.rec_contracts:
            for q, rc in self.rec_contracts.items():
                if fn.qualname == q or fn.qualname.startswith(q + "."):
                    def ct(i, bound, fn, rc=rc):
                        return rc(bound, fn) if fn.qualname in self.callstack else NotImplemented
        if is_async:
            def thunk():
                if ct is not None:
                    r = ct(self, bound, fn)
                    if r is not NotImplemented:
                        return r
                return self.exec_func(fn, bound)
            c = CoroV(thunk, fn.qualname)
            c.args = (self, fn, bound)
            if ct is not None:
                c.thunk = thunk
            return c
        if ct is not None:
            r = ct(self, bound, fn)
            if r is not NotImplemented:
                return r
        if self.is_gen(node):
            return self.gen_func(fn, bound)
        return self.exec_func(fn, bound)

    def gen_func(self, fn, bound):
        """Generator function: run eagerly, collecting yields (sound when the body's effects commute with the consumer)."""
        out = ListV()
        saved = self.ghost.get("yield")
        self.ghost["yield"] = out
        try:
            self.exec_func(fn, bound)
        finally:
            self.ghost["yield"] = saved
        return out

    def call(self, f, args, kwargs, starkw=None):
        ctx = self.ctx
        ctx.tick()
        if isinstance(f, FuncV):
            return self.call_func(f, args, kwargs, starkw)
        if isinstance(f, BoundV):
            if isinstance(f.fn, FuncV):
                return self.call_func(f.fn, [f.self_] + list(args), kwargs, starkw)
            return self.call(f.fn, [f.self_] + list(args), kwargs, starkw)
        if isinstance(f, BuiltinV):
            if starkw is not None:
                kwargs = dict(kwargs)
                kwargs["**"] = starkw
            return f.fn(self, list(args), kwargs)
        if isinstance(f, PartialV):
            kw = dict(f.kwargs)
            kw.update(kwargs)
            return self.call(f.fn, list(f.args) + list(args), kw, starkw)
        if isinstance(f, ClassV):
            return self.instantiate(f, args, kwargs, starkw)
        if isinstance(f, ExtV):
            m = self.ext_calls.get(f.name)
            if m is not None:
                return m(self, list(args), kwargs)
            m = self.ext.get(f.name)
            if m is not None and m is not f:
                return self.call(m, args, kwargs, starkw)
            raise Unsupported(f"call of unmodelled external function {f.name}")
        if isinstance(f, type):
            return self.call_type(f, args, kwargs, starkw)
        if isinstance(f, ObjV):
            ca = self.class_attr(f.cls, "__call__")
            if ca:
                return self.call_func(ca[1], [f] + list(args), kwargs, starkw)
        if isinstance(f, SV):
            if self.schema and self.known_kind(f.term) in (None, OBJ):
                for c in self.classes_of(f.term):
                    ca = self.class_attr(c, "__call__") if isinstance(c, ClassV) else None
                    if ca:
                        return self.call_func(ca[1], [f] + list(args), kwargs, starkw)
            h = self.hooks.get("call_symbolic")
            if h is not None:
                return h(self, f, args, kwargs)
            raise Unsupported("call of a symbolic callable")
        if isinstance(f, TypeOf):
            h = self.hooks.get("call_typeof")
            if h is not None:
                return h(self, f, args, kwargs, starkw)
        if f is None or conc(f):
            self.pyraise(TypeError, "object is not callable")
        raise Unsupported(f"call of {f!r}")

    def instantiate(self, c, args, kwargs, starkw=None):
        ct = self.contracts.get(f"{c.module.name}.{c.name}")
        if ct is not None:
            r = ct(self, dict(args=args, kwargs=kwargs), c)
            if r is not NotImplemented:
                return r
        if c.kindname == "enum":
            return self.enum_lookup(c, args[0])
        if c.kindname == "namedtuple":
            fields = c.fieldnames
            o = ObjV(c)
            vals = dict(zip(fields, args))
            vals.update(kwargs)
            for f in fields:
                if f not in vals:
                    ca = self.class_attr(c, f)
                    if ca is None:
                        self.pyraise(TypeError, f"missing argument {f}")
                    vals[f] = ca[1]
            o.fields = DictV(tuple(("set", f, vals[f]) for f in fields))
            return o
        pb = c.pybases()
        o = ObjV(c)
        ca = self.class_attr(c, "__init__")
        if ca is not None:
            self.call_func(ca[1], [o] + list(args), kwargs, starkw)
        elif c.kindname == "dataclass":
            fields = []
            for k in reversed(c.mro()):
                if isinstance(k, ClassV):
                    for f in (k.fieldnames or []):
                        if f not in fields:
                            fields.append(f)
            vals = dict(zip(fields, args))
            vals.update(kwargs)
            for f in fields:
                if f not in vals:
                    dca = self.class_attr(c, f)
                    if dca is None:
                        self.pyraise(TypeError, f"missing argument {f}")
                    vals[f] = dca[1]
            o.fields.ops = tuple(("set", f, vals[f]) for f in fields)
        elif any(issubclass(b, BaseException) for b in pb):
            o.fields.ops = (("set", "args", tuple(args)),)
        elif args or kwargs:
            self.pyraise(TypeError, f"{c.name}() takes no arguments")
        return o

    def enum_lookup(self, c, val):
        h = self.hooks.get("enum_lookup")
        if h is not None:
            r = h(self, c, val)
            if r is not NotImplemented:
                return r
        for n, a in c.attrs.items():
            if a[0] == "expr" and not n.startswith("_"):
                m = self.class_attr(c, n)[1]
                if self.truthy(self.eq(self.dict_get_known(m.fields, "_value_"), val)):
                    return m
        self.pyraise(ValueError, "not a valid enum value")

    def dict_get_known(self, d, key):
        for op in reversed(d.ops):
            if op[0] == "set" and op[1] == key:
                return op[2]
        return MISSING

    # ================================================================== statements
    def exec_block(self, body, env):
        for st in body:
            self.exec(st, env)

    def exec(self, n, env):
        m = getattr(self, "st_" + type(n).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(n).__name__} at {env.module.name}:{n.lineno}")
        return m(n, env)

    def st_Expr(self, n, env):
        if isinstance(n.value, ast.Constant):
            return
        self.eval(n.value, env)

    def st_Pass(self, n, env):
        pass

    def st_Return(self, n, env):
        raise ReturnEx(self.eval(n.value, env) if n.value is not None else None)

    def st_Assign(self, n, env):
        v = self.eval(n.value, env)
        for t in n.targets:
            self.assign_target(t, v, env)

    def st_AnnAssign(self, n, env):
        if n.value is not None:
            self.assign_target(n.target, self.eval(n.value, env), env)

    def st_AugAssign(self, n, env):
        t = n.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, env)
            store = lambda v: self.setvar(env, t.id, v)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, env)
            cur = self.getattr_(o, t.attr)
            store = lambda v: self.setattr_(o, t.attr, v)
        else:
            o = self.eval(t.value, env)
            k = self.eval(t.slice, env)
            cur = self.getitem(o, k)
            store = lambda v: self.setitem(o, k, v)
        rhs = self.eval(n.value, env)
        cur = self.thaw(cur) if isinstance(cur, SV) else cur
        if isinstance(cur, ListV) and isinstance(n.op, ast.Add):
            self.hset(cur, "segs", cur.segs + tuple(self.segments(rhs)))
            store(cur)
            return
        if isinstance(cur, SetV) and isinstance(n.op, ast.BitOr):
            self.set_update(cur, rhs)
            store(cur)
            return
        store(self.binop(n.op, cur, rhs))

    def assign_target(self, t, v, env):
        if isinstance(t, ast.Name):
            self.setvar(env, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            segs = self.segments(v)
            n = len(t.elts)
            if any(isinstance(e, ast.Starred) for e in t.elts):
                k = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)][0]
                if any(s[0] != "el" for s in segs):
                    raise Unsupported("starred unpacking of symbolic sequence")
                vals = [s[1] for s in segs]
                after = n - k - 1
                if len(vals) < n - 1:
                    self.pyraise(ValueError, "not enough values to unpack")
                for i in range(k):
                    self.assign_target(t.elts[i], vals[i], env)
                self.assign_target(t.elts[k].value, ListV([("el", x) for x in vals[k:len(vals) - after]]), env)
                for i in range(after):
                    self.assign_target(t.elts[k + 1 + i], vals[len(vals) - after + i], env)
                return
            if any(s[0] != "el" for s in segs):
                ln = self.len_(v)
                if not self.truthy(self.eq(ln, n)):
                    self.pyraise(ValueError, "unpack length mismatch")
                vals = [self.getitem(v, i) for i in range(n)]
            else:
                vals = [s[1] for s in segs]
                if len(vals) != n:
                    self.pyraise(ValueError, "unpack length mismatch")
            for e, x in zip(t.elts, vals):
                self.assign_target(e, x, env)
        elif isinstance(t, ast.Attribute):
            self.setattr_(self.eval(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, env)
            k = self.eval(t.slice, env)
            self.setitem(o, k, v)
        else:
            raise Unsupported(f"assignment target {type(t).__name__}")

    def st_Delete(self, n, env):
        for t in n.targets:
            if isinstance(t, ast.Subscript):
                self.delitem(self.eval(t.value, env), self.eval(t.slice, env))
            elif isinstance(t, ast.Name):
                self.setvar(env, t.id, Poison("deleted"))
            else:
                raise Unsupported("del")

    def st_If(self, n, env):
        m = self.one_target(n)
        if m is not None:
            target, a, b = m
            c = self.truth(self.eval(n.test, env))
            if not isinstance(c, bool):
                c = z3.simplify(c)
                if not z3.is_true(c) and not z3.is_false(c):
                    try:
                        x, y = self.eval(a, env), self.eval(b, env)
                    except (Unsupported, PyRaise):
                        x = y = MISSING
                    if all(v is None or isinstance(v, SV) for v in (x, y)):
                        self.assign_target(target, SV(z3.If(c, self.reify(x), self.reify(y))), env)
                        return
                    c = SB(c)
                else:
                    c = z3.is_true(c)
            self.exec_block(n.body if self.truthy(c, label=f"{env.module.name.split('.')[-1]}:{n.lineno} if") else n.orelse, env)
            return
        if self.truthy(self.eval(n.test, env), label=f"{env.module.name.split('.')[-1]}:{n.lineno} if"):
            self.exec_block(n.body, env)
        else:
            self.exec_block(n.orelse, env)

    def one_target(self, n):
        """if c: t = a [else: t = b], like t = a if c else b."""
        m = getattr(n, "_pyvc_one", MISSING)
        if m is MISSING:
            m = None
            both = [n.body, n.orelse] if n.orelse else [n.body]
            if all(len(b) == 1 and isinstance(b[0], ast.Assign) and len(b[0].targets) == 1 and self.simple_expr(b[0].value) for b in both):
                ts = [b[0].targets[0] for b in both]
                t = ts[0]
                if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and all(ast.dump(x) == ast.dump(t) for x in ts):
                    old = ast.copy_location(ast.Attribute(t.value, t.attr, ast.Load()), t)
                    m = t, n.body[0].value, n.orelse[0].value if n.orelse else old
            n._pyvc_one = m
        return m

    def st_While(self, n, env):
        count = 0
        from .loops import while_loop
        while_loop(self, n, env)

    def st_For(self, n, env):
        it = self.eval(n.iter, env)

        def body(elem):
            self.assign_target(n.target, elem, env)
            try:
                self.exec_block(n.body, env)
            except ContinueEx:
                pass

        inv = self.invariants.get(self.loop_key(n, env)) if self.invariants else None
        if inv is not None:
            return self.loops.inv_for(self, n, env, self.iter_segments(it), body, inv)
        r = self.loops.run_loop(self, self.iter_segments(it), body, where=f"{env.module.name}:{n.lineno}", node=n, env=env)
        if r != "break":
            self.exec_block(n.orelse, env)

    def loop_key(self, n, env):
        """(qualified name of the enclosing function, ordinal of the loop in it)"""
        e = env
        while e is not None and e.fn is None:
            e = e.parent
        if e is None:
            return None
        k = 0
        stack = list(reversed(e.fn.node.body)) if not isinstance(e.fn.node, ast.Lambda) else []
        while stack:
            c = stack.pop()
            if c is n:
                return (e.fn.qualname, k)
            if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
                continue
            if isinstance(c, (ast.For, ast.While, ast.AsyncFor)):
                k += 1
            stack.extend(reversed(list(ast.iter_child_nodes(c))))
        return None

    def st_Break(self, n, env):
        raise BreakEx()

    def st_Continue(self, n, env):
        raise ContinueEx()

    def st_Assert(self, n, env):
        if not self.truthy(self.eval(n.test, env)):
            self.pyraise(AssertionError)

    def st_Raise(self, n, env):
        if n.exc is None:
            cur = self.ghost.get("handling")
            if cur:
                raise PyRaise(cur[-1])
            self.pyraise(RuntimeError, "No active exception")
        e = self.eval(n.exc, env)
        if isinstance(e, type) and issubclass(e, BaseException):
            e = ExcV(e, ())
        elif isinstance(e, ClassV):
            e = self.instantiate(e, [], {})
        if n.cause is not None:
            self.eval(n.cause, env)
        raise PyRaise(e)

    def st_Try(self, n, env):
        try:
            try:
                self.exec_block(n.body, env)
            except PyRaise as e:
                for h in n.handlers:
                    if h.type is None:
                        match = True
                    else:
                        match = self.truthy(self.isinstance_(e.exc, self.eval(h.type, env)))
                    if match:
                        if h.name:
                            self.setvar(env, h.name, e.exc)
                        hs = self.ghost.setdefault("handling", [])
                        hs.append(e.exc)
                        try:
                            self.exec_block(h.body, env)
                        finally:
                            hs.pop()
                        break
                else:
                    raise
            else:
                self.exec_block(n.orelse, env)
        except (PyRaise, ReturnEx, BreakEx, ContinueEx):
            self.exec_block(n.finalbody, env)
            raise
        else:
            self.exec_block(n.finalbody, env)

    def st_With(self, n, env):
        def go(items):
            if not items:
                self.exec_block(n.body, env)
                return
            it = items[0]
            cm = self.eval(it.context_expr, env)
            h = getattr(cm, "cm_kind", None)
            if isinstance(cm, ObjV) and h is None:
                ent = self.class_attr(cm.cls, "__enter__")
                if ent is None:
                    raise Unsupported("context manager")
                v = self.call_func(ent[1], [cm], {})
                if it.optional_vars is not None:
                    self.assign_target(it.optional_vars, v, env)
                try:
                    go(items[1:])
                except PyRaise as e:
                    if not self.truthy(self.call_func(self.class_attr(cm.cls, "__exit__")[1], [cm, None, e.exc, None], {})):
                        raise
                    return
                self.call_func(self.class_attr(cm.cls, "__exit__")[1], [cm, None, None, None], {})
                return
            if h == "suppress":
                try:
                    go(items[1:])
                except PyRaise as e:
                    for t in cm.types:
                        if self.truthy(self.isinstance_(e.exc, t)):
                            return
                    raise
                return
            if h == "null":
                if it.optional_vars is not None:
                    self.assign_target(it.optional_vars, cm.value, env)
                go(items[1:])
                return
            raise Unsupported(f"with {ast.unparse(it.context_expr)}")
        go(n.items)

    st_AsyncWith = st_With

    def st_FunctionDef(self, n, env):
        f = self.make_func(n, env, env.module, f"{self.qual(env)}.{n.name}")
        if f is not None:
            self.setvar(env, n.name, f)

    st_AsyncFunctionDef = st_FunctionDef

    def qual(self, env):
        e = env
        while e is not None:
            if e.fn is not None:
                return e.fn.qualname + ".<locals>"
            e = e.parent
        return env.module.name

    def st_ClassDef(self, n, env):
        self.setvar(env, n.name, self.make_class(n, env, env.module))

    def st_Import(self, n, env):
        for a in n.names:
            if a.asname:
                self.setvar(env, a.asname, self.get_module(a.name))
            else:
                self.setvar(env, a.name.split(".")[0], self.get_module(a.name.split(".")[0]))

    def st_ImportFrom(self, n, env):
        src = self.import_name(env.module, n)
        for a in n.names:
            self.setvar(env, a.asname or a.name, self.getattr_(src, a.name))

    def st_Global(self, n, env):
        env.globals_ = tuple(env.globals_) + tuple(n.names)

    def st_Nonlocal(self, n, env):
        env.nonlocals = tuple(env.nonlocals) + tuple(n.names)

    # ================================================================== expressions
    def eval(self, n, env):
        m = getattr(self, "ex_" + type(n).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(n).__name__}")
        return m(n, env)

    def ex_Constant(self, n, env):
        return n.value

    def ex_Name(self, n, env):
        return self.lookup(n.id, env)

    def ex_Attribute(self, n, env):
        return self.getattr_(self.eval(n.value, env), n.attr)

    def ex_Await(self, n, env):
        return self.await_(self.eval(n.value, env))

    def ex_NamedExpr(self, n, env):
        v = self.eval(n.value, env)
        e = env
        while e.fn is None and e.parent is not None:
            e = e.parent
        self.setvar(e, n.target.id, v)
        return v

    def ex_Yield(self, n, env):
        out = self.ghost.get("yield")
        if out is None:
            raise Unsupported("yield")
        v = self.eval(n.value, env) if n.value is not None else None
        self.list_append(out, v)
        return None

    def ex_YieldFrom(self, n, env):
        out = self.ghost.get("yield")
        v = self.eval(n.value, env)
        self.hset(out, "segs", out.segs + tuple(self.segments(v)))

    def ex_Lambda(self, n, env):
        return self.make_func(n, env, env.module, f"{self.qual(env)}.<lambda>")

    def simple_expr(self, n):
        """Side-effect free and total: a name, a constant, or an attribute chain."""
        while isinstance(n, ast.Attribute):
            n = n.value
        return isinstance(n, (ast.Name, ast.Constant))

    def ex_IfExp(self, n, env):
        if self.simple_expr(n.body) and self.simple_expr(n.orelse):
            c = self.truth(self.eval(n.test, env))
            if not isinstance(c, bool):
                c = z3.simplify(c)
                if z3.is_true(c) or z3.is_false(c):
                    return self.eval(n.body if z3.is_true(c) else n.orelse, env)
                try:
                    a, b = self.eval(n.body, env), self.eval(n.orelse, env)
                except (Unsupported, PyRaise):
                    a = b = MISSING        # only one of the sides makes sense: branch
                if all(x is None or isinstance(x, SV) for x in (a, b)):
                    return SV(z3.If(c, self.reify(a), self.reify(b)))
            elif True:
                return self.eval(n.body if c else n.orelse, env)
        if self.truthy(self.eval(n.test, env), label=f"{env.module.name.split('.')[-1]}:{n.lineno} ifexp"):
            return self.eval(n.body, env)
        return self.eval(n.orelse, env)

    def ex_BoolOp(self, n, env):
        isand = isinstance(n.op, ast.And)
        v = None
        for i, x in enumerate(n.values):
            v = self.eval(x, env)
            if i == len(n.values) - 1:
                return v
            if isinstance(v, SB) and i == len(n.values) - 2 and False:
                pass
            t = self.truthy(v)
            if isand and not t:
                return False if isinstance(v, SB) else v
            if not isand and t:
                return True if isinstance(v, SB) else v
        return v

    def ex_UnaryOp(self, n, env):
        v = self.eval(n.operand, env)
        if isinstance(n.op, ast.Not):
            t = self.truth(v)
            return (not t) if isinstance(t, bool) else SB(z3.Not(t))
        if isinstance(n.op, ast.USub):
            v = self.norm(v)
            if isinstance(v, (int, float)):
                return -v
            if isinstance(v, SI):
                return SI(-v.e)
            if isinstance(v, SR):
                return SR(-v.e)
        raise Unsupported("unary op")

    def ex_BinOp(self, n, env):
        return self.binop(n.op, self.eval(n.left, env), self.eval(n.right, env))

    def ex_Compare(self, n, env):
        left = self.eval(n.left, env)
        res = None
        for i, (op, rn) in enumerate(zip(n.ops, n.comparators)):
            right = self.eval(rn, env)
            r = self.compare(op, left, right)
            if i == len(n.ops) - 1:
                return r
            if not self.truthy(r):
                return False
            left = right
        return res

    def ex_Call(self, n, env):
        # typing.cast(x, v): only v is evaluated
        if isinstance(n.func, ast.Name) and n.func.id == "cast" and len(n.args) == 2:
            return self.eval(n.args[1], env)
        if isinstance(n.func, ast.Name) and n.func.id == "super" and not n.args:
            return self.super_(env)
        if isinstance(n.func, ast.Name) and n.func.id == "locals" and not n.args and not n.keywords and env.fn is not None:
            return DictV(tuple(("set", k, v) for k, v in env.vars.items() if isinstance(k, str)))
        f = self.eval(n.func, env)
        if f is set and len(n.args) == 1 and not n.keywords and isinstance(n.args[0], ast.Call) and isinstance(n.args[0].func, ast.Name) \
                and n.args[0].func.id == "map" and len(n.args[0].args) == 2 and not n.args[0].keywords and not any(isinstance(x, ast.Starred) for x in n.args[0].args) \
                and self.eval(n.args[0].func, env) is map:
            g, xs = [self.eval(x, env) for x in n.args[0].args]
            out = SetV()
            self.loops.run_loop(self, self.elements(xs), lambda x: self.set_add(out, self.call(g, [x], {})), where="map")
            return out
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                segs = self.segments(self.eval(a.value, env))
                if all(s[0] == "el" for s in segs):
                    args.extend(s[1] for s in segs)
                else:
                    args.append(Star(segs))
            else:
                args.append(self.eval(a, env))
        kwargs = {}
        starkw = None
        for k in n.keywords:
            if k.arg is None:
                d = self.eval(k.value, env)
                d = self.norm(d)
                if isinstance(d, SV):
                    k = self.kind_of(d, [DICT, NONE, BOOL, INT, FLOAT, STR, LIST])
                    if k == DICT:
                        d = DictV((("base", d.term),))
                    elif k is not None:
                        self.pyraise(TypeError, "argument after ** must be a mapping")
                elif d is None or isinstance(d, (bool, int, float, str, SS, ListV)):
                    self.pyraise(TypeError, "argument after ** must be a mapping")
                if not isinstance(d, DictV):
                    raise Unsupported("** of non-dict")
                if all(o[0] == "set" and isinstance(o[1], str) for o in d.ops):
                    for o in d.ops:
                        kwargs[o[1]] = o[2]
                else:
                    self.check_str_keys(d)
                    starkw = d
            else:
                kwargs[k.arg] = self.eval(k.value, env)
        return self.call(f, args, kwargs, starkw)

    def check_str_keys(self, d):
        """** unpacking raises TypeError when some key is not a string."""
        for o in d.ops:
            if o[0] == "base":
                self.forall_keys_str(o[1])
            elif o[0] == "set" and not isinstance(self.norm(o[1]), (str, SS)):
                self.pyraise(TypeError, "keywords must be strings")

    def forall_keys_str(self, d):
        ctx = self.ctx
        base = self.dict_base(d)
        allstr = ctx.fresh("allstr", B)
        w = ctx.fresh("wkey", I)
        if ctx.branch(allstr):
            ctx.add_univ(Univ(base, lambda j: ([z3.Implies(z3.And(0 <= j, j < base.n), kind(f_key(d, j)) == STR)], [], [])))
        else:
            ctx.fact(z3.And(0 <= w, w < base.n, kind(f_key(d, w)) != STR))
            ctx.register_index(base, w)
            if ctx.check() == z3.unsat:
                raise PathDead()
            self.pyraise(TypeError, "keywords must be strings")

    def super_(self, env):
        e = env
        while e is not None and (e.fn is None or e.fn.cls is None):
            e = e.parent
        fn = e.fn
        a = fn.node.args
        self_ = e.vars[(a.posonlyargs + a.args)[0].arg]
        return BuiltinSuper(fn.cls, self_)

    def ex_Starred(self, n, env):
        raise Unsupported("starred expression")

    def ex_List(self, n, env):
        return ListV(self.elts(n.elts, env))

    def elts(self, elts, env):
        segs = []
        for e in elts:
            if isinstance(e, ast.Starred):
                segs.extend(self.segments(self.eval(e.value, env)))
            else:
                segs.append(("el", self.eval(e, env)))
        return segs

    def ex_Tuple(self, n, env):
        return self.mktuple(self.elts(n.elts, env))

    def mktuple(self, segs):
        if all(s[0] == "el" for s in segs):
            return tuple(s[1] for s in segs)
        return TupV(segs)

    def ex_Set(self, n, env):
        if any(isinstance(e, ast.Starred) for e in n.elts):
            r = SetV(())
            for e in n.elts:
                if isinstance(e, ast.Starred):
                    self.set_update(r, self.eval(e.value, env))
                else:
                    self.set_add(r, self.eval(e, env))
            return r
        return SetV(tuple(("el", self.eval(e, env)) for e in n.elts))

    def ex_Dict(self, n, env):
        d = DictV()
        for k, v in zip(n.keys, n.values):
            if k is None:
                o = self.norm(self.eval(v, env))
                self.dict_update(d, o)
            else:
                kk = self.eval(k, env)
                d.ops = d.ops + (("set", kk, self.eval(v, env)),) if not self._has_conc_key(d, kk) else self._replace(d, kk, self.eval(v, env))
        return d

    def _has_conc_key(self, d, k):
        return conc(k) and any(o[0] == "set" and conc(o[1]) and o[1] == k for o in d.ops)

    def _replace(self, d, k, v):
        return tuple(("set", o[1], v) if (o[0] == "set" and conc(o[1]) and o[1] == k) else o for o in d.ops)

    def ex_JoinedStr(self, n, env):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.eval(v.value, env)
                if v.format_spec is not None or v.conversion == ord("r"):
                    parts.append(self.opaque_str("fmt_r", x))
                else:
                    parts.append(self.str_(x, lenient=True))
        return self.concat(parts)

    def concat(self, parts):
        out = []
        for p in parts:
            if isinstance(p, str):
                if p == "":
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] += p
                else:
                    out.append(p)
            else:
                out.append(p)
        if not out:
            return ""
        if len(out) == 1:
            return out[0]
        return SS(z3.Concat(*[z3.StringVal(p) if isinstance(p, str) else p.e for p in out]))

    def opaque_str(self, tag, x):
        try:
            t = self.reify(x)
        except Unsupported:
            return SS(self.ctx.fresh(tag, S))
        return SS(ufunc("str_" + tag, V, S)(t))

    def str_(self, x, lenient=False):
        x = self.norm(x)
        if isinstance(x, str):
            return x
        if isinstance(x, (bool, int, float)) or x is None:
            return str(x)
        if isinstance(x, SS):
            return x
        if isinstance(x, SI):
            return SS(z3.IntToStr(x.e)) if self.ctx.entails(x.e >= 0) else SS(ufunc("str_int", I, S)(x.e))
        if isinstance(x, SB):
            return "True" if self.truthy(x) else "False"
        if isinstance(x, ExcV) and len(x.args) == 1:
            return self.str_(x.args[0])
        if isinstance(x, ObjV):
            ca = self.class_attr(x.cls, "__str__") or (None if lenient else None)
            if ca is not None:
                return self.call_func(ca[1], [x], {})
            ca = self.class_attr(x.cls, "__repr__")
            if ca is not None:
                return self.call_func(ca[1], [x], {})
        if isinstance(x, SV):
            t = x.term
            # str(x): identity on strings, opaque otherwise
            return SS(z3.If(kind(t) == STR, f_s(t), ufunc("str_of", V, S)(t)))
        return self.opaque_str("of", x)

    def ex_FormattedValue(self, n, env):
        return self.str_(self.eval(n.value, env))

    def ex_Subscript(self, n, env):
        o = self.eval(n.value, env)
        if isinstance(o, ExtV) and o.name in GENERICS:
            a = self.eval(n.slice, env)
            a = a if isinstance(a, tuple) else (a,)
            a = tuple(None if x is None else x for x in a)
            return GenericV("typing.Union", a + (type(None),)) if o.name == "typing.Optional" else GenericV(o.name, a)
        if isinstance(o, (ExtV, ClassV)) or (isinstance(o, type)):
            return o   # generic alias in an expression: typing only
        if isinstance(n.slice, ast.Slice):
            s = n.slice
            return self.slice_(o, *[self.eval(x, env) if x is not None else None for x in (s.lower, s.upper, s.step)])
        return self.getitem(o, self.eval(n.slice, env))

    def ex_ListComp(self, n, env):
        out = ListV()
        self.comp(n.generators, env, lambda e: self.list_append(out, self.eval(n.elt, e)))
        return out

    def ex_SetComp(self, n, env):
        out = SetV()
        self.comp(n.generators, env, lambda e: self.set_add(out, self.eval(n.elt, e)), as_set=True)
        return out

    def ex_DictComp(self, n, env):
        out = DictV()

        def emit(e):
            k = self.eval(n.key, e)
            self.setitem(out, k, self.eval(n.value, e))
        self.comp(n.generators, env, emit)
        return out

    def ex_GeneratorExp(self, n, env):
        return GenV(n, env)

    def elements(self, v):
        """The elements of a collection, in any order and possibly several times (for building sets)."""
        v = self.norm(v)
        if isinstance(v, SetV) and all(p[0] in ("el", "sym") for p in v.parts) and any(p[0] == "sym" for p in v.parts):
            return v.parts
        return self.iter_segments(v)

    def comp(self, gens, env, emit, as_set=False):
        """Runs comprehension clauses; the first iterable is evaluated in the enclosing scope."""
        def rec(i, e):
            if i == len(gens):
                emit(e)
                return
            g = gens[i]
            it = self.eval(g.iter, e)

            def body(elem):
                e2 = Env(e, env.module)
                self.assign_target(g.target, elem, e2)
                for c in g.ifs:
                    if not self.truthy(self.eval(c, e2)):
                        return
                rec(i + 1, e2)
            self.loops.run_loop(self, (self.elements if as_set else self.iter_segments)(it), body, where=f"{env.module.name}:{g.iter.lineno} comprehension")
        rec(0, Env(env, env.module))

    # ================================================================== awaiting
    def await_(self, v):
        v = self.norm(v)
        if isinstance(v, CoroV):
            return v.thunk()
        if isinstance(v, FutV):
            return self.await_fut(v)
        if isinstance(v, SV):
            k = self.kind_of(v, [FUT])
            if k == FUT:
                return self.sym_await(v)
            self.pyraise(TypeError, "object can't be used in 'await' expression")
        if isinstance(v, ObjV):
            ca = self.class_attr(v.cls, "pv_await")          # (of the contracts' own awaitables)
            if ca is not None:
                return self.call(self.getattr_(v, "pv_await"), [], {})
            ca = self.class_attr(v.cls, "__await__")
            if ca is not None:
                raise Unsupported("__await__ object")
        if isinstance(v, ListV) and getattr(v, "gathered", False):
            return v
        self.pyraise(TypeError, "object can't be used in 'await' expression")

    def sym_await(self, v):
        t = v.term
        if self.exc_ok:
            fails = ufunc("fut_fails", V, B)(t)
            if self.ctx.branch(fails, "future fails"):
                e = SV(ufunc("fut_exc", V, V)(t))
                self.ctx.fact(kind(e.term) == OBJ)
                self.ctx.fact(ufunc("isa_py_Exception", V, B)(e.term))
                raise PyRaise(e)
        r = SV(ufunc("fut_val", V, V)(t))
        h = self.hooks.get("fut_val")
        if h is not None:
            h(self, t, r)
        return r

    def await_fut(self, f):
        st = f.state
        if st[0] == "ok":
            return st[1]
        if st[0] == "exc":
            raise PyRaise(st[1])
        if st[0] == "task":
            self.run_task(f)
            return self.await_fut(f)
        if st[0] == "running":
            self.ctx.fail("no-deadlock", "a task awaits itself")
            raise PathDead()
        # pending: let the scheduled tasks run
        while f.state[0] == "pending":
            t = next((t for t in self.tasks if t.state[0] == "task"), None)
            if t is None:
                self.ctx.fail("no-deadlock", "await on a future that nothing resolves")
                raise PathDead()
            self.run_task(t)
        return self.await_fut(f)

    def run_task(self, f):
        co = f.state[1]
        # a task made by an iteration of an earlier loop: its run is part of what reads it, the summary keeps the unstarted task
        put = self.hset if getattr(f, "origin", None) is None else self.ctx.jset
        put(f, "state", ("running",))
        try:
            v = co.thunk() if isinstance(co, CoroV) else self.await_(co)
        except PyRaise as e:
            put(f, "state", ("exc", e.exc))
            return
        put(f, "state", ("ok", v))

    def drain(self):
        while True:
            t = next((t for t in self.tasks if t.state[0] == "task"), None)
            if t is None:
                return
            self.run_task(t)


def _call_type(self, f, args, kwargs, starkw=None):
    from . import lib
    return lib.call_type(self, f, args, kwargs, starkw)


Interp.call_type = _call_type


class BuiltinSuper:
    def __init__(self, cls, self_):
        self.cls, self.self_ = cls, self_


from . import ops as _ops  # noqa: E402  (adds value operations as methods)
_ops.install(Interp)
