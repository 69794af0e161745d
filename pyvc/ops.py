"""pyvc.ops: operations on meta-values (methods of Interp)."""
import ast
from .core import *
from .values import *
from . import strings

SAFE_TYPES = (type(None), bool, int, float, str, bytes)


def conc(v):
    return isinstance(v, SAFE_TYPES)


STR_METHODS = {"startswith", "endswith", "split", "upper", "lower", "strip", "replace", "join", "encode", "format", "rstrip",
               "lstrip", "isdigit", "partition", "rpartition", "rsplit", "find", "count", "isalnum", "title", "isspace",
               "splitlines", "removeprefix", "removesuffix", "index", "rfind", "rindex", "isnumeric", "capitalize"}
DICT_METHODS = {"items", "keys", "values", "get", "pop", "update", "setdefault", "copy", "clear"}
LIST_METHODS = {"append", "extend", "index", "insert", "pop", "reverse", "sort", "remove", "copy", "count", "clear"}
SET_METHODS = {"add", "update", "union", "discard", "remove", "difference", "intersection", "issubset", "copy", "pop"}


def install(cls):
    for k, v in list(globals().items()):
        if callable(v) and getattr(v, "__module__", None) == __name__ and k not in ("install", "conc"):
            setattr(cls, k, v)


# ---------------------------------------------------------------------------------- kinds
def known_kind(self, t):
    return self.kinds.get(t.get_id(), (None, None))[0]


def set_kind(self, t, k):
    """Record (as a fact of this path) that term t has kind k."""
    ctx = self.ctx
    if self.known_kind(t) == k:
        return
    ctx.jdict(self.kinds, t.get_id(), (k, t))
    self.canon(t, k)


def canon(self, t, k):
    ctx = self.ctx
    if k == NONE:
        ctx.fact(t == vNone)
    elif k == BOOL:
        ctx.fact(t == z3.If(f_b(t), vTrue, vFalse))
    elif k == STR:
        ctx.fact(mkS(f_s(t)) == t)
    elif k == INT:
        ctx.fact(mkI(f_i(t)) == t)
    elif k == FLOAT:
        ctx.fact(mkR(f_r(t)) == t)
    elif k in (LIST, TUPLE, DICT, SET, STRUCT, LISTVALUE, BYTES):
        ctx.fact(f_len(t) >= 0)


def kind_of(self, sv, cands, label=None):
    """Fork on the class of a symbolic value: returns one of cands, or None (some other class)."""
    t = sv.term
    k = self.known_kind(t)
    if k is not None:
        return k if k in cands else None
    conds = [kind(t) == c for c in cands] + [z3.And(*[kind(t) != c for c in cands])]
    if not hasattr(self, "_ranged"):
        self._ranged = set()
    if t.get_id() not in self._ranged or True:
        pass
    i = self.ctx.decide(conds, [f"kind({str(t)[:60]})={KINDS[c]}" for c in cands] + [f"kind({str(t)[:60]}) other"])
    if i < len(cands):
        self.set_kind(t, cands[i])
        return cands[i]
    return None


def norm(self, v):
    if isinstance(v, SV):
        tid = v.term.get_id()
        h = self.sheap.get(tid)
        if h is not None:
            return h[0]
        k = self.known_kind(v.term)
        if k is None:
            if v.term.eq(vNone):
                return None
            return v
        if k == NONE:
            return None
        if k == BOOL:
            return SB(f_b(v.term))
        if k == STR:
            return SS(f_s(v.term))
        if k == INT:
            return SI(f_i(v.term))
        if k == FLOAT:
            return SR(f_r(v.term))
        return v
    if isinstance(v, SB):
        if z3.is_true(v.f):
            return True
        if z3.is_false(v.f):
            return False
    if isinstance(v, SS) and z3.is_string_value(v.e):
        return v.e.as_string()
    if isinstance(v, SI) and z3.is_int_value(v.e):
        return v.e.as_long()
    return v


def thaw(self, v):
    """Heap object for a symbolic container about to be mutated (input containers are assumed pairwise distinct objects)."""
    if not isinstance(v, SV):
        return v
    n = self.norm(v)
    if not isinstance(n, SV):
        return n
    k = self.kind_of(v, [LIST, DICT, SET])
    t = v.term
    if k == LIST:
        h = ListV(self.segments(v))
    elif k == DICT:
        h = DictV((("base", t),))
    elif k == SET:
        h = SetV((("set", t),))
    else:
        return v
    h.birth = 0
    h.term = t
    self.ctx.jdict(self.sheap, t.get_id(), (h, t))
    return h


def typed(self, v, spec):
    """Assume that v satisfies a type specification (precondition / schema invariant)."""
    f, us = self.spec_formula(v.term if isinstance(v, SV) else self.reify(v), spec)
    if isinstance(v, SV) and isinstance(spec, tuple):
        self.ctx.jdict(self.specof, v.term.get_id(), (spec, v.term))
    self.ctx.fact(f)
    for u in us:
        self.ctx.add_univ(u)
    if isinstance(v, SV) and isinstance(spec, str):
        k = dict(str=STR, bool=BOOL, int=INT, float=FLOAT, none=NONE, list=LIST, dict=DICT, set=SET, fut=FUT, obj=OBJ,
                 struct=STRUCT, listvalue=LISTVALUE, func=FUNC, bytes=BYTES, tuple=TUPLE).get(spec)
        if k is not None:
            self.set_kind(v.term, k)
    if isinstance(v, SV) and isinstance(spec, tuple):
        k = dict(list=LIST, dict=DICT, set=SET, fut=FUT, obj=OBJ, tuple=TUPLE, struct=STRUCT, listvalue=LISTVALUE).get(spec[0])
        if k is not None:
            self.set_kind(v.term, k)
    return v


def spec_formula(self, t, spec):
    T = z3.BoolVal(True)
    if spec is None or spec == "any":
        return T, []
    if spec == "exc":
        return z3.And(kind(t) == OBJ, self.isa_formula(t, Exception), self.isa_formula(t, BaseException)), []
    if isinstance(spec, str):
        k = dict(str=STR, bool=BOOL, int=INT, float=FLOAT, none=NONE, list=LIST, dict=DICT, set=SET, fut=FUT, obj=OBJ,
                 struct=STRUCT, listvalue=LISTVALUE, func=FUNC, tuple=TUPLE, bytes=BYTES)[spec]
        extra = []
        if k == STR:
            extra.append(mkS(f_s(t)) == t)
        if k == BOOL:
            extra.append(t == z3.If(f_b(t), vTrue, vFalse))
        if k == NONE:
            extra.append(t == vNone)
        if k in (LIST, DICT, SET, TUPLE, STRUCT, LISTVALUE):
            extra.append(f_len(t) >= 0)
        return z3.And(kind(t) == k, *extra), []
    h = spec[0]
    if h == "list" or h == "tuple" or h == "listvalue":
        f0 = kind(t) == (LIST if h == "list" else TUPLE if h == "tuple" else LISTVALUE)
        base = Base("list", t, f_len(t))

        def inst(j):
            f, us = self.spec_formula(f_at(t, j), spec[1])
            g = z3.And(f0, 0 <= j, j < f_len(t))
            return [z3.Implies(g, f)], [u.subst([], g) if False else u for u in us], []
        return z3.And(f0, f_len(t) >= 0), [Univ(base, inst)]
    if h == "pair":
        f, us = self.spec_formula(t, ("tuple", spec[1]))
        return z3.And(f, f_len(t) == 2), us
    if h == "set":
        base = Base("list", t, f_len(t))

        def inst(j):
            f, us = self.spec_formula(f_at(t, j), spec[1])
            return [z3.Implies(z3.And(0 <= j, j < f_len(t)), f)], us, []
        return z3.And(kind(t) == SET, f_len(t) >= 0), [Univ(base, inst)]
    if h in ("dict", "struct"):
        base = Base("dict", t, f_len(t))
        f0 = kind(t) == (DICT if h == "dict" else STRUCT)

        def inst(j):
            fk, u1 = self.spec_formula(f_key(t, j), spec[1])
            fv, u2 = self.spec_formula(f_val(t, j), spec[2])
            return [z3.Implies(z3.And(f0, 0 <= j, j < f_len(t)), z3.And(fk, fv))], u1 + u2, []
        return z3.And(f0, f_len(t) >= 0), [Univ(base, inst)]
    if h == "opt":
        f, us = self.spec_formula(t, spec[1])
        return z3.Or(t == vNone, f), us
    if h == "or":
        fs = [self.spec_formula(t, s) for s in spec[1:]]
        return z3.Or(*[f for f, _ in fs]), [u for _, us in fs for u in us]
    if h == "obj":
        c = self.resolve_class(spec[1])
        return z3.And(kind(t) == OBJ, self.isa_formula(t, c)), []
    if h == "fut":
        f, us = self.spec_formula(ufunc("fut_val", V, V)(t), spec[1])
        return z3.And(kind(t) == FUT, f), us
    raise Unsupported(f"spec {spec}")


def resolve_class(self, name):
    mod, cls = name.rsplit(".", 1)
    if self.find_module(mod) is None and "." in mod:
        return self.class_attr(self.resolve_class(mod), cls)[1]
    return self.module_attr(mod, cls)


# ---------------------------------------------------------------------------------- reify
def decl_once(self, key, facts):
    if key not in self.ctx.declared:
        self.ctx.jadd(self.ctx.declared, key)
        for f in facts:
            self.ctx.fact(f)


def reify(self, v):
    ctx = self.ctx
    if isinstance(v, SV):
        return v.term
    if v is None:
        return vNone
    if isinstance(v, bool):
        return vTrue if v else vFalse
    if isinstance(v, str):
        v = SS(z3.StringVal(v))
    if isinstance(v, SS):
        e = v.e
        if e.decl().eq(f_s):
            return e.arg(0)
        t = mkS(e)
        self.decl_once(("S", t.get_id()), [f_s(t) == e, kind(t) == STR])
        ctx.declared.add(("keep", t))
        return t
    if isinstance(v, SB):
        if v.f.decl().eq(f_b):
            return v.f.arg(0)
        return z3.If(v.f, vTrue, vFalse)
    if isinstance(v, int):
        v = SI(z3.IntVal(v))
    if isinstance(v, SI):
        if v.e.decl().eq(f_i):
            return v.e.arg(0)
        t = mkI(v.e)
        self.decl_once(("I", t.get_id()), [f_i(t) == v.e, kind(t) == INT])
        ctx.declared.add(("keep", t))
        return t
    if isinstance(v, float):
        v = SR(z3.RealVal(v))
    if isinstance(v, SR):
        if v.e.decl().eq(f_r):
            return v.e.arg(0)
        t = mkR(v.e)
        self.decl_once(("R", t.get_id()), [f_r(t) == v.e, kind(t) == FLOAT])
        ctx.declared.add(("keep", t))
        return t
    if isinstance(v, tuple):
        f = ufunc(f"mkTup{len(v)}", *([V] * len(v)), V) if v else None
        if not v:
            t = z3.Const("emptytup", V)
            self.decl_once(("T0",), [kind(t) == TUPLE, f_len(t) == 0])
            return t
        parts = [self.reify(x) for x in v]
        t = f(*parts)
        self.decl_once(("T", t.get_id()), [kind(t) == TUPLE, f_len(t) == len(v)] + [f_at(t, z3.IntVal(i)) == p for i, p in enumerate(parts)])
        ctx.declared.add(("keep", t))
        return t
    if isinstance(v, Heap):
        if v.term is None:
            if isinstance(v, (FuncV, ClassV)) and (v.env is None or (v.env.parent is None and not v.env.vars)):
                # functions and classes at module level denote the same object everywhere
                t = z3.Const(f"def_{v.qualname if isinstance(v, FuncV) else v.module.name + '.' + v.name}", V)
            else:
                t = ctx.fresh("obj", V)
            ctx.jset(v, "term", t)
            k = {ListV: LIST, DictV: DICT, SetV: SET, ObjV: OBJ, FutV: FUT, CoroV: FUT, FuncV: FUNC, PartialV: FUNC,
                 ClassV: CLASS, ExcV: OBJ}.get(type(v))
            if k is not None:
                ctx.fact(kind(t) == k)
            if isinstance(v, ObjV):
                for c in v.cls.mro():
                    if isinstance(c, ClassV):
                        ctx.fact(self.isa_fn(c)(t))
            if isinstance(v, ListV):
                v_len = self.len_expr(v.segs)
                if v_len is not None:
                    ctx.fact(f_len(t) == v_len)
        return v.term
    if isinstance(v, BoundV):
        return ufunc("bound_" + repr(v.fn), V, V)(self.reify(v.self_))
    if isinstance(v, (type, ExtV, ModuleV)):
        nm = v.__name__ if isinstance(v, type) else v.name
        return z3.Const("const_" + nm, V)
    if isinstance(v, GenericV):
        return ufunc(f"generic_{v.name}", *([V] * len(v.args)), V)(*[self.reify(x) for x in v.args])
    if isinstance(v, TypeOf):
        return ufunc("typeof", V, V)(self.reify(v.v))
    raise Unsupported(f"reify {type(v).__name__}")


def len_expr(self, segs):
    """Length of segments as an Int expression, or None when some symbolic segment may yield a variable number."""
    n = z3.IntVal(0)
    for s in segs:
        if s[0] == "el":
            n = n + 1
        elif s[0] == "sym" and s[1].one:
            n = n + s[1].m
        else:
            return None
    return z3.simplify(n)


# ---------------------------------------------------------------------------------- truth
def obj_truth(self, t):
    """Truth of an unknown object: its class may define __bool__ or __len__."""
    return ufunc("objtruth", V, B)(t)


def truth(self, v):
    if isinstance(v, z3.ExprRef):
        return v
    v = self.norm(v)
    if isinstance(v, GenericV):
        return True
    if conc(v):
        return bool(v)
    if isinstance(v, SB):
        return v.f
    if isinstance(v, SI):
        return v.e != 0
    if isinstance(v, SR):
        return v.e != 0
    if isinstance(v, SS):
        return z3.Length(v.e) > 0 if not True else v.e != z3.StringVal("")
    if isinstance(v, SV):
        t = v.term
        k = self.known_kind(t)
        if k in (LIST, TUPLE, DICT, SET, STRUCT, LISTVALUE, BYTES):
            self.ctx.fact(f_len(t) >= 0)
            return f_len(t) > 0
        if k == OBJ:
            return self.obj_truth(t)
        if k is not None and k not in (NONE, BOOL, INT, FLOAT, STR):
            return True
        self.ctx.fact(f_len(t) >= 0)
        sized = z3.Or(*[kind(t) == c for c in (LIST, TUPLE, DICT, SET, STRUCT, LISTVALUE, BYTES)])
        return z3.And(kind(t) != NONE, z3.Implies(kind(t) == BOOL, f_b(t)), z3.Implies(kind(t) == INT, f_i(t) != 0),
                      z3.Implies(kind(t) == FLOAT, f_r(t) != 0), z3.Implies(kind(t) == STR, f_s(t) != z3.StringVal("")),
                      z3.Implies(kind(t) == OBJ, self.obj_truth(t)), z3.Implies(sized, f_len(t) > 0))
    if isinstance(v, tuple):
        return len(v) > 0
    if isinstance(v, (ListV, TupV)):
        if any(s[0] == "el" for s in v.segs):
            return True
        if not v.segs:
            return False
        return self.nonempty(v.segs)
    if isinstance(v, DictV):
        if any(o[0] == "set" for o in v.ops) and not any(o[0] == "del" for o in v.ops):
            return True
        if not v.ops:
            return False
        if all(o[0] == "base" for o in v.ops):
            return z3.Or(*[f_len(o[1]) > 0 for o in v.ops])
        return self.nonempty(self.dict_iter_segs(v, "keys"))
    if isinstance(v, SetV):
        if any(s[0] == "el" for s in v.parts):
            return True
        if not v.parts:
            return False
        return self.nonempty(v.parts)
    if isinstance(v, ObjV):
        for m in ("__bool__", "__len__"):
            ca = self.class_attr(v.cls, m)
            if ca:
                return self.truth(self.call_func(ca[1], [v], {}))
        return True
    return True


def nonempty(self, segs):
    fs = []
    for s in segs:
        if s[0] == "el":
            return True
        if s[0] == "set":
            self.ctx.fact(f_len(s[1]) >= 0)
            fs.append(f_len(s[1]) > 0)
        elif s[0] == "sym":
            g = s[1]
            if g.one:
                fs.append(g.m > 0)
            else:
                def pred(j, g=g):
                    alts = []
                    for gd, segs2 in g.cases(self, j):
                        ne = self.nonempty(segs2) if segs2 else False
                        if ne is True:
                            alts.append(gd)
                        elif ne is not False:
                            alts.append(z3.And(gd, ne))
                    return z3.Or(*alts) if alts else z3.BoolVal(False)
                fs.append(self.exists(g.base, g.m, pred))
        else:
            fs.append(self.ctx.fresh("nonempty", B))
    return z3.Or(*fs) if fs else False


def truthy(self, v, label=None):
    t = self.truth(v)
    if isinstance(t, bool):
        return t
    return self.ctx.branch(t, label or f"truth({str(v)[:60]})")


def exists(self, base, m, pred):
    """Bool atom equivalent to: exists 0 <= j < m. pred(j)  (witness + universal on the negation)."""
    ctx = self.ctx
    b = ctx.fresh("ex", B)
    w = ctx.fresh("w", I)
    ctx.register_index(base, w)
    ctx.fact(z3.Implies(b, z3.And(0 <= w, w < m, pred(w))))

    def inst(j):
        return [z3.Implies(z3.And(z3.Not(b), 0 <= j, j < m), z3.Not(pred(j)))], [], []
    ctx.add_univ(Univ(base, inst, "exists"))
    return b


# ---------------------------------------------------------------------------------- equality and comparison
def num(self, v):
    v = self.norm(v)
    if isinstance(v, bool):
        return z3.IntVal(int(v))
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, float):
        return z3.RealVal(repr(v)) if v == v and v not in (float("inf"), float("-inf")) else None
    if isinstance(v, SB):
        return z3.If(v.f, z3.IntVal(1), z3.IntVal(0))
    if isinstance(v, SI):
        return v.e
    if isinstance(v, SR):
        return v.e
    return None


def is_numlike(v):
    return isinstance(v, (bool, int, float, SB, SI, SR))


def zstr(self, v):
    if isinstance(v, str):
        return z3.StringVal(v)
    if isinstance(v, SS):
        return v.e
    return None


def eq(self, a, b):
    """Python ==, as bool or z3 Bool (wrapped results are handled by callers)."""
    a, b = self.norm(a), self.norm(b)
    if a is b:
        return True
    if isinstance(a, GenericV) or isinstance(b, GenericV):
        return isinstance(a, GenericV) and isinstance(b, GenericV) and a.name == b.name and len(a.args) == len(b.args) \
            and all(self.eq(x, y) is True for x, y in zip(a.args, b.args))
    if conc(a) and conc(b):
        return a == b
    if isinstance(b, SV) and not isinstance(a, SV):
        a, b = b, a
    if isinstance(a, SV):
        t = a.term
        if b is None:
            return kind(t) == NONE
        if isinstance(b, (str, SS)):
            self.ctx.fact(z3.Implies(kind(t) == STR, mkS(f_s(t)) == t))
            return z3.And(kind(t) == STR, f_s(t) == self.zstr(b))
        if is_numlike(b):
            n = self.num(b)
            if n is None:
                return self.ctx.fresh("nancmp", B)
            return z3.Or(z3.And(kind(t) == BOOL, z3.If(f_b(t), 1, 0) == n), z3.And(kind(t) == INT, f_i(t) == n),
                         z3.And(kind(t) == FLOAT, f_r(t) == n))
        if isinstance(b, SV):
            u = b.term
            if t.eq(u):
                return True
            self.ctx.fact(z3.Implies(kind(t) == STR, mkS(f_s(t)) == t))
            self.ctx.fact(z3.Implies(kind(u) == STR, mkS(f_s(u)) == u))
            pe = ufunc("pyeq", V, V, B)(t, u)
            simple = [NONE, STR, OBJ, FUT, FUNC, CLASS]
            return z3.Or(t == u, z3.And(pe, *[kind(t) != c for c in simple], *[kind(u) != c for c in simple],
                                        z3.Not(z3.And(kind(t) == BOOL, kind(u) == BOOL)),
                                        z3.Or(kind(t) == kind(u), z3.And(z3.Or(*[kind(t) == c for c in (BOOL, INT, FLOAT)]),
                                                                          z3.Or(*[kind(u) == c for c in (BOOL, INT, FLOAT)])))))
        if isinstance(b, (ObjV, FutV, FuncV, ClassV, ExcV, type, ExtV, TypeOf, BoundV, PartialV)):
            return t == self.reify(b)
        if isinstance(b, tuple):
            return z3.And(kind(t) == TUPLE, f_len(t) == len(b), *[self.asf(self.eq(SV(f_at(t, z3.IntVal(i))), x)) for i, x in enumerate(b)])
        if isinstance(b, ListV) and not b.segs:
            return z3.And(kind(t) == LIST, f_len(t) == 0)
        if isinstance(b, (ListV, DictV, SetV)):
            return self.ctx.fresh("cmp", B)
        raise Unsupported(f"== between symbolic value and {type(b).__name__}")
    if isinstance(a, (str, SS)) and isinstance(b, (str, SS)):
        return self.zstr(a) == self.zstr(b)
    if is_numlike(a) and is_numlike(b):
        x, y = self.num(a), self.num(b)
        if x is None or y is None:
            return False
        if isinstance(a, (bool, SB)) and isinstance(b, (bool, SB)):
            fa = a if isinstance(a, bool) else a.f
            fb = b if isinstance(b, bool) else b.f
            return z3.simplify(z3.BoolVal(fa) == fb if isinstance(fa, bool) else fa == (z3.BoolVal(fb) if isinstance(fb, bool) else fb))
        return x == y
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        fs = [self.asf(self.eq(x, y)) for x, y in zip(a, b)]
        return z3.simplify(z3.And(*fs)) if fs else True
    for x, y in ((a, b), (b, a)):
        if isinstance(x, ObjV):
            ca = self.class_attr(x.cls, "__eq__")
            if ca is not None:
                return self.truth(self.call_func(ca[1], [x, y], {}))
            if x.cls.kindname == "enum" and not isinstance(y, ObjV) and any(issubclass(t, (str, int)) for t in x.cls.pybases()):
                return self.eq(self.dict_get_known(x.fields, "_value_"), y)      # class X(str, Enum): a member is its value
            if x.cls.kindname in ("namedtuple", "dataclass") and isinstance(y, ObjV) and y.cls is x.cls:
                return self.eq(tuple(o[2] for o in x.fields.ops), tuple(o[2] for o in y.fields.ops))
    if isinstance(a, Heap) and isinstance(b, Heap) and not isinstance(a, (ListV, DictV, SetV)):
        if a.term is not None and b.term is not None:
            return a.term == b.term
        return False
    if isinstance(a, ListV) and isinstance(b, ListV):
        if all(s[0] == "el" for s in a.segs + b.segs):
            return self.eq(tuple(s[1] for s in a.segs), tuple(s[1] for s in b.segs))
        if not a.segs or not b.segs:
            t = self.truth(b if not a.segs else a)
            return (not t) if isinstance(t, bool) else z3.Not(t)
        raise Unsupported("== of symbolic lists")
    if isinstance(a, DictV) and isinstance(b, DictV):
        if not a.ops or not b.ops:
            t = self.truth(b if not a.ops else a)
            return (not t) if isinstance(t, bool) else z3.Not(t)
        raise Unsupported("== of symbolic dicts")
    if isinstance(a, SetV) and isinstance(b, SetV):
        raise Unsupported("== of symbolic sets")
    if isinstance(a, (type, ExtV, ClassV, ModuleV)) and isinstance(b, (type, ExtV, ClassV, ModuleV)):
        return a == b
    if isinstance(a, TypeOf) and isinstance(b, TypeOf):
        return self.reify(a) == self.reify(b)
    if isinstance(a, TypeOf) or isinstance(b, TypeOf):
        x, y = (a, b) if isinstance(a, TypeOf) else (b, a)
        if isinstance(y, GenericV):
            return False
        v = self.norm(x.v)
        if isinstance(v, SV):
            if isinstance(y, ClassV):
                f = z3.And(kind(v.term) == OBJ, ufunc("exactly_" + y.module.name + "." + y.name, V, B)(v.term))
                self.ctx.fact(z3.Implies(f, self.isa_formula(v.term, y)))
                return f
            if isinstance(y, type):
                k = {bool: BOOL, int: INT, float: FLOAT, str: STR, list: LIST, dict: DICT, set: SET, tuple: TUPLE,
                     bytes: BYTES, type(None): NONE}.get(y)
                if k is not None:
                    return kind(v.term) == k
        raise Unsupported(f"type comparison of {x.v} with {y}")
    return False


def asf(self, f):
    if isinstance(f, SB):
        return f.f
    return z3.BoolVal(f) if isinstance(f, bool) else f


def wrapb(self, f):
    return f if isinstance(f, bool) else SB(f)


def is_(self, a, b):
    a, b = self.norm(a), self.norm(b)
    if a is b:
        return True
    if isinstance(a, GenericV) or isinstance(b, GenericV):
        return False
    if isinstance(b, SV) and not isinstance(a, SV):
        a, b = b, a
    if isinstance(a, SV):
        if b is None:
            return kind(a.term) == NONE
        if isinstance(b, bool):
            return z3.And(kind(a.term) == BOOL, f_b(a.term) if b else z3.Not(f_b(a.term)))
        if isinstance(b, SV):
            return a.term == b.term
        if isinstance(b, SB):
            return z3.And(kind(a.term) == BOOL, f_b(a.term) == b.f)
        if isinstance(b, (DictV, ListV, SetV)) and b.birth != 0 or b is ...:
            return False
        return a.term == self.reify(b)
    if isinstance(a, (bool, SB)) and isinstance(b, (bool, SB)):
        return self.eq(a, b)
    if a is None or b is None:
        return False
    if conc(a) and conc(b):
        return type(a) is type(b) and a == b
    if isinstance(a, (ExtV, type, ClassV)) or isinstance(b, (ExtV, type, ClassV)):
        if isinstance(a, TypeOf) or isinstance(b, TypeOf):
            return self.eq(a, b)
        return a == b
    if isinstance(a, SS) and isinstance(b, SS):
        return a.e == b.e
    if isinstance(a, Heap) and isinstance(b, Heap) and a.term is not None and b.term is not None:
        return a.term == b.term
    return False


def compare(self, op, a, b):
    if isinstance(op, ast.Eq):
        return self.wrapb(self.eq(a, b))
    if isinstance(op, ast.NotEq):
        for x, y in ((a, b),):
            if isinstance(x, ObjV) and self.class_attr(x.cls, "__ne__"):
                return self.call_func(self.class_attr(x.cls, "__ne__")[1], [x, y], {})
        f = self.eq(a, b)
        return (not f) if isinstance(f, bool) else SB(z3.Not(f))
    if isinstance(op, ast.Is):
        return self.wrapb(self.is_(a, b))
    if isinstance(op, ast.IsNot):
        f = self.is_(a, b)
        return (not f) if isinstance(f, bool) else SB(z3.Not(f))
    if isinstance(op, ast.In):
        return self.wrapb(self.contains(b, a))
    if isinstance(op, ast.NotIn):
        f = self.contains(b, a)
        return (not f) if isinstance(f, bool) else SB(z3.Not(f))
    a, b = self.norm(a), self.norm(b)
    h = self.hooks.get("compare")
    if h is not None:
        r = h(self, op, a, b)
        if r is not NotImplemented:
            return r
    if conc(a) and conc(b) and a is not None and b is not None:
        return {ast.Lt: lambda: a < b, ast.LtE: lambda: a <= b, ast.Gt: lambda: a > b, ast.GtE: lambda: a >= b}[type(op)]()
    if isinstance(a, tuple) and isinstance(b, tuple) and all(conc(x) and x is not None for x in a + b):
        return {ast.Lt: lambda: a < b, ast.LtE: lambda: a <= b, ast.Gt: lambda: a > b, ast.GtE: lambda: a >= b}[type(op)]()
    if is_numlike(a) and is_numlike(b):
        x, y = self.num(a), self.num(b)
        f = {ast.Lt: lambda: x < y, ast.LtE: lambda: x <= y, ast.Gt: lambda: x > y, ast.GtE: lambda: x >= y}[type(op)]()
        return SB(z3.simplify(f))
    if isinstance(a, (str, SS)) and isinstance(b, (str, SS)):
        x, y = self.zstr(a), self.zstr(b)
        f = {ast.Lt: lambda: x < y, ast.LtE: lambda: x <= y, ast.Gt: lambda: y < x, ast.GtE: lambda: y <= x}[type(op)]()
        return SB(f)
    for x, y, nm in ((a, b, {ast.Lt: "__lt__", ast.LtE: "__le__", ast.Gt: "__gt__", ast.GtE: "__ge__"}[type(op)]),):
        if isinstance(x, ObjV):
            ca = self.class_attr(x.cls, nm)
            if ca:
                return self.call_func(ca[1], [x, y], {})
    if a is None or b is None:
        self.pyraise(TypeError, "unorderable types")
    for x in (a, b):
        if isinstance(x, SV):
            k = self.kind_of(x, [INT, FLOAT, STR, NONE])
            if k is None:
                raise Unsupported("ordering of symbolic values")
    if not isinstance(a, SV) and not isinstance(b, SV):
        raise Unsupported(f"ordering of {type(a).__name__} and {type(b).__name__}")
    return self.compare(op, a, b)


def contains(self, c, x):
    c = self.norm(c)
    if isinstance(c, tuple):
        fs = [self.eq(x, y) for y in c]
        if any(f is True for f in fs):
            return True
        fs = [f for f in fs if f is not False]
        return z3.Or(*fs) if fs else False
    if isinstance(c, (ListV, TupV)):
        return self.seg_member(c.segs, x)
    if isinstance(c, SetV):
        return self.member(c.parts, x)
    if isinstance(c, DictV):
        return self.dict_has(c, x)
    if isinstance(c, (str, SS)):
        xn = self.norm(x)
        if isinstance(xn, SV):
            if self.kind_of(xn, [STR]) != STR:
                self.pyraise(TypeError, "'in <string>' requires string as left operand")
            xn = self.norm(xn)
        if isinstance(c, str) and isinstance(xn, str):
            return xn in c
        return z3.Contains(self.zstr(c), self.zstr(xn))
    if isinstance(c, SV):
        k = self.kind_of(c, [DICT, LIST, STRUCT, SET, STR, TUPLE, LISTVALUE])
        if k in (DICT, STRUCT):
            return self.sdict_has(c.term, x)
        if k == SET:
            return self.set_mem(c.term, self.reify(x))
        if k == STR:
            return self.contains(self.norm(c), x)
        if k in (LIST, TUPLE, LISTVALUE):
            return self.seg_member(self.segments(c), x)
        self.pyraise(TypeError, "argument is not iterable")
    if isinstance(c, DictView):
        return self.dict_has(c.d, x) if c.what == "keys" else self.seg_member(self.segments(c), x)
    if isinstance(c, GenV):
        return self.seg_member(self.segments(c), x)
    if isinstance(c, ObjV):
        ca = self.class_attr(c.cls, "__contains__")
        if ca:
            return self.truth(self.call_func(ca[1], [c, x], {}))
    if isinstance(c, RangeV):
        n = self.num(x)
        return z3.And(c.lo <= n, n < c.hi)
    if isinstance(c, ClassV) and c.kindname == "enum":
        raise Unsupported("in enum class")
    h = self.hooks.get("contains")
    if h is not None:
        return h(self, c, x)
    if c is None or isinstance(c, (bool, int, float)):
        self.pyraise(TypeError, f"argument of type '{type(c).__name__}' is not iterable")
    raise Unsupported(f"in {type(c).__name__}")


def seg_member(self, segs, x):
    fs = []
    for s in segs:
        if s[0] == "el":
            f = self.eq(x, s[1])
            if f is True:
                return True
            if f is not False:
                fs.append(f)
        elif s[0] == "sym":
            g = s[1]
            if isinstance(g, BaseSeg) and g.tag == ("list",) and g.base.tag == "list" and g.m.eq(f_len(g.base.term)) and g.base.term.get_id() in self.setdefs:
                # the elements of a set
                f = self.seg_member(self.setdefs[g.base.term.get_id()][0], x)
                if f is True:
                    return True
                if f is not False:
                    fs.append(f)
                continue

            def pred(j, g=g):
                alts = []
                for gd, segs2 in g.cases(self, j):
                    f = self.seg_member(segs2, x)
                    if f is True:
                        alts.append(gd)
                    elif f is not False:
                        alts.append(z3.And(gd, f))
                return z3.Or(*alts) if alts else z3.BoolVal(False)
            fs.append(self.exists(g.base, g.m, pred))
        elif s[0] == "pred":
            fs.append(s[2](self.reify(x)))
        elif s[0] == "set":
            fs.append(self.set_mem(s[1], self.reify(x)))
        else:
            fs.append(self.ctx.fresh("acc_mem", B))
    return z3.Or(*fs) if fs else False


def member(self, parts, x):
    return self.seg_member(parts, x)


def set_mem(self, t, e):
    """Membership atom for a symbolic set term (sets are enumerated by at/idx)."""
    ctx = self.ctx
    m = f_mem(t, e)
    i = f_idx(t, e)
    base = Base("list", t, f_len(t))
    key = ("mem", m.get_id())
    if key not in ctx.declared:
        ctx.jadd(ctx.declared, key)
        ctx.declared.add(("keep", m))
        ctx.fact(z3.Implies(m, z3.And(0 <= i, i < f_len(t), f_at(t, i) == e)))
        ctx.register_index(base, i)
    return m


class RangeV:
    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi


class DictView:
    def __init__(self, d, what):
        self.d, self.what = d, what


# ---------------------------------------------------------------------------------- dictionaries
def dict_base(self, t):
    return Base("dict", t, f_len(t))


def sdict_has(self, t, key):
    ctx = self.ctx
    k = self.reify(key)
    i = f_idx(t, k)
    base = self.dict_base(t)
    has = z3.And(0 <= i, i < f_len(t), f_key(t, i) == k)
    ctx.register_index(base, i)
    kk = f_key(t, i)
    return has


def sdict_get(self, t, key):
    k = self.reify(key)
    # direct value when the key is literally the j-th key
    if z3.is_app(k) and k.decl().eq(f_key) and k.arg(0).eq(t):
        return SV(f_val(t, k.arg(1)))
    return SV(f_val(t, f_idx(t, k)))


def dict_lookup(self, d, key):
    """-> (found, value); forks."""
    ctx = self.ctx
    return self.ops_lookup(d.ops, key)


def ops_lookup(self, ops, key):
    ctx = self.ctx
    for n in range(len(ops) - 1, -1, -1):
        op = ops[n]
        if op[0] in ("set", "del"):
            f = self.eq(op[1], key)
            if f is False:
                continue
            if f is True or ctx.branch(f, f"key {str(key)[:30]} == {str(op[1])[:30]}"):
                if op[0] == "set":
                    return True, op[2]
                return False, None
        elif op[0] == "base":
            if ctx.branch(self.sdict_has(op[1], key), f"has({str(op[1])[:30]},{str(key)[:30]})"):
                return True, self.sdict_get(op[1], key)
        elif op[0] == "lam":
            r = op[1].lookup(self, key)
            if r is not None:
                found, v = r
                return found, v
        elif op[0] == "acc":
            if ctx.branch(ctx.fresh("acc_has", B), "accumulated"):
                return True, SV(ctx.fresh("acc_val", V))
    return False, None


def dict_has(self, d, key):
    if all(o[0] in ("set",) for o in d.ops):
        fs = [self.eq(o[1], key) for o in d.ops]
        if any(f is True for f in fs):
            return True
        fs = [f for f in fs if f is not False]
        return z3.Or(*fs) if fs else False
    if len(d.ops) == 1 and d.ops[0][0] == "base":
        return self.sdict_has(d.ops[0][1], key)
    return self.dict_lookup(d, key)[0]


def dict_set(self, d, key, value):
    if d.cls == "struct":
        value = self.struct_coerce(value)
    self.hset(d, "ops", d.ops + (("set", key, value),))


def dict_update(self, d, o):
    o = self.norm(o)
    if isinstance(o, SV):
        k = self.kind_of(o, [DICT, STRUCT])
        if k is None:
            raise Unsupported("dict update from non-dict")
        o = DictV((("base", o.term),))
    if isinstance(o, DictV):
        self.hset(d, "ops", d.ops + o.ops)
        return
    raise Unsupported("dict.update")


def struct_coerce(self, v):
    return v


def dict_iter_segs(self, d, what):
    """Segments enumerating a dict's keys/values/items in insertion order."""
    def pick(k, v):
        return k if what == "keys" else v if what == "values" else (k, v)
    ops = d.ops
    if any(o[0] == "del" for o in ops):
        if all(o[0] in ("set", "del") for o in ops):
            keys, vals = [], {}
            res = []
            for o in ops:
                hit = None
                for i, (k, v) in enumerate(res):
                    f = self.eq(k, o[1])
                    if f is True or (f is not False and self.ctx.branch(f)):
                        hit = i
                        break
                if o[0] == "set":
                    if hit is None:
                        res.append((o[1], o[2]))
                    else:
                        res[hit] = (res[hit][0], o[2])
                elif hit is not None:
                    del res[hit]
            return tuple(("el", pick(k, v)) for k, v in res)
        return self.dict_iter_del(d, what)
    out = []
    for n, o in enumerate(ops):
        before, after = ops[:n], ops[n + 1:]
        if o[0] == "set":
            if before:
                # key already present earlier -> not a new position
                if self.ops_lookup(before, o[1])[0]:
                    continue
            v = o[2]
            if after and what != "keys":
                v = self.ops_lookup(ops[n:], o[1])[1]
            out.append(("el", pick(o[1], v)))
        elif o[0] == "base":
            t = o[1]
            self.ctx.fact(f_len(t) >= 0)
            base = self.dict_base(t)
            if not before and not after:
                out.append(("sym", self.base_dict_seg(t, what)))
            else:
                out.append(("sym", OverSeg(self, base, f_len(t), ("base", t), before, after, what)))
        elif o[0] == "lam":
            lam = o[1]
            lam.check_distinct(self)
            out.append(("sym", OverSeg(self, lam.base, lam.m, ("lam", lam), before, after, what)))
        else:
            raise Unsupported("iteration over a dict being accumulated")
    return tuple(out)


def dict_iter_del(self, d, what):
    """Iteration in the presence of deletions: filter the positions whose key is no longer present."""
    ops = d.ops
    out = []
    last_del = max(i for i, o in enumerate(ops) if o[0] == "del")
    prefix, suffix = ops[:last_del + 1], ops[last_del + 1:]
    if suffix:
        raise Unsupported("iteration over dict with deletions followed by insertions")
    live = [o for o in prefix if o[0] != "del"]
    dels = [o[1] for o in prefix if o[0] == "del"]
    # deletions must come last
    if any(o[0] == "del" for o in prefix[:len(live)]):
        raise Unsupported("interleaved deletions")
    segs = self.dict_iter_segs(DictV(live), "items")

    def keep(k):
        for x in dels:
            f = self.eq(k, x)
            if f is True:
                return False
            if f is not False and self.ctx.branch(f):
                return False
        return True

    def pick(kv):
        return kv[0] if what == "keys" else kv[1] if what == "values" else kv
    for s in segs:
        if s[0] == "el":
            if keep(s[1][0]):
                out.append(("el", pick(s[1])))
        else:
            out.append(("sym", FilterSeg(s[1], dels, pick)))
    return tuple(out)


class FilterSeg(SymSeg):
    def __init__(self, inner, dels, pick):
        self.inner, self.dels, self.pick = inner, dels, pick
        self.base, self.m, self.one, self.tag = inner.base, inner.m, False, None

    def cases(self, interp, j):
        out = []
        for g, segs in self.inner.cases(interp, j):
            if not segs:
                out.append((g, []))
                continue
            if len(segs) != 1 or segs[0][0] != "el":
                raise Unsupported("filter segment")
            kv = segs[0][1]
            d = [interp.asf(interp.eq(kv[0], x)) for x in self.dels]
            dead = z3.Or(*d) if d else z3.BoolVal(False)
            out.append((z3.And(g, dead), []))
            out.append((z3.And(g, z3.Not(dead)), [("el", self.pick(kv))]))
        return out

    def subst(self, pairs, memo):
        raise Unsupported("substitution into a filtered dict")


SymSeg.elem = None


def _seg_elem(seg, interp, j):
    cs = seg.cases(interp, j)
    if len(cs) == 1:
        return cs[0][1]
    i = interp.ctx.decide([c for c, _ in cs], [f"case {k} at {str(j)[:20]}" for k in range(len(cs))])
    return cs[i][1]


SymSeg.elem = _seg_elem


class BaseSeg(SymSeg):
    """Elements of a symbolic list/dict term, optionally mapped: fn(interp, j) -> meta."""

    def __init__(self, base, m, fn, tag):
        self.base, self.m, self.fn, self.one, self.tag = base, m, fn, True, tag

    def cases(self, interp, j):
        return [(z3.BoolVal(True), [("el", self.fn(self.base.term, j))])]

    def subst(self, pairs, memo):
        return BaseSeg(self.base.subst(pairs), z3.substitute(self.m, *pairs), self.fn, self.tag)


class OverSeg(SymSeg):
    """Positions of one dict op, with later overwrites applied and earlier keys skipped."""

    def __init__(self, interp, base, m, op, before, after, what):
        self.base, self.m, self.op, self.before, self.after, self.what = base, m, op, before, after, what
        self.one = False
        self.tag = None
        if op[0] == "lam" and not before and not after:
            self.one = op[1].always_one()

    def elem(self, interp, j):
        if self.op[0] == "base":
            t = self.op[1]
            kvs = [(SV(f_key(t, j)), SV(f_val(t, j)))]
        else:
            kvs = self.op[1].elem_kvs(interp, j)
        out = []
        for k, v in kvs:
            if self.before and interp.ops_lookup(self.before, k)[0]:
                continue
            if self.after:
                fnd, v2 = interp.ops_lookup(self.after, k)
                if fnd:
                    v = v2
            out.append(("el", k if self.what == "keys" else v if self.what == "values" else (k, v)))
        return out

    def cases(self, interp, j):
        if not self.before and not self.after:
            if self.op[0] == "base":
                t = self.op[1]
                kv = (SV(f_key(t, j)), SV(f_val(t, j)))
                return [(z3.BoolVal(True), [("el", self._pick(kv))])]
            return [(g, [("el", self._pick(kv)) for kv in kvs]) for g, kvs in self.op[1].kv_cases(interp, j)]
        raise Unsupported("non-forking access to an overlaid dict")

    def _pick(self, kv):
        return kv[0] if self.what == "keys" else kv[1] if self.what == "values" else kv

    def subst(self, pairs, memo):
        return OverSeg(None, self.base.subst(pairs), z3.substitute(self.m, *pairs), substop(self.op, pairs, memo),
                       tuple(substop(o, pairs, memo) for o in self.before), tuple(substop(o, pairs, memo) for o in self.after), self.what)


def base_list_seg(self, t):
    return BaseSeg(Base("list", t, f_len(t)), f_len(t), lambda tt, j: SV(f_at(tt, j)), ("list",))


def base_dict_seg(self, t, what):
    fn = {"keys": lambda tt, j: SV(f_key(tt, j)), "values": lambda tt, j: SV(f_val(tt, j)),
          "items": lambda tt, j: (SV(f_key(tt, j)), SV(f_val(tt, j)))}[what]
    if self.known_kind(t) == STRUCT and ("strkeys", t.get_id()) not in self.ghost_terms:
        # protobuf invariant: the keys of a Struct are strings
        self.ctx.jdict(self.ghost_terms, ("strkeys", t.get_id()), t)

        def inst(j):
            k = f_key(t, j)
            return [z3.Implies(z3.And(0 <= j, j < f_len(t)), z3.And(kind(k) == STR, mkS(f_s(k)) == k))], [], []
        self.ctx.add_univ(Univ(self.dict_base(t), inst, "struct keys"))
    return BaseSeg(self.dict_base(t), f_len(t), fn, ("dict", what))


# ---------------------------------------------------------------------------------- sequences
def segments(self, v):
    v = self.norm(v)
    if isinstance(v, (tuple,)):
        return tuple(("el", x) for x in v)
    if isinstance(v, (ListV, TupV)):
        return v.segs
    if isinstance(v, str):
        return tuple(("el", c) for c in v)
    return self.iter_segments(v)


def iter_segments(self, v):
    v = self.norm(v)
    if isinstance(v, tuple):
        return tuple(("el", x) for x in v)
    if isinstance(v, (ListV, TupV)):
        return v.segs
    if isinstance(v, str):
        return tuple(("el", c) for c in v)
    if isinstance(v, DictV):
        return self.dict_iter_segs(v, "keys")
    if isinstance(v, DictView):
        return self.dict_iter_segs(v.d, v.what)
    if isinstance(v, SetV):
        return self.set_iter_segs(v)
    if isinstance(v, GenV):
        out = ListV()
        self.comp(v.node.generators, v.env, lambda e: self.list_append(out, self.eval(v.node.elt, e)))
        return out.segs
    if isinstance(v, RangeV):
        lo, hi = z3.simplify(v.lo), z3.simplify(v.hi)
        if z3.is_int_value(lo) and z3.is_int_value(hi):
            return tuple(("el", i) for i in range(lo.as_long(), hi.as_long()))
        n = z3.If(hi > lo, hi - lo, z3.IntVal(0))
        return (("sym", BaseSeg(Base("range", lo, n), n, lambda tt, j: SI(tt + j), ("range",))),)
    if isinstance(v, SS):
        e = v.e
        n = z3.Length(e)
        return (("sym", BaseSeg(Base("chars", self.reify(v), n), n, lambda tt, j: SS(z3.SubString(f_s(tt), j, 1)), ("chars",))),)
    if isinstance(v, SV):
        k = self.kind_of(v, [LIST, DICT, TUPLE, STR, SET, STRUCT, LISTVALUE])
        t = v.term
        if k in (LIST, TUPLE, LISTVALUE):
            self.ctx.fact(f_len(t) >= 0)
            return (("sym", self.base_list_seg(t)),)
        if k in (DICT, STRUCT):
            self.ctx.fact(f_len(t) >= 0)
            return (("sym", self.base_dict_seg(t, "keys")),)
        if k == SET:
            return self.set_iter_segs(SetV((("set", t),)))
        if k == STR:
            return self.iter_segments(self.norm(v))
        h = self.hooks.get("iter")
        if h is not None:
            return h(self, v)
        self.pyraise(TypeError, "object is not iterable")
    if isinstance(v, ObjV):
        ca = self.class_attr(v.cls, "__iter__")
        if ca:
            return self.iter_segments(self.call_func(ca[1], [v], {}))
        if v.cls.kindname == "namedtuple":
            return tuple(("el", o[2]) for o in v.fields.ops)
    if isinstance(v, ClassV) and v.kindname == "enum":
        return tuple(("el", self.class_attr(v, n)[1]) for n, a in v.attrs.items() if a[0] == "expr" and not n.startswith("_"))
    h = self.hooks.get("iter")
    if h is not None:
        r = h(self, v)
        if r is not None:
            return r
    if v is None or conc(v) or isinstance(v, (SB, SI, SR, FuncV, FutV, ObjV)):
        self.pyraise(TypeError, "object is not iterable")
    raise Unsupported(f"iteration over {type(v).__name__}")


def set_iter_segs(self, v):
    out = []
    for n, p in enumerate(v.parts):
        if p[0] == "el":
            f = self.member(v.parts[:n], p[1]) if n else False
            if f is True or (f is not False and self.ctx.branch(f)):
                continue
            out.append(p)
        elif p[0] == "set" and len(v.parts) == 1:
            t = p[1]
            self.ctx.fact(f_len(t) >= 0)
            base = Base("list", t, f_len(t))
            self.ctx.add_univ(Univ(base, lambda j, t=t: ([z3.Implies(z3.And(0 <= j, j < f_len(t)),
                                                              z3.And(f_mem(t, f_at(t, j)), f_idx(t, f_at(t, j)) == j))], [], [])))
            out.append(("sym", self.base_list_seg(t)))
        else:
            return self.set_iter_segs(SetV((("set", self.freeze_set(v)),)))
    return tuple(out)


def freeze_set(self, v):
    """Name a set expression by a term T with: member(T, e) <-> member(parts, e), for every e compared with it."""
    ctx = self.ctx
    key = ["setof"]
    for p in v.parts:
        if p[0] == "set":
            key.append(("set", p[1].get_id()))
        elif p[0] == "sym" and isinstance(p[1], BaseSeg) and p[1].tag == ("list",) and p[1].m.eq(f_len(p[1].base.term)):
            key.append(("list", p[1].base.term.get_id()))
        else:
            key = None
            break
    if key:
        key = tuple(key)
        hit = self.setkeys.get(key)
        if hit is not None:
            return hit
    t = ctx.fresh("setof", V)
    if key:
        ctx.jdict(self.setkeys, key, t)
    ctx.fact(kind(t) == SET)
    ctx.fact(f_len(t) >= 0)
    base = Base("list", t, f_len(t))
    parts = v.parts
    ctx.jdict(self.setdefs, t.get_id(), (parts, t))

    def inst(j):
        return [z3.Implies(z3.And(0 <= j, j < f_len(t)), self.asf(self.member(parts, SV(f_at(t, j)))))], [], []
    ctx.add_univ(Univ(base, inst, "setof"))
    return t


def list_append(self, l, x):
    self.hset(l, "segs", l.segs + (("el", x),))


def set_add(self, s, x):
    self.hset(s, "parts", s.parts + (("el", x),))


def set_parts(self, o):
    o = self.norm(o)
    if isinstance(o, SetV):
        return o.parts
    if isinstance(o, SV):
        if self.known_kind(o.term) == SET or self.kind_of(o, [SET]) == SET:
            return (("set", o.term),)
    if isinstance(o, GenV):
        out = SetV()
        self.comp(o.node.generators, o.env, lambda e: self.set_add(out, self.eval(o.node.elt, e)), as_set=True)
        return out.parts
    return tuple(self.iter_segments(o))


def set_update(self, s, o):
    self.hset(s, "parts", s.parts + tuple(self.set_parts(o)))


def len_(self, v):
    v = self.norm(v)
    if isinstance(v, DictView):
        return self.len_(v.d)
    if isinstance(v, (str, bytes, tuple)):
        return len(v)
    if isinstance(v, SS):
        return SI(z3.Length(v.e))
    if isinstance(v, (ListV, TupV)):
        n = self.len_expr(v.segs)
        if n is None:
            return self.opaque_len(v.segs)
        return self.norm(SI(n))
    if isinstance(v, DictV):
        if all(o[0] == "set" and conc(o[1]) for o in v.ops):
            return len({o[1] for o in v.ops})
        segs = self.dict_iter_segs(v, "keys")
        n = self.len_expr(segs)
        if n is None:
            return self.opaque_len(segs)
        return self.norm(SI(n))
    if isinstance(v, SetV):
        if len(v.parts) <= 1 and all(p[0] == "el" for p in v.parts):
            return len(v.parts)
        return self.opaque_len(v.parts)
    if isinstance(v, SV):
        k = self.kind_of(v, [LIST, DICT, STR, TUPLE, SET, STRUCT, LISTVALUE])
        if k == STR:
            return self.len_(self.norm(v))
        if k is None:
            self.pyraise(TypeError, "object has no len()")
        self.ctx.fact(f_len(v.term) >= 0)
        return SI(f_len(v.term))
    if isinstance(v, ObjV):
        ca = self.class_attr(v.cls, "__len__")
        if ca:
            return self.call_func(ca[1], [v], {})
        if v.cls.kindname == "namedtuple":
            return len(v.fields.ops)
    raise Unsupported(f"len of {type(v).__name__}")


def opaque_len(self, segs):
    n = self.ctx.fresh("len", I)
    ne = self.nonempty(segs)
    self.ctx.fact(n >= 0)
    self.ctx.fact((n > 0) == (z3.BoolVal(ne) if isinstance(ne, bool) else ne))
    return SI(n)


def getitem(self, o, k):
    o = self.norm(o)
    k = self.norm(k)
    ctx = self.ctx
    if isinstance(o, DictV):
        f, v = self.dict_lookup(o, k)
        if not f:
            self.pyraise(KeyError, k)
        return v
    if isinstance(o, (str, tuple)) and isinstance(k, int):
        try:
            return o[k]
        except IndexError:
            self.pyraise(IndexError, "index out of range")
    if isinstance(o, strings.SplitV) and isinstance(k, int):
        r = o.piece(k)
        if r is not NotImplemented:
            return r
    if isinstance(o, (ListV, TupV, tuple)):
        segs = self.segments(o)
        return self.seg_index(segs, k)
    if isinstance(o, SS):
        i = self.num(k)
        if i is None:
            self.pyraise(TypeError, "string indices must be integers")
        n = z3.Length(o.e)
        if isinstance(k, int) and k < 0:
            i = n + i
        if not ctx.branch(z3.And(0 <= i, i < n)):
            self.pyraise(IndexError, "string index out of range")
        return SS(z3.SubString(o.e, i, 1))
    if isinstance(o, SV):
        kd = self.kind_of(o, [DICT, STRUCT, LIST, TUPLE, STR, LISTVALUE])
        if kd in (DICT, STRUCT):
            if not ctx.branch(self.sdict_has(o.term, k), f"has({str(o.term)[:30]},{str(k)[:30]})"):
                if kd == STRUCT:
                    self.pyraise(ValueError, "Value not set")
                self.pyraise(KeyError, k)
            return self.sdict_get(o.term, k)
        if kd in (LIST, TUPLE, LISTVALUE):
            return self.seg_index((("sym", self.base_list_seg(o.term)),), k)
        if kd == STR:
            return self.getitem(self.norm(o), k)
        h = self.hooks.get("getitem")
        if h is not None:
            return h(self, o, k)
        self.pyraise(TypeError, "object is not subscriptable")
    if isinstance(o, ObjV):
        if o.cls.kindname == "namedtuple" and isinstance(k, int):
            return o.fields.ops[k][2]
        ca = self.class_attr(o.cls, "__getitem__")
        if ca:
            return self.call_func(ca[1], [o, k], {})
        self.pyraise(TypeError, "object is not subscriptable")
    if isinstance(o, ClassV) and o.kindname == "enum" and isinstance(k, str):
        ca = self.class_attr(o, k)
        if ca:
            return ca[1]
        self.pyraise(KeyError, k)
    if o is None or isinstance(o, (bool, int, float, SB, SI, SR, FutV)):
        self.pyraise(TypeError, "object is not subscriptable")
    h = self.hooks.get("getitem")
    if h is not None:
        return h(self, o, k)
    raise Unsupported(f"subscript of {type(o).__name__}")


def seg_index(self, segs, k):
    ctx = self.ctx
    if all(s[0] == "el" for s in segs) and isinstance(k, int):
        if -len(segs) <= k < len(segs):
            return segs[k][1]
        self.pyraise(IndexError, "list index out of range")
    i = self.num(k)
    if i is None:
        if isinstance(k, SV):
            if self.kind_of(k, [INT]) == INT:
                return self.seg_index(segs, self.norm(k))
        self.pyraise(TypeError, "list indices must be integers")
    if isinstance(k, int) and k >= 0:
        # walk the concrete prefix
        for n, s in enumerate(segs):
            if s[0] == "el":
                if n == k:
                    return s[1]
            else:
                break
    total = self.len_expr(segs)
    if total is None:
        raise Unsupported("index into a filtered sequence")
    if isinstance(k, int) and k < 0:
        i = total + k
    elif not isinstance(k, int):
        i = z3.If(i < 0, total + i, i) if not ctx.entails(i >= 0) else i
    if not ctx.branch(z3.And(0 <= i, i < total), f"index {str(k)[:20]} in range"):
        self.pyraise(IndexError, "list index out of range")
    off = z3.IntVal(0)
    for s in segs:
        size = z3.IntVal(1) if s[0] == "el" else s[1].m
        if ctx.branch(z3.simplify(z3.And(off <= i, i < off + size))):
            if s[0] == "el":
                return s[1]
            j = z3.simplify(i - off)
            ctx.register_index(s[1].base, j)
            r = s[1].elem(self, j)
            if len(r) != 1 or r[0][0] != "el":
                raise Unsupported("index into nested segment")
            return r[0][1]
        off = z3.simplify(off + size)
    raise PathDead()


def slice_(self, o, lo, hi, step):
    o = self.norm(o)
    if step is not None:
        if isinstance(o, (ListV, TupV, tuple, str)) and lo is None and hi is None and step == -1:
            if isinstance(o, str):
                return o[::-1]
            segs = self.segments(o)
            if all(s[0] == "el" for s in segs):
                r = [s for s in reversed(segs)]
                return tuple(s[1] for s in r) if isinstance(o, tuple) else ListV(r)
        raise Unsupported("slice step")
    lo, hi = self.norm(lo), self.norm(hi)
    if isinstance(o, (str, tuple)) and all(x is None or isinstance(x, int) for x in (lo, hi)):
        return o[lo:hi]
    if isinstance(o, SV) and self.kind_of(o, [STR, LIST]) == STR:
        o = self.norm(o)
    if isinstance(o, (SS, str)):
        def boundary(x):
            x = z3.simplify(self.num(x)) if x is not None and not isinstance(x, SV) and self.num(x) is not None else None
            return None if x is None else strings.cut_at(o, x)
        c1 = ("", o) if lo is None or (isinstance(lo, int) and lo == 0) else boundary(lo)
        c2 = (o, "") if hi is None else boundary(hi)
        if c1 is not None and c2 is not None and (hi is None or isinstance(c1[0], str) and c1[0] == ""):
            return c1[1] if hi is None else c2[0]
        e = self.zstr(o)
        n = z3.Length(e)

        def idx(x, default):
            if x is None:
                return default
            i = self.num(x)
            i = z3.If(i < 0, z3.If(n + i < 0, z3.IntVal(0), n + i), z3.If(i > n, n, i))
            return z3.simplify(i)
        a, b = idx(lo, z3.IntVal(0)), idx(hi, n)
        return SS(z3.simplify(z3.SubString(e, a, z3.If(b > a, b - a, z3.IntVal(0)))))
    segs = self.segments(o)
    if all(s[0] == "el" for s in segs) and all(x is None or isinstance(x, int) for x in (lo, hi)):
        r = segs[lo:hi]
        return ListV(r) if isinstance(o, ListV) else tuple(s[1] for s in r)
    mk = (lambda r: ListV(r)) if isinstance(o, (ListV, SV)) else (lambda r: self.mktuple(list(r)))
    if lo is None and hi is None:
        return mk(segs)
    # drop concrete leading / trailing elements
    segs = list(segs)
    if lo is None and len(segs) == 1 and segs[0][0] == "sym" and isinstance(hi, (SI, int)) and segs[0][1].one:
        h = self.num(hi)
        if self.ctx.entails(z3.And(0 <= h, h <= segs[0][1].m)):
            from .loops import prefix
            return mk([("sym", prefix(segs[0][1], h))])
    if (lo is None or isinstance(lo, int) and lo >= 0) and (hi is None or isinstance(hi, int) and hi < 0):
        ok = True
        for _ in range(lo or 0):
            if segs and segs[0][0] == "el":
                segs.pop(0)
            else:
                ok = False
        for _ in range(-(hi or 0)):
            if segs and segs[-1][0] == "el" and ok:
                segs.pop()
            else:
                ok = False
        if ok:
            return mk(segs)
    raise Unsupported("slice of symbolic sequence")


def setitem(self, o, k, v):
    o = self.thaw(o) if isinstance(o, SV) else o
    if isinstance(o, DictV):
        self.dict_set(o, k, v)
        return
    if isinstance(o, ListV):
        k = self.norm(k)
        if isinstance(k, int) and all(s[0] == "el" for s in o.segs):
            segs = list(o.segs)
            if not -len(segs) <= k < len(segs):
                self.pyraise(IndexError, "list assignment index out of range")
            segs[k] = ("el", v)
            self.hset(o, "segs", tuple(segs))
            return
    h = self.hooks.get("setitem")
    if h is not None:
        return h(self, o, k, v)
    raise Unsupported(f"item assignment on {type(o).__name__}")


def delitem(self, o, k):
    o = self.thaw(o) if isinstance(o, SV) else o
    if isinstance(o, DictV):
        f, _ = self.dict_lookup(o, k)
        if not f:
            self.pyraise(KeyError, k)
        self.hset(o, "ops", o.ops + (("del", k),))
        return
    raise Unsupported("del item")


# ---------------------------------------------------------------------------------- arithmetic
def binop(self, op, a, b):
    a, b = self.norm(a), self.norm(b)
    if conc(a) and conc(b) and a is not None and b is not None:
        try:
            return {ast.Add: lambda: a + b, ast.Sub: lambda: a - b, ast.Mult: lambda: a * b, ast.Mod: lambda: a % b,
                    ast.FloorDiv: lambda: a // b, ast.Div: lambda: a / b, ast.BitOr: lambda: a | b,
                    ast.BitAnd: lambda: a & b, ast.Pow: lambda: a ** b}[type(op)]()
        except KeyError:
            raise Unsupported("binary operator")
        except TypeError as e:
            self.pyraise(TypeError, str(e))
    if isinstance(op, ast.Add):
        if isinstance(a, (str, SS)) and isinstance(b, (str, SS)):
            return self.concat([a, b])
        if isinstance(a, (ListV,)) or isinstance(b, ListV):
            if isinstance(a, SV):
                if self.kind_of(a, [LIST]) is None:
                    self.pyraise(TypeError, "unsupported operand +")
            if isinstance(b, SV):
                if self.kind_of(b, [LIST]) is None:
                    self.pyraise(TypeError, "unsupported operand +")
            if not isinstance(a, (ListV, SV)) or not isinstance(b, (ListV, SV)):
                self.pyraise(TypeError, "can only concatenate list to list")
            return ListV(tuple(self.segments(a)) + tuple(self.segments(b)))
        if isinstance(a, (tuple, TupV)) and isinstance(b, (tuple, TupV)):
            return self.mktuple(tuple(self.segments(a)) + tuple(self.segments(b)))
    if is_numlike(a) and is_numlike(b):
        x, y = self.num(a), self.num(b)
        if isinstance(op, ast.Add):
            r = x + y
        elif isinstance(op, ast.Sub):
            r = x - y
        elif isinstance(op, ast.Mult):
            r = x * y
        elif isinstance(op, ast.BitOr) and isinstance(a, (bool, SB)) and isinstance(b, (bool, SB)):
            return SB(z3.Or(self.asf(a), self.asf(b)))
        elif isinstance(op, ast.BitAnd) and isinstance(a, (bool, SB)) and isinstance(b, (bool, SB)):
            return SB(z3.And(self.asf(a), self.asf(b)))
        else:
            raise Unsupported("arithmetic operator")
        r = z3.simplify(r)
        return self.norm(SI(r)) if r.sort() == I else SR(r)
    if isinstance(op, (ast.BitOr, ast.Sub, ast.BitAnd)):
        for x in (a, b):
            if isinstance(x, SV):
                k = self.kind_of(x, [SET, DICT])
                if k is None:
                    self.pyraise(TypeError, "unsupported operand |")
        if isinstance(a, DictV) or (isinstance(a, SV) and self.known_kind(a.term) == DICT):
            d = DictV()
            self.dict_update(d, a)
            self.dict_update(d, b)
            return d
        if isinstance(a, (SetV, SV)) and isinstance(b, (SetV, SV)):
            pa, pb = self.set_parts(a), self.set_parts(b)
            if isinstance(op, ast.BitOr):
                return SetV(pa + pb)
            if isinstance(op, ast.Sub):
                return SetV((("pred", "diff", lambda e: z3.And(self.asf(self.member(pa, SV(e))), z3.Not(self.asf(self.member(pb, SV(e)))))),))
            return SetV((("pred", "inter", lambda e: z3.And(self.asf(self.member(pa, SV(e))), self.asf(self.member(pb, SV(e))))),))
    if isinstance(op, ast.Mod) and isinstance(a, (str, SS)):
        return SS(self.ctx.fresh("fmt", S))
    if isinstance(a, SV) or isinstance(b, SV):
        for x in (a, b):
            if isinstance(x, SV):
                k = self.kind_of(x, [STR, INT, FLOAT, LIST, SET])
                if k is None:
                    self.pyraise(TypeError, "unsupported operand")
        return self.binop(op, a, b) if not (isinstance(self.norm(a), SV) and self.known_kind(self.norm(a).term) not in (LIST, SET)) else self.pyraise(TypeError, "operand")
    if a is None or b is None:
        self.pyraise(TypeError, "unsupported operand type(s)")
    raise Unsupported(f"binary operator {type(op).__name__} on {type(a).__name__}, {type(b).__name__}")


# ---------------------------------------------------------------------------------- classes
def isa_fn(self, c):
    nm = f"{c.module.name}.{c.name}" if isinstance(c, ClassV) else "py_" + c.__name__
    return ufunc("isa_" + nm, V, B)


def isa_formula(self, t, c):
    """Membership of symbolic object t in class c, with the facts relating it to the other classes asked about."""
    ctx = self.ctx
    f = self.isa_fn(c)(t)
    tid = t.get_id()
    asked = self.isa_known.get(tid)
    if asked is None:
        asked = ([], t)
        ctx.jdict(self.isa_known, tid, asked)
    if c not in asked[0]:
        ctx.fact(z3.Implies(f, kind(t) == OBJ))
        for d in asked[0]:
            g = self.isa_fn(d)(t)
            if isinstance(c, ClassV) and c.issub(d) or (isinstance(c, type) and isinstance(d, type) and issubclass(c, d)):
                ctx.fact(z3.Implies(f, g))
            elif isinstance(d, ClassV) and d.issub(c) or (isinstance(c, type) and isinstance(d, type) and issubclass(d, c)):
                ctx.fact(z3.Implies(g, f))
            elif not self.compatible(c, d):
                ctx.fact(z3.Not(z3.And(f, g)))
        ctx.jappend(asked[0], c)
    return f


def compatible(self, c, d):
    """Could an object be an instance of both classes?  (two exception classes can; unrelated repository classes are disjoint)"""
    if isinstance(c, type) and isinstance(d, type):
        return True
    return False


def classes_of(self, t):
    asked = self.isa_known.get(t.get_id())
    out = []
    if asked:
        for c in asked[0]:
            if self.ctx.entails(self.isa_fn(c)(t)):
                out.append(c)
    if not out:
        for nm in self.schema:
            c = self.resolve_class(nm)
            if asked and c in asked[0]:
                continue
            f = self.isa_formula(t, c)
            if self.ctx.entails(f):
                out.append(c)
    # most specific first
    out.sort(key=lambda c: -len(c.mro()) if isinstance(c, ClassV) else 0)
    return out


EXT_KINDS = {
    "collections.abc.Sequence": (LIST, TUPLE, STR, BYTES), "typing.Sequence": (LIST, TUPLE, STR, BYTES),
    "collections.abc.Mapping": (DICT,), "typing.Mapping": (DICT,), "typing.Dict": (DICT,), "typing.List": (LIST,),
    "collections.abc.MutableMapping": (DICT,),
    "google.protobuf.struct_pb2.Struct": (STRUCT,), "google.protobuf.struct_pb2.ListValue": (LISTVALUE,),
    "asyncio.Future": (FUT,), "collections.abc.Awaitable": (FUT,), "typing.Awaitable": (FUT,), "collections.abc.Iterable": (LIST, TUPLE, STR, BYTES, DICT, SET),
    "builtins.memoryview": (), "builtins.range": (), "enum.Enum": (),
    "collections.abc.Callable": (FUNC,),
}


def isinstance_(self, v, cls):
    if isinstance(cls, tuple):
        fs = []
        for c in cls:
            f = self.isinstance_(v, c)
            if f is True:
                return True
            if f is not False:
                fs.append(self.asf(f))
        return SB(z3.Or(*fs)) if fs else False
    if isinstance(cls, ListV):
        return self.isinstance_(v, tuple(s[1] for s in cls.segs))
    v = self.norm(v)
    if isinstance(v, GenericV):
        return isinstance(cls, ExtV) and cls.name == "typing._GenericAlias"
    if isinstance(v, SV):
        t = v.term
        k = self.known_kind(t)

        def kinds(ks):
            if k is not None:
                return k in ks
            if not ks:
                return False
            return SB(z3.Or(*[kind(t) == c for c in ks]))
        if isinstance(cls, type):
            m = {str: (STR,), bool: (BOOL,), int: (INT, BOOL), float: (FLOAT,), list: (LIST,), dict: (DICT,), tuple: (TUPLE,),
                 set: (SET,), bytes: (BYTES,), bytearray: (), memoryview: (), range: (), frozenset: (), type(None): (NONE,),
                 type: (CLASS,), complex: ()}
            if cls in m:
                return kinds(m[cls])
            if cls is object:
                return True
            if issubclass(cls, BaseException):
                if k is not None and k != OBJ:
                    return False
                return SB(self.isa_formula(t, cls))
            raise Unsupported(f"isinstance(symbolic, {cls})")
        if isinstance(cls, ExtV):
            if cls.name in EXT_KINDS:
                return kinds(EXT_KINDS[cls.name])
            h = self.hooks.get("isinstance_ext")
            if h is not None:
                return h(self, v, cls)
            raise Unsupported(f"isinstance(symbolic, {cls.name})")
        if isinstance(cls, ClassV):
            if k is not None and k != OBJ:
                return False
            return SB(self.isa_formula(t, cls))
        raise Unsupported("isinstance with symbolic class")
    if isinstance(v, ObjV):
        if isinstance(cls, ClassV):
            return v.cls.issub(cls)
        if isinstance(cls, type):
            return cls is object or any(issubclass(b, cls) for b in v.cls.pybases())
        if isinstance(cls, ExtV) and cls.name == "enum.Enum":
            return v.cls.kindname == "enum"
        return False
    if isinstance(v, ExcV):
        return isinstance(cls, type) and issubclass(v.cls, cls)
    if conc(v):
        if isinstance(cls, type):
            return isinstance(v, cls)
        if isinstance(cls, ExtV) and cls.name in EXT_KINDS:
            kk = {str: STR, bool: BOOL, int: INT, float: FLOAT, bytes: BYTES, type(None): NONE}[type(v)]
            return kk in EXT_KINDS[cls.name]
        return False
    kk = {SB: BOOL, SI: INT, SR: FLOAT, SS: STR, ListV: LIST, tuple: TUPLE, TupV: TUPLE, DictV: DICT, SetV: SET, FutV: FUT,
          CoroV: None, FuncV: FUNC, BoundV: FUNC, PartialV: FUNC, ClassV: CLASS, type: CLASS, TypeOf: CLASS}.get(type(v))
    if isinstance(v, DictV) and v.cls == "struct":
        kk = STRUCT
    if isinstance(v, ListV) and getattr(v, "listvalue", False):
        kk = LISTVALUE
    if isinstance(cls, type):
        m = {str: (STR,), bool: (BOOL,), int: (INT, BOOL), float: (FLOAT,), list: (LIST,), dict: (DICT,), tuple: (TUPLE,),
             set: (SET,), bytes: (BYTES,), type: (CLASS,)}
        if cls is object:
            return True
        return kk in m.get(cls, ())
    if isinstance(cls, ExtV):
        if cls.name == "asyncio.Future" and isinstance(v, CoroV):
            return False
        return kk in EXT_KINDS.get(cls.name, ())
    return False


ORIGINS = {"typing.Dict": dict, "typing.List": list, "typing.Mapping": "collections.abc.Mapping",
           "typing.Sequence": "collections.abc.Sequence", "typing.Union": "typing.Union"}


def generic_origin(o):
    if not isinstance(o, GenericV):
        return None
    r = ORIGINS[o.name]
    return ExtV(r) if isinstance(r, str) else r


# ---------------------------------------------------------------------------------- attributes
def traceback_of(self, exc):
    t = ufunc("traceback_of", V, V)(self.reify(exc))
    self.decl_once(("tb", t.get_id()), [kind(t) == OBJ])
    self.ctx.declared.add(("keep", t))
    return SV(t)


def getattr_(self, o, name, default=MISSING):
    o = self.norm(o)
    if name == "__traceback__" and isinstance(o, (ExcV, ObjV, SV)):
        return self.traceback_of(o)
    if isinstance(o, ModuleV):
        return self.module_attr(o.name, name, default)
    if isinstance(o, ExtV):
        full = f"{o.name}.{name}"
        if full == "builtins.property":
            return self.module_attr("spec.pvlib", "Property")
        if full in self.ext:
            return self.ext[full]
        if o.name in self.ext and isinstance(self.ext[o.name], ObjV):
            return self.getattr_(self.ext[o.name], name, default)
        return ExtV(full)
    if isinstance(o, BuiltinSuper_()):
        mro = (o.self_.cls if isinstance(o.self_, ObjV) else o.cls).mro()
        i = mro.index(o.cls)
        for c in mro[i + 1:]:
            if isinstance(c, ClassV) and name in c.attrs:
                k, f, decos = self.class_attr(c, name)
                return self.bind(f, decos, o.self_, c)
            if isinstance(c, type) and issubclass(c, BaseException) and name == "__init__":
                def init(interp, args, kw, o=o):
                    interp.dict_set(o.self_.fields, "args", tuple(args[0:]))
                return BuiltinV("exc.__init__", init)
        if name in ("__init__", "__init_subclass__", "__setattr__"):
            return BuiltinV("object.__init__", lambda interp, args, kw: None)
        if name == "__getattribute__":
            return BuiltinV("object.__getattribute__", lambda interp, args, kw: interp.getattr_(o.self_, args[0]))
        raise Unsupported(f"super().{name}")
    if isinstance(o, ObjV):
        return self.obj_getattr(o, name, default)
    if isinstance(o, ClassV):
        ca = self.class_attr(o, name)
        if ca is not None:
            k, f, decos = ca
            if "classmethod" in decos:
                return BoundV(o, f)
            return f
        if name == "__name__":
            return o.name
        if name == "__module__":
            return o.module.name
        if name == "__members__" and o.kindname == "enum":
            return DictV(tuple(("set", n, self.class_attr(o, n)[1]) for n, a in o.attrs.items() if a[0] == "expr" and not n.startswith("_")))
        if name == "__dict__":
            raise Unsupported("class __dict__")
        if default is not MISSING:
            return default
        if name in ("__annotations__", "__mro__", "__bases__"):
            raise Unsupported(f"class attribute {name}")
        self.pyraise(AttributeError, name)
    if isinstance(o, SV):
        return self.sv_getattr(o, name, default)
    if isinstance(o, GenericV):
        if name == "__origin__":
            return self.ext["typing.get_origin"].fn(self, [o], {}) if False else generic_origin(o)
        if name == "__args__":
            return o.args
    if isinstance(o, BoundV) and name == "__func__":
        return o.fn
    if isinstance(o, BoundV) and name == "__self__":
        return o.self_
    if isinstance(o, FuncV):
        if name in o.attrs:
            return o.attrs[name]
        if name in ("__name__", "__qualname__"):
            return getattr(o.node, "name", "<lambda>")
        if name == "__doc__":
            return None
        if default is not MISSING:
            return default
        self.pyraise(AttributeError, name)
    if isinstance(o, ExcV):
        if name == "args":
            return o.args
        if name in o.attrs:
            return o.attrs[name]
        if name == "with_traceback":
            return BuiltinV("with_traceback", lambda interp, args, kw: o)
        if default is not MISSING:
            return default
        self.pyraise(AttributeError, name)
    from . import lib
    m = lib.method(self, o, name)
    if m is not None:
        return m
    if isinstance(o, type):
        if name == "__name__":
            return o.__name__
        if (o, name) == (dict, "fromkeys"):
            raise Unsupported("dict.fromkeys")
        r = self.ext.get(f"builtins.{o.__name__}.{name}")
        if r is not None:
            return r
    if isinstance(o, TypeOf) and name == "__name__":
        return SS(self.ctx.fresh("clsname", S))
    if name == "__class__":
        return self.type_(o)
    if default is not MISSING:
        return default
    if name.startswith("__") and isinstance(o, (PartialV, BoundV, BuiltinV)):
        raise Unsupported(f"attribute {name} of {type(o).__name__}")
    if isinstance(o, (TypeOf, BoundV, PartialV)):
        h = self.hooks.get("getattr")
        if h is not None:
            r = h(self, o, name)
            if r is not NotImplemented:
                return r
        raise Unsupported(f"attribute {name} of {type(o).__name__}")
    self.pyraise(AttributeError, name)


def BuiltinSuper_():
    from .interp import BuiltinSuper
    return BuiltinSuper


def bind(self, f, decos, self_, cls):
    if not isinstance(f, FuncV):
        if isinstance(f, (BuiltinV, PartialV)) and decos:
            return BoundV(self_, f)
        return f
    if "staticmethod" in decos:
        return f
    if "classmethod" in decos:
        return BoundV(cls, f)
    if any(d in ("property", "abc.abstractproperty") or d.split("(")[0] in ("pulumi.getter", "getter") for d in decos):
        return self.call_func(f, [self_], {})
    return BoundV(self_, f)


def obj_getattr(self, o, name, default=MISSING):
    if name == "__dict__":
        return o.fields
    if name == "__class__":
        return o.cls
    ca = self.class_attr(o.cls, name)
    if ca is not None and any(d in ("property",) for d in ca[2]):
        return self.call_func(ca[1], [o], {})
    f, v = self.dict_lookup(o.fields, name)
    if f:
        return v
    if ca is not None and not any(d == "contextproperty" for d in ca[2]):
        return self.bind(ca[1], ca[2], o, o.cls)
    if o.cls.kindname == "namedtuple" and name == "_replace":
        def rep(interp, args, kw):
            n = ObjV(o.cls)
            n.fields.ops = tuple(("set", x[1], kw.get(x[1], x[2])) for x in o.fields.ops)
            return n
        return BuiltinV("_replace", rep)
    if o.cls.kindname == "namedtuple" and name == "_asdict":
        return BuiltinV("_asdict", lambda interp, args, kw: DictV(tuple(("set", f, interp.getattr_(o, f)) for f in o.cls.fieldnames)))
    ga = self.class_attr(o.cls, "__getattr__")
    if ga is not None and not (name.startswith("__") and name.endswith("__")):
        return self.call_func(ga[1], [o, name], {})
    if o.cls.pybases() and name == "with_traceback":
        return BuiltinV("with_traceback", lambda interp, args, kw: o)
    if default is not MISSING:
        return default
    self.pyraise(AttributeError, name)


def sv_field(self, t, name, spec):
    key = (t.get_id(), name)
    if key in self.fields:
        return self.fields[key][0]
    v = SV(ufunc("fld_" + name, V, V)(t))
    if spec is not None and spec != "any":
        self.typed(v, spec)
    self.ctx.jdict(self.fields, key, (v, t))
    return v


def sv_getattr(self, o, name, default=MISSING):
    t = o.term
    h = self.hooks.get("sv_getattr")
    if h is not None:
        r = h(self, o, name)
        if r is not NotImplemented:
            return r
    k = self.known_kind(t)
    if k is None:
        cands = []
        if name in STR_METHODS:
            cands.append(STR)
        if name in DICT_METHODS:
            cands += [DICT, STRUCT]
        if name in LIST_METHODS:
            cands.append(LIST)
        if name in SET_METHODS:
            cands.append(SET)
        cands.append(OBJ)
        k = self.kind_of(o, cands)
    if k == OBJ:
        for c in self.classes_of(t):
            if not isinstance(c, ClassV):
                continue
            for cc in c.mro():
                if not isinstance(cc, ClassV):
                    continue
                sch = self.schema.get(f"{cc.module.name}.{cc.name}", {})
                if name in sch:
                    sp = sch[name]
                    if isinstance(sp, tuple) and sp[0] == "attr":     # an attribute the object may lack
                        has = ufunc("has_" + name, V, z3.BoolSort())(t)
                        f = self.sv_field(t, name, None)
                        fm, us = self.spec_formula(f.term, sp[1])
                        self.ctx.fact(z3.Implies(has, fm))
                        if default is MISSING:
                            if self.truthy(SB(has), label="has " + name):
                                return f
                            self.pyraise(AttributeError, name)
                        return SV(z3.If(has, f.term, self.reify(default)))
                    return self.sv_field(t, name, sp)
            ca = self.class_attr(c, name)
            if ca is not None:
                return self.bind(ca[1], ca[2], o, c)
            if c.kindname == "namedtuple" and name == "_asdict":
                return BuiltinV("_asdict", lambda interp, args, kw: DictV(tuple(("set", f, interp.getattr_(o, f)) for f in c.fieldnames)))
            ga = self.class_attr(c, "__getattr__")
            if ga is not None and not name.startswith("__"):
                return self.call_func(ga[1], [o, name], {})
        raise Unsupported(f"attribute {name} of a symbolic object of unknown class ({t})")
    if k is not None:
        from . import lib
        m = lib.method(self, self.norm(o), name)
        if m is not None:
            return m
    if default is not MISSING:
        return default
    self.pyraise(AttributeError, name)


def setattr_(self, o, name, v):
    o = self.norm(o)
    if isinstance(o, ObjV):
        ca = self.class_attr(o.cls, name + ".setter")
        if ca is not None:
            self.call_func(ca[1], [o, v], {})
            return
        sa = self.class_attr(o.cls, "__setattr__")
        if sa is not None:
            self.call_func(sa[1], [o, name, v], {})
            return
        self.dict_set(o.fields, name, v)
        return
    if isinstance(o, ExcV):
        self.ctx.jdict(o.attrs, name, v)
        return
    if isinstance(o, FuncV):
        if self.writes is not None:
            raise Unsupported("attribute of a function assigned inside a loop")
        self.ctx.jdict(o.attrs, name, v)
        return
    h = self.hooks.get("setattr")
    if h is not None:
        return h(self, o, name, v)
    raise Unsupported(f"attribute assignment on {type(o).__name__}")


def type_(self, v):
    v = self.norm(v)
    if isinstance(v, ObjV):
        return v.cls
    if conc(v):
        return type(v)
    m = {SB: bool, SI: int, SR: float, SS: str, ListV: list, tuple: tuple, TupV: tuple, DictV: dict, SetV: set}
    if type(v) in m:
        return m[type(v)]
    if isinstance(v, ExcV):
        return v.cls
    return TypeOf(v)
