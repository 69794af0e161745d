"""pyvc.lib: models of the builtins and of the external libraries the verified functions use (assumed contracts)."""
import asyncio
import ast
import builtins as pyb
import json
import re as pyre
from .core import *
from .values import *
from . import strings
from .ops import conc, RangeV, BaseSeg, DictView

T = z3.BoolVal(True)


class CmV:
    def __init__(self, cm_kind, types=(), value=None):
        self.cm_kind, self.types, self.value = cm_kind, types, value


class ZipSeg(SymSeg):
    def __init__(self, parts):
        self.parts = parts
        self.base, self.m, self.one, self.tag = parts[0].base, parts[0].m, True, None

    def cases(self, interp, j):
        alts = [(T, ())]
        for p in self.parts:
            new = []
            for g, vals in alts:
                for g2, segs in p.cases(interp, j):
                    if len(segs) != 1 or segs[0][0] != "el":
                        raise Unsupported("zip of nested segments")
                    new.append((g2 if z3.is_true(g) else g if z3.is_true(g2) else z3.And(g, g2), vals + (segs[0][1],)))
            alts = new
        return [(g, [("el", v)]) for g, v in alts]

    def subst(self, pairs, memo):
        return ZipSeg([p.subst(pairs, memo) for p in self.parts])


class EnumSeg(SymSeg):
    def __init__(self, inner, off):
        self.inner, self.off = inner, off
        self.base, self.m, self.one, self.tag = inner.base, inner.m, True, None

    def cases(self, interp, j):
        out = []
        for g, segs in self.inner.cases(interp, j):
            out.append((g, [("el", (SI(z3.simplify(self.off + j)), segs[0][1]))]))
        return out

    def subst(self, pairs, memo):
        return EnumSeg(self.inner.subst(pairs, memo), z3.substitute(self.off, *pairs))


def B_(name, fn):
    return BuiltinV(name, fn)


# ------------------------------------------------------------------------------- futures
def fut_method(interp, f, name):
    def set_result(i, a, kw):
        if f.state[0] != "pending":
            i.pyraise(asyncio.InvalidStateError, "invalid state")
        i.hset(f, "state", ("ok", a[0]))

    def set_exception(i, a, kw):
        if f.state[0] != "pending":
            i.pyraise(asyncio.InvalidStateError, "invalid state")
        e = a[0]
        if isinstance(e, type):
            e = ExcV(e, ())
        i.hset(f, "state", ("exc", e))

    def result(i, a, kw):
        if f.state[0] in ("ok", "exc"):
            return i.await_fut(f)
        if f.state[0] == "task":
            i.run_task(f)
            return i.await_fut(f)
        i.pyraise(asyncio.InvalidStateError, "Result is not ready.")

    def exception(i, a, kw):
        if f.state[0] == "exc":
            return f.state[1]
        if f.state[0] == "ok":
            return None
        i.pyraise(asyncio.InvalidStateError, "Exception is not set.")

    def done(i, a, kw):
        return f.state[0] in ("ok", "exc")

    def add_done_callback(i, a, kw):
        return None
    m = dict(set_result=set_result, set_exception=set_exception, result=result, exception=exception, done=done,
             add_done_callback=add_done_callback, cancelled=lambda i, a, kw: False)
    if name in m:
        return B_("Future." + name, m[name])
    return None


def ensure_future(interp, a, kw):
    x = interp.norm(a[0])
    if isinstance(x, FutV):
        return x
    if isinstance(x, CoroV):
        f = FutV(("task", x))
        interp.ctx.jappend(interp.tasks, f)
        return f
    if isinstance(x, SV):
        if interp.kind_of(x, [FUT]) == FUT:
            return x
    interp.pyraise(TypeError, "An asyncio.Future, a coroutine or an awaitable is required")


def gather(interp, a, kw):
    """Awaits its arguments; sequential completion (interleavings of independent awaitables are abstracted)."""
    segs = []
    for x in a:
        if isinstance(x, Star):
            segs.extend(x.segs)
        else:
            segs.append(("el", x))

    def thunk():
        out = ListV()
        interp.loops.run_loop(interp, segs, lambda x: interp.list_append(out, interp.await_(x)), where="asyncio.gather")
        return out
    c = CoroV(thunk, "asyncio.gather")
    bound = {"aws": TupV(segs)}

    fn = GatherFn()
    c.args = (interp, fn, bound)
    c.thunk = lambda: interp.exec_func(fn, bound)
    return c


class GatherFn:
    """Pseudo-function whose execution awaits bound['aws'] in order."""
    qualname = "asyncio.gather"


def isawaitable(interp, a, kw):
    v = interp.norm(a[0])
    if isinstance(v, (FutV, CoroV)):
        return True
    if isinstance(v, SV):
        k = interp.known_kind(v.term)
        return (k == FUT) if k is not None else SB(kind(v.term) == FUT)
    if isinstance(v, ObjV):
        return interp.class_attr(v.cls, "__await__") is not None
    return False


# ------------------------------------------------------------------------------- builtins
def b_len(i, a, kw):
    return i.len_(a[0])


def b_any(i, a, kw):
    segs = i.iter_segments(a[0])
    fs = []
    for s in segs:
        r = seg_exists(i, s, lambda v: i.truth(v))
        if r is True:
            return True
        if r is not False:
            fs.append(r)
    return i.norm(SB(z3.simplify(z3.Or(*fs)))) if fs else False


def b_all(i, a, kw):
    segs = i.iter_segments(a[0])
    fs = []

    def neg(v):
        t = i.truth(v)
        return (not t) if isinstance(t, bool) else z3.Not(t)
    for s in segs:
        r = seg_exists(i, s, neg)
        if r is True:
            return False
        if r is not False:
            fs.append(r)
    return i.norm(SB(z3.simplify(z3.Not(z3.Or(*fs))))) if fs else True


def seg_exists(i, s, pred):
    if s[0] == "el":
        return pred(s[1])
    if s[0] == "sym":
        g = s[1]

        def p(j):
            alts = []
            for gd, segs2 in g.cases(i, j):
                for s2 in segs2:
                    r = seg_exists(i, s2, pred)
                    if r is True:
                        alts.append(gd)
                    elif r is not False:
                        alts.append(z3.And(gd, r))
            return z3.Or(*alts) if alts else z3.BoolVal(False)
        return i.exists(g.base, g.m, p)
    raise Unsupported("any/all over an accumulator")


def b_isinstance(i, a, kw):
    return i.isinstance_(a[0], a[1])


def b_getattr(i, a, kw):
    n = i.norm(a[1])
    if isinstance(n, SS):
        h = i.hooks.get("getattr_dyn")
        if h is not None:
            return h(i, a[0], n, *a[2:])
        o = i.norm(a[0])
        if isinstance(o, SV) and i.known_kind(o.term) == OBJ and len(a) > 2:
            # an arbitrary attribute of an arbitrary object: present or not, with any value
            nt = i.reify(n)
            has = ufunc("has_attr", V, V, z3.BoolSort())(o.term, nt)
            return SV(z3.If(has, ufunc("dyn_attr", V, V, V)(o.term, nt), i.reify(a[2])))
        if isinstance(o, ObjV) and len(a) > 2 and not o.cls.attrs and len(o.cls.mro()) == 1:
            return dict_method(i, o.fields, "get").fn(i, [n, a[2]], {})
        raise Unsupported("getattr with a symbolic name")
    return i.getattr_(a[0], n, a[2] if len(a) > 2 else MISSING)


def b_hasattr(i, a, kw):
    n = i.norm(a[1])
    if not isinstance(n, str):
        h = i.hooks.get("hasattr_dyn")
        if h is not None:
            return h(i, a[0], n)
        raise Unsupported("hasattr with a symbolic name")
    h = i.hooks.get("hasattr")
    if h is not None:
        r = h(i, a[0], n)
        if r is not NotImplemented:
            return r
    try:
        i.getattr_(a[0], n)
        return True
    except PyRaise as e:
        if isinstance(e.exc, ExcV) and e.exc.cls is AttributeError:
            return False
        raise


def b_setattr(i, a, kw):
    n = i.norm(a[1])
    if not isinstance(n, str):
        o = a[0]
        if isinstance(o, ObjV):
            i.dict_set(o.fields, n, a[2])
            return None
        raise Unsupported("setattr with a symbolic name")
    i.setattr_(a[0], n, a[2])


def b_type(i, a, kw):
    return i.type_(a[0])


def b_callable(i, a, kw):
    v = i.norm(a[0])
    if isinstance(v, (FuncV, BoundV, PartialV, BuiltinV, ClassV, type)):
        return True
    if isinstance(v, SV):
        k = i.known_kind(v.term)
        if k is not None and k != OBJ:
            return k in (FUNC, CLASS)
        return SB(z3.Or(kind(v.term) == FUNC, kind(v.term) == CLASS))
    if isinstance(v, ObjV):
        return i.class_attr(v.cls, "__call__") is not None
    return False


def b_issubclass(i, a, kw):
    c = a[0]
    targets = a[1] if isinstance(a[1], tuple) else (a[1],)
    if isinstance(c, ClassV):
        return any(c.issub(t) for t in targets if isinstance(t, (ClassV, type))) or any(
            isinstance(t, ExtV) and t.name == "enum.Enum" and c.kindname == "enum" for t in targets)
    if isinstance(c, type):
        return any(isinstance(t, type) and issubclass(c, t) for t in targets)
    h = i.hooks.get("issubclass")
    if h is not None:
        return h(i, a[0], a[1])
    raise Unsupported("issubclass of symbolic class")


def b_zip(i, a, kw):
    lists = [list(i.iter_segments(x)) for x in a]
    if all(all(s[0] == "el" for s in l) for l in lists):
        n = min(len(l) for l in lists)
        return ListV([("el", tuple(l[k][1] for l in lists)) for k in range(n)])
    n = len(lists[0])
    if any(len(l) != n for l in lists):
        raise Unsupported("zip of differently shaped sequences")
    out = []
    for k in range(n):
        ss = [l[k] for l in lists]
        if all(s[0] == "el" for s in ss):
            out.append(("el", tuple(s[1] for s in ss)))
        elif all(s[0] == "sym" and s[1].one for s in ss):
            m0 = ss[0][1].m
            for s in ss[1:]:
                if s[1].base.key != ss[0][1].base.key or not i.ctx.entails(s[1].m == m0):
                    raise Unsupported("zip of sequences over different bases")
            out.append(("sym", ZipSeg([s[1] for s in ss])))
        else:
            raise Unsupported("zip of differently shaped sequences")
    return ListV(out)


def b_enumerate(i, a, kw):
    start = a[1] if len(a) > 1 else kw.get("start", 0)
    off = i.num(start)
    out = []
    for s in i.iter_segments(a[0]):
        if s[0] == "el":
            out.append(("el", (i.norm(SI(z3.simplify(off))), s[1])))
            off = off + 1
        elif s[0] == "sym" and s[1].one:
            out.append(("sym", EnumSeg(s[1], z3.simplify(off))))
            off = off + s[1].m
        else:
            raise Unsupported("enumerate of a filtered sequence")
    return ListV(out)


def b_range(i, a, kw):
    if len(a) == 1:
        lo, hi = 0, a[0]
    elif len(a) == 2:
        lo, hi = a
    else:
        if all(isinstance(x, int) for x in a):
            return ListV([("el", x) for x in range(*a)])
        raise Unsupported("range step")
    return RangeV(i.num(lo), i.num(hi))


def b_reversed(i, a, kw):
    segs = i.segments(a[0])
    if all(s[0] == "el" for s in segs):
        return ListV(tuple(reversed(segs)))
    x = i.norm(a[0])
    if isinstance(x, SV):
        # axioms: same length, elements in the opposite order
        t = x.term
        r = ufunc("reversed", V, V)(t)
        n = f_len(t)
        i.decl_once(("reversed", t.get_id()), [kind(r) == LIST, f_len(r) == n, n >= 0])
        i.ctx.declared.add(("keep", t))
        i.ctx.add_univ(Univ(Base("list", r, n), lambda j: ([z3.Implies(z3.And(0 <= j, j < n), f_at(r, j) == f_at(t, n - 1 - j))], [], [])))
        i.ctx.add_univ(Univ(Base("list", t, n), lambda j: ([z3.Implies(z3.And(0 <= j, j < n), f_at(t, j) == f_at(r, n - 1 - j))], [], [])))
        out = SV(r)
        if t.get_id() in i.specof:
            i.typed(out, i.specof[t.get_id()][0])
        return out
    raise Unsupported("reversed of symbolic sequence")


def b_sorted(i, a, kw):
    segs = i.iter_segments(a[0]) if not isinstance(i.norm(a[0]), SetV) else tuple(i.norm(a[0]).parts)
    if len(segs) <= 1 and all(s[0] == "el" for s in segs):
        return ListV(segs)
    if all(s[0] == "el" and conc(s[1]) for s in segs) and not kw:
        return ListV([("el", x) for x in sorted(s[1] for s in segs)])
    r = ListV((("sorted", SetV(segs)),))
    return r


def b_map(i, a, kw):
    out = ListV()
    i.loops.run_loop(i, i.iter_segments(a[1]), lambda x: i.list_append(out, i.call(a[0], [x], {})), where="map")
    return out


def b_filter(i, a, kw):
    out = ListV()

    def body(x):
        if i.truthy(x if a[0] is None else i.call(a[0], [x], {})):
            i.list_append(out, x)
    i.loops.run_loop(i, i.iter_segments(a[1]), body, where="filter")
    return out


def reduce_(i, a, kw):
    e = Env(None, None)
    segs = list(i.iter_segments(a[1]))
    if len(a) > 2:
        e.vars["acc"] = a[2]
    else:
        if not segs:
            i.pyraise(TypeError, "reduce() of empty iterable with no initial value")
        if segs[0][0] != "el":
            raise Unsupported("reduce of a symbolic sequence without initial value")
        e.vars["acc"] = segs.pop(0)[1]

    def body(x):
        i.setvar(e, "acc", i.call(a[0], [i.lookup("acc", e), x], {}))
    i.loops.run_loop(i, segs, body, where="functools.reduce")
    return i.lookup("acc", e)


def b_minmax(which):
    def f(i, a, kw):
        vals = a
        if len(a) == 1:
            segs = i.segments(a[0])
            if not all(s[0] == "el" for s in segs):
                raise Unsupported("min/max of symbolic sequence")
            vals = [s[1] for s in segs]
        key = kw.get("key")
        best = vals[0]
        for v in vals[1:]:
            x, y = (i.call(key, [v], {}), i.call(key, [best], {})) if key is not None else (v, best)
            if i.truthy(i.compare(ast.Gt() if which == "max" else ast.Lt(), x, y)):
                best = v
        return best
    return f


def b_sum(i, a, kw):
    r = a[1] if len(a) > 1 else 0
    for s in i.iter_segments(a[0]):
        if s[0] != "el":
            raise Unsupported("sum of symbolic sequence")
        r = i.binop(ast.Add(), r, s[1])
    return r


def b_next(i, a, kw):
    segs = i.iter_segments(a[0])
    e = Env(None, None)
    e.vars["x"] = MISSING

    class Found(Exception):
        pass

    def body(x):
        raise ReturnEx(x)
    try:
        i.loops.run_loop(i, segs, body, where="next")
    except ReturnEx as r:
        return r.value
    if len(a) > 1:
        return a[1]
    i.pyraise(StopIteration)


def b_id(i, a, kw):
    return SI(ufunc("py_id", V, I)(i.reify(a[0])))


def b_dir(i, a, kw):
    raise Unsupported("dir()")


def b_vars(i, a, kw):
    return i.getattr_(a[0], "__dict__")


def b_repr(i, a, kw):
    v = i.norm(a[0])
    if isinstance(v, ObjV):
        ca = i.class_attr(v.cls, "__repr__")
        if ca is not None:
            return i.call_func(ca[1], [v], {})
    if conc(v):
        return repr(v)
    return i.opaque_str("repr", v)


def exc_info(i, a, kw):
    hs = i.ghost.get("handling")
    if not hs:
        return (None, None, None)
    e = hs[-1]
    return (b_type(i, [e], {}), e, i.traceback_of(e))


def noop(i, a, kw):
    return None


# ------------------------------------------------------------------------------- conversions
def parse_model(i, v, tag, rsort, wrap, exc):
    """Deterministic partial parser of a string: succeeds iff tag_ok(s), yielding tag_val(s)."""
    s = i.zstr(v)
    if i.ctx.branch(ufunc(tag + "_ok", S, B)(s), f"{tag} parses"):
        return wrap(ufunc(tag + "_val", S, rsort)(s))
    i.pyraise(exc, f"could not parse as {tag}")


def call_type(interp, f, args, kwargs, starkw=None):
    i = interp
    if issubclass(f, BaseException):
        return ExcV(f, args)
    if f is list:
        return ListV(i.iter_segments(args[0])) if args else ListV()
    if f is tuple:
        return i.mktuple(i.iter_segments(args[0])) if args else ()
    if f in (set, frozenset):
        return SetV(i.set_parts(args[0])) if args else SetV()
    if f is dict:
        d = DictV()
        if args:
            x = i.norm(args[0])
            if isinstance(x, SV) and i.kind_of(x, [DICT, STRUCT]) is not None:
                d.ops = (("base", x.term),) if x.term.get_id() not in i.sheap else i.sheap[x.term.get_id()][0].ops
            elif isinstance(x, DictV):
                d.ops = x.ops
            elif isinstance(x, DictView) and x.what == "items":
                return call_type(i, dict, [x.d], {})
            else:
                def body(kv):
                    segs = i.segments(kv)
                    if len(segs) != 2 or any(s[0] != "el" for s in segs):
                        raise Unsupported("dict() of non-pairs")
                    i.dict_set(d, segs[0][1], segs[1][1])
                i.loops.run_loop(i, i.iter_segments(x), body, where="dict()")
        for k, v in kwargs.items():
            i.dict_set(d, k, v)
        if starkw is not None:
            i.dict_update(d, starkw)
        return d
    if f is str:
        return i.str_(args[0]) if args else ""
    if f is bool:
        if not args:
            return False
        t = i.truth(args[0])
        return t if isinstance(t, bool) else SB(t)
    if f is int:
        if not args:
            return 0
        v = i.norm(args[0])
        if isinstance(v, SV):
            k = i.kind_of(v, [INT, FLOAT, STR, BOOL])
            if k is None:
                i.pyraise(TypeError, "int() argument")
            v = i.norm(v)
        if conc(v):
            try:
                return int(v)
            except (ValueError, TypeError, OverflowError) as e:
                i.pyraise(type(e), str(e))
        if isinstance(v, SI):
            return v
        if isinstance(v, SB):
            return SI(z3.If(v.f, z3.IntVal(1), z3.IntVal(0)))
        if isinstance(v, SR):
            # truncation toward zero
            return SI(z3.If(v.e >= 0, z3.ToInt(v.e), -z3.ToInt(-v.e)))
        if isinstance(v, SS):
            return parse_model(i, v, "int", I, SI, ValueError)
        i.pyraise(TypeError, "int() argument")
    if f is float:
        v = i.norm(args[0])
        if isinstance(v, SV):
            k = i.kind_of(v, [INT, FLOAT, STR, BOOL])
            if k is None:
                i.pyraise(TypeError, "float() argument")
            v = i.norm(v)
        if conc(v):
            try:
                return float(v)
            except (ValueError, TypeError) as e:
                i.pyraise(type(e), str(e))
        if isinstance(v, SR):
            return v
        if isinstance(v, SI):
            return SR(z3.ToReal(v.e))
        if isinstance(v, SB):
            return SR(z3.If(v.f, z3.RealVal(1), z3.RealVal(0)))
        if isinstance(v, SS):
            return parse_model(i, v, "float", R, SR, ValueError)
        i.pyraise(TypeError, "float() argument")
    if f is type and len(args) == 3 and isinstance(args[0], str) and isinstance(args[2], DictV):
        c = ClassV(args[0], i.find_module("pulumi"), None, [b for b in i.elements(args[1]) if b is not object], None)
        for op in args[2].ops:
            if op[0] != "set" or not isinstance(op[1], str):
                raise Unsupported("type() with computed attributes")
            c.attrs[op[1]] = ("value", op[2])
        return c
    if f is type:
        return i.type_(args[0])
    if f is object:
        return ObjV(i.object_class())
    if f is enumerate:
        return b_enumerate(i, args, kwargs)
    if f is zip:
        return b_zip(i, args, kwargs)
    if f is range:
        return b_range(i, args, kwargs)
    if f is map:
        return b_map(i, args, kwargs)
    if f is filter:
        return b_filter(i, args, kwargs)
    if f is reversed:
        return b_reversed(i, args, kwargs)
    raise Unsupported(f"call of builtin type {f.__name__}")


# ------------------------------------------------------------------------------- methods
def method(interp, o, name):
    m = method_(interp, o, name)
    if isinstance(m, BuiltinV) and not conc(o):
        m.recv = (o, name)
    return m


def method_(interp, o, name):
    i = interp
    if isinstance(o, SV):
        k = i.known_kind(o.term)
        if k in (DICT, STRUCT):
            return dict_method(i, o, name)
        if k in (LIST, LISTVALUE, TUPLE):
            return list_method(i, o, name)
        if k == SET:
            return set_method(i, o, name)
        if k == FUT:
            return symfut_method(i, o, name)
        return None
    if isinstance(o, FutV):
        return fut_method(i, o, name)
    if isinstance(o, DictV):
        return dict_method(i, o, name)
    if isinstance(o, (ListV, TupV, tuple)):
        return list_method(i, o, name)
    if isinstance(o, SetV):
        return set_method(i, o, name)
    if isinstance(o, DictView):
        return None
    if isinstance(o, (str, SS)):
        return str_method(i, o, name)
    if isinstance(o, GenV):
        return None
    if isinstance(o, CoroV) and name == "close":
        return B_("close", noop)
    return None


def symfut_method(i, o, name):
    if name == "done":
        return B_("done", lambda ii, a, kw: SB(ufunc("fut_done", V, B)(o.term)))
    if name in ("result",):
        return B_("result", lambda ii, a, kw: ii.sym_await(o))
    h = i.hooks.get("symfut_method")
    if h is not None:
        r = h(i, o, name)
        if r is not None:
            return B_("Future." + name, r)
    return None


def dict_method(i, d, name):
    def asd():
        if isinstance(d, DictV):
            return d
        return DictV((("base", d.term),))

    def mut():
        return i.thaw(d)

    def get(ii, a, kw):
        f, v = ii.dict_lookup(asd(), a[0])
        return v if f else (a[1] if len(a) > 1 else kw.get("default"))

    def view(what):
        return lambda ii, a, kw: DictView(d if isinstance(d, DictV) else asd(), what)

    def pop(ii, a, kw):
        m = mut()
        f, v = ii.dict_lookup(m, a[0])
        if not f:
            if len(a) > 1:
                return a[1]
            ii.pyraise(KeyError, a[0])
        ii.hset(m, "ops", m.ops + (("del", a[0]),))
        return v

    def update(ii, a, kw):
        m = mut()
        if a:
            x = ii.norm(a[0])
            if isinstance(x, (DictV,)) or isinstance(x, SV):
                ii.dict_update(m, x)
            else:
                ii.dict_update(m, call_type(ii, dict, [x], {}))
        for k, v in kw.items():
            if k == "**":
                ii.dict_update(m, v)
            else:
                ii.dict_set(m, k, v)

    def setdefault(ii, a, kw):
        m = mut()
        f, v = ii.dict_lookup(m, a[0])
        if f:
            return v
        v = a[1] if len(a) > 1 else None
        ii.dict_set(m, a[0], v)
        return v

    def copy(ii, a, kw):
        return DictV(asd().ops, cls=getattr(d, "cls", "dict"))

    def clear(ii, a, kw):
        m = mut()
        ii.hset(m, "ops", ())

    def contains(ii, a, kw):
        return ii.wrapb(ii.contains(d, a[0]))
    m = dict(get=get, items=view("items"), keys=view("keys"), values=view("values"), pop=pop, update=update,
             setdefault=setdefault, copy=copy, clear=clear, __contains__=contains)
    isstruct = (isinstance(d, DictV) and d.cls == "struct") or (isinstance(d, SV) and i.known_kind(d.term) == STRUCT)
    if isstruct:
        if name == "fields":
            return d
        if name == "get":
            return None
        if name == "CopyFrom":
            def cf(ii, a, kw):
                mm = mut()
                ii.hset(mm, "ops", tuple(asdict(ii, a[0])))
            return B_("Struct.CopyFrom", cf)
        if name == "get_or_create_struct":
            def gocs(ii, a, kw):
                n = DictV(cls="struct")
                ii.hset(d, "ops", d.ops + (("set", a[0], n),))
                return n
            return B_("Struct.get_or_create_struct", gocs)
    if name in m:
        return B_("dict." + name, m[name])
    if name == "__dict__":
        return None
    return None


def asdict(i, x):
    x = i.norm(x)
    if isinstance(x, DictV):
        return x.ops
    return (("base", x.term),)


def list_method(i, l, name):
    def mut():
        if isinstance(l, (tuple, TupV)):
            raise Unsupported("tuple mutation")
        return i.thaw(l)

    def append(ii, a, kw):
        ii.list_append(mut(), a[0])

    def extend(ii, a, kw):
        m = mut()
        segs = tuple(ii.iter_segments(a[0]))
        ii.hset(m, "segs", m.segs + segs)

    def insert(ii, a, kw):
        m = mut()
        if a[0] == 0:
            ii.hset(m, "segs", (("el", a[1]),) + m.segs)
            return
        if isinstance(a[0], int) and all(s[0] == "el" for s in m.segs):
            s = list(m.segs)
            s.insert(a[0], ("el", a[1]))
            ii.hset(m, "segs", tuple(s))
            return
        raise Unsupported("list.insert")

    def pop(ii, a, kw):
        m = mut()
        if isinstance(m, strings.SplitV) and (not a or a[0] == -1):
            r = m.pop()
            if r is not NotImplemented:
                return r
        if m.segs and m.segs[-1][0] == "el" and (not a or a[0] == -1):
            v = m.segs[-1][1]
            ii.hset(m, "segs", m.segs[:-1])
            return v
        if a and a[0] == 0 and m.segs and m.segs[0][0] == "el":
            v = m.segs[0][1]
            ii.hset(m, "segs", m.segs[1:])
            return v
        if not m.segs:
            ii.pyraise(IndexError, "pop from empty list")
        raise Unsupported("list.pop")

    def copy(ii, a, kw):
        return ListV(ii.segments(l))

    def reverse(ii, a, kw):
        m = mut()
        if all(s[0] == "el" for s in m.segs):
            ii.hset(m, "segs", tuple(reversed(m.segs)))
            return
        raise Unsupported("list.reverse")

    def sort(ii, a, kw):
        m = mut()
        r = b_sorted(ii, [m], kw)
        ii.hset(m, "segs", r.segs)

    def clear(ii, a, kw):
        ii.hset(mut(), "segs", ())

    def index(ii, a, kw):
        segs = ii.segments(l)
        n = 0
        for s in segs:
            if s[0] != "el":
                raise Unsupported("list.index of a symbolic sequence")
            if ii.truthy(ii.wrapb(ii.eq(s[1], a[0]))):
                return n
            n += 1
        ii.pyraise(ValueError, "not in list")

    def remove(ii, a, kw):
        m = mut()
        for n, s in enumerate(m.segs):
            if s[0] != "el":
                raise Unsupported("list.remove of a symbolic sequence")
            if ii.truthy(ii.wrapb(ii.eq(s[1], a[0]))):
                ii.hset(m, "segs", m.segs[:n] + m.segs[n + 1:])
                return
        ii.pyraise(ValueError, "list.remove(x): x not in list")

    def count(ii, a, kw):
        raise Unsupported("list.count")
    m = dict(append=append, extend=extend, insert=insert, pop=pop, copy=copy, reverse=reverse, sort=sort, clear=clear,
             index=index, count=count, remove=remove)
    islv = (isinstance(l, ListV) and getattr(l, "listvalue", False)) or (isinstance(l, SV) and i.known_kind(l.term) == LISTVALUE)
    if islv and name == "values":
        return l
    if isinstance(l, (tuple, TupV)) and name not in ("index", "count"):
        return None
    if isinstance(l, SV) and i.known_kind(l.term) == TUPLE and name not in ("index", "count"):
        return None
    if name in m:
        return B_("list." + name, m[name])
    return None


def set_method(i, s, name):
    def mut():
        return i.thaw(s)

    def parts():
        return i.set_parts(s)

    def add(ii, a, kw):
        ii.set_add(mut(), a[0])

    def update(ii, a, kw):
        m = mut()
        for x in a:
            ii.set_update(m, x)

    def union(ii, a, kw):
        p = parts()
        for x in a:
            p = p + tuple(ii.set_parts(x))
        return SetV(p)

    def difference(ii, a, kw):
        return ii.binop(ast.Sub(), s, SetV(ii.set_parts(a[0])))

    def intersection(ii, a, kw):
        return ii.binop(ast.BitAnd(), s, SetV(ii.set_parts(a[0])))

    def copy(ii, a, kw):
        return SetV(parts())

    def issubset(ii, a, kw):
        raise Unsupported("set.issubset")

    def discard(ii, a, kw):
        m = mut()
        x, p = a[0], m.parts
        t = ii.reify(x)
        ii.hset(m, "parts", (("pred", "discard", lambda e: z3.And(ii.asf(ii.member(p, SV(e))), e != t)),))

    def remove(ii, a, kw):
        if not ii.truthy(ii.wrapb(ii.contains(s, a[0]))):
            ii.pyraise(KeyError, a[0])
        discard(ii, a, kw)

    def clear(ii, a, kw):
        ii.hset(mut(), "parts", ())
    m = dict(add=add, update=update, union=union, difference=difference, intersection=intersection, copy=copy,
             issubset=issubset, discard=discard, remove=remove, clear=clear)
    if name in m:
        return B_("set." + name, m[name])
    return None


def str_method(i, s, name):
    def z(x):
        x = i.norm(x)
        if isinstance(x, SV):
            if i.kind_of(x, [STR]) != STR:
                i.pyraise(TypeError, "expected str")
            x = i.norm(x)
        r = i.zstr(x)
        if r is None:
            i.pyraise(TypeError, "expected str")
        return r

    def pure(ii, a, kw):
        return getattr(s, name)(*a, **kw)

    def concargs(a):
        return all(conc(x) or (isinstance(x, tuple) and all(conc(y) for y in x)) for x in a)

    def wrap(f):
        def g(ii, a, kw):
            a = [ii.norm(x) for x in a]
            if isinstance(s, str) and concargs(a) and concargs(kw.values()) and name not in ("join",):
                try:
                    r = getattr(s, name)(*a, **kw)
                except (TypeError, ValueError) as e:
                    ii.pyraise(type(e), str(e))
                if isinstance(r, list):
                    return ListV([("el", x) for x in r])
                return r
            return f(ii, a, kw)
        return g

    def startswith(ii, a, kw):
        if isinstance(a[0], tuple):
            return SB(z3.Or(*[z3.PrefixOf(z(x), z(s)) for x in a[0]]))
        return strings.decided(ii.ctx, z3.PrefixOf(z(a[0]), z(s)))

    def endswith(ii, a, kw):
        if isinstance(a[0], tuple):
            return SB(z3.Or(*[z3.SuffixOf(z(x), z(s)) for x in a[0]]))
        return strings.decided(ii.ctx, z3.SuffixOf(z(a[0]), z(s)))

    def opaque(tag):
        def f(ii, a, kw):
            t = z(s)
            for x in a:
                tag2 = tag
            zs = [z(x) if isinstance(ii.norm(x), (str, SS)) else ii.reify(x) for x in a]
            return SS(ufunc("str_" + tag + str(len(zs)), S, *[x.sort() for x in zs], S)(t, *zs))
        return f

    def join(ii, a, kw):
        segs = ii.iter_segments(a[0])
        if all(q[0] == "el" for q in segs):
            parts = []
            for n, q in enumerate(segs):
                if n:
                    parts.append(s)
                v = ii.norm(q[1])
                if isinstance(v, SV):
                    if ii.kind_of(v, [STR]) != STR:
                        ii.pyraise(TypeError, "sequence item: expected str instance")
                    v = ii.norm(v)
                if not isinstance(v, (str, SS)):
                    ii.pyraise(TypeError, "sequence item: expected str instance")
                parts.append(v)
            return ii.concat(parts)
        h = ii.hooks.get("str_join")
        if h is not None:
            return h(ii, s, segs)
        return SS(ufunc("str_join", S, V, S)(z(s), ii.reify(ListV(segs))))

    def sep_of(a):
        if not a or not isinstance(a[0], str) or a[0] == "":
            raise Unsupported(f"str.{name} with a symbolic separator")
        return a[0]

    def split(ii, a, kw):
        ms = kw.get("maxsplit", a[1] if len(a) > 1 else -1)
        if not isinstance(ms, int):
            raise Unsupported("str.split with a symbolic limit")
        return strings.SplitV(ii, s, sep_of(a), ms)

    def rsplit(ii, a, kw):
        ms = kw.get("maxsplit", a[1] if len(a) > 1 else -1)
        if ms != 1:
            raise Unsupported("str.rsplit of symbolic string")
        c = strings.cut_last(ii, s, sep_of(a))
        return ListV([("el", s)] if c is None else [("el", c[0]), ("el", c[1])])

    def partition(ii, a, kw):
        c = strings.cut_first(ii, s, sep_of(a))
        return (s, "", "") if c is None else (c[0], a[0], c[1])

    def rpartition(ii, a, kw):
        c = strings.cut_last(ii, s, sep_of(a))
        return ("", "", s) if c is None else (c[0], a[0], c[1])

    def position(cut, strict):
        def f(ii, a, kw):
            c = cut(ii, s, sep_of(a[:1] if len(a) == 1 else []))
            if c is None:
                if strict:
                    ii.pyraise(ValueError, "substring not found")
                return -1
            return ii.norm(SI(strings.length(c[0])))
        return f

    def replace(ii, a, kw):
        return opaque("replace")(ii, a, kw)

    def isp(tag):
        return lambda ii, a, kw: SB(ufunc("str_" + tag, S, B)(z(s)))

    def encode(ii, a, kw):
        return SV(ufunc("str_encode", S, V)(z(s)))
    m = dict(startswith=startswith, endswith=endswith, join=join, split=split, replace=replace, rsplit=rsplit, partition=partition, rpartition=rpartition,
             find=position(strings.cut_first, False), rfind=position(strings.cut_last, False),
             index=position(strings.cut_first, True), rindex=position(strings.cut_last, True),
             upper=opaque("upper"), lower=opaque("lower"), strip=opaque("strip"), rstrip=opaque("rstrip"),
             lstrip=opaque("lstrip"), title=opaque("title"), capitalize=opaque("capitalize"), isdigit=isp("isdigit"),
             isalnum=isp("isalnum"), isspace=isp("isspace"), encode=encode, removeprefix=opaque("removeprefix"),
             removesuffix=opaque("removesuffix"), format=lambda ii, a, kw: SS(ii.ctx.fresh("fmt", S)))
    if name in m:
        return B_("str." + name, wrap(m[name]))
    if name in ("splitlines", "count"):
        def f(ii, a, kw):
            h = ii.hooks.get("str_" + name)
            if h is not None:
                return h(ii, s, a, kw)
            raise Unsupported(f"str.{name} of symbolic string")
        return B_("str." + name, wrap(f))
    return None


# ------------------------------------------------------------------------------- copy
def copy_copy(i, a, kw):
    v = i.norm(a[0])
    if isinstance(v, ObjV):
        n = ObjV(v.cls, DictV(v.fields.ops))
        return n
    if isinstance(v, ListV):
        return ListV(v.segs)
    if isinstance(v, DictV):
        return DictV(v.ops, v.cls)
    if isinstance(v, SetV):
        return SetV(v.parts)
    if conc(v) or isinstance(v, (SS, SI, SR, SB, tuple)):
        return v
    if isinstance(v, SV):
        k = i.kind_of(v, [LIST, DICT, SET, OBJ])
        if k == LIST:
            return ListV(i.segments(v))
        if k == DICT:
            return DictV((("base", v.term),))
        if k == SET:
            return SetV((("set", v.term),))
        if k is None:
            return v
    raise Unsupported("copy.copy")


def install(interp):
    ext = interp.ext
    interp.setdefs = {}
    interp.setkeys = {}
    b = {"len": b_len, "any": b_any, "all": b_all, "isinstance": b_isinstance, "getattr": b_getattr, "hasattr": b_hasattr,
         "setattr": b_setattr, "callable": b_callable, "issubclass": b_issubclass, "zip": b_zip, "enumerate": b_enumerate,
         "range": b_range, "reversed": b_reversed, "sorted": b_sorted, "map": b_map, "filter": b_filter, "min": b_minmax("min"),
         "max": b_minmax("max"), "sum": b_sum, "next": b_next, "id": b_id, "vars": b_vars, "repr": b_repr, "print": noop,
         "iter": lambda i, a, kw: ListV(i.iter_segments(a[0])), "dir": b_dir}
    for k, f in b.items():
        ext["builtins." + k] = B_(k, f)
    ext["asyncio.Future"] = ExtV("asyncio.Future")
    ext["six.integer_types"], ext["six.string_types"] = (int,), (str,)
    ext["sys.version_info"] = tuple(__import__("sys").version_info)

    interp.ext_calls = {
        "asyncio.Future": lambda i, a, kw: FutV(),
        "asyncio.ensure_future": ensure_future,
        "asyncio.create_task": ensure_future,
        "asyncio.gather": gather,
        "asyncio.get_event_loop": lambda i, a, kw: ExtV("asyncio.loop"),
        "asyncio.loop.run_in_executor": run_in_executor,
        "asyncio.get_running_loop": lambda i, a, kw: ExtV("asyncio.loop"),
        "asyncio.new_event_loop": lambda i, a, kw: ExtV("asyncio.loop"),
        "asyncio.loop.run_until_complete": lambda i, a, kw: i.await_(a[0]),
        "asyncio.loop.close": lambda i, a, kw: None,
        "asyncio.loop.create_future": lambda i, a, kw: FutV(),
        "asyncio.loop.create_task": ensure_future,
        "asyncio.sleep": lambda i, a, kw: FutV(("ok", None)),
        "asyncio.iscoroutine": lambda i, a, kw: isinstance(i.norm(a[0]), CoroV),
        "asyncio.isfuture": lambda i, a, kw: isinstance(i.norm(a[0]), FutV) if not isinstance(i.norm(a[0]), SV) else isawaitable(i, a, kw),
        "inspect.isawaitable": isawaitable,
        "inspect.isclass": lambda i, a, kw: isinstance(a[0], (ClassV, type, GenericV, ExtV)) and not isinstance(a[0], (GenericV, ExtV)) if not isinstance(i.norm(a[0]), SV) else SB(kind(a[0].term) == CLASS),
        "contextlib.suppress": lambda i, a, kw: CmV("suppress", a),
        "functools.partial": lambda i, a, kw: PartialV(a[0], a[1:], kw),
        "functools.reduce": reduce_,
        "copy.copy": copy_copy,
        "google.protobuf.struct_pb2.Struct": lambda i, a, kw: DictV(cls="struct"),
        "google.protobuf.struct_pb2.ListValue": lambda i, a, kw: mk_listvalue(),
        "traceback.format_exc": lambda i, a, kw: SS(i.ctx.fresh("tb", S)),
        "traceback.format_exception": lambda i, a, kw: ListV(),
        "warnings.warn": noop,
        "json.loads": lambda i, a, kw: json_loads(i, a, kw),
        "json.dumps": lambda i, a, kw: SS(ufunc("json_dumps", V, S)(i.reify(a[0]))),
        "os.path.join": lambda i, a, kw: SS(i.ctx.fresh("path", S)),
        "os.fspath": lambda i, a, kw: a[0] if isinstance(a[0], (str, SS)) else SS(ufunc("fspath", V, S)(i.reify(a[0]))),
        "typing.get_origin": lambda i, a, kw: __import__("pyvc.ops", fromlist=["x"]).generic_origin(a[0]),
        "typing.get_args": lambda i, a, kw: a[0].args if isinstance(a[0], GenericV) else (),
        "typing.TypeVar": lambda i, a, kw: ExtV("typing.T"),
        "typing.cast": lambda i, a, kw: a[1],
        "os.getenv": lambda i, a, kw: os_getenv(i, a, kw),
        "sys.exc_info": exc_info,
        "six.raise_from": lambda i, a, kw: i.raise_(a[0]),
        "collections.namedtuple": namedtuple_,
        "contextvars.ContextVar": lambda i, a, kw: ExtV("ContextVar:" + str(a[0])),
        "abc.abstractmethod": lambda i, a, kw: a[0],
    }
    for e in (asyncio.InvalidStateError, asyncio.CancelledError):
        ext["asyncio." + e.__name__] = e
    ext["os.environ"] = DictV((("base", z3.Const("os_environ", V)),))
    ext["os.environ"].birth = 0
    ext["json.JSONDecodeError"] = json.JSONDecodeError
    for n in ("debug", "info", "warn", "error"):
        interp.contracts["pulumi.log." + n] = lambda i, b_, f: None


def mk_listvalue():
    l = ListV()
    l.listvalue = True
    return l


def json_loads(i, a, kw):
    v = i.norm(a[0])
    if isinstance(v, SV) and i.kind_of(v, [STR]) == STR:
        v = i.norm(v)
    if not isinstance(v, (str, SS)):
        i.pyraise(TypeError, "the JSON object must be str")
    r = parse_model(i, v, "json", V, SV, json.JSONDecodeError)
    return r


def run_in_executor(i, a, kw):
    """The function runs to its end while its caller waits."""
    try:
        return FutV(("ok", i.call(a[1], list(a[2:]), {})))
    except PyRaise as e:
        return FutV(("exc", e.exc))


def os_getenv(i, a, kw):
    f, v = i.dict_lookup(i.ext["os.environ"], a[0])
    return v if f else (a[1] if len(a) > 1 else None)


def namedtuple_(i, a, kw):
    segs = i.segments(a[1])
    m = i.find_module("pulumi")
    c = ClassV(a[0], m, None, [], None)
    c.kindname = "namedtuple"
    c.fieldnames = [s[1] for s in segs]
    return c
