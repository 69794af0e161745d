"""pyvc.prove: proof environment for contract harnesses (the symbolic meaning of the `pv` vocabulary)."""
import time
import traceback
from .core import *
from .values import *
from .interp import Interp, REPO_LIB
from .ops import conc, DictView
from . import loops, lib

import os
CONTRACTS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "contracts")


class Assumed(Exception):
    pass


# ----------------------------------------------------------------------------------------- structural equality
def scoped(i, fn):
    i.ctx.explore(fn, lambda fr, r: None)


def same(i, a, b, label):
    """Generate the obligations of `a` and `b` being the same value."""
    ctx = i.ctx
    a, b = i.norm(a), i.norm(b)
    if a is b:
        ctx.prove(True, label)
        return
    if isinstance(b, SV) and not isinstance(a, SV):
        a, b = b, a
    if conc(a) and conc(b):
        if type(a) is type(b) and a == b:
            ctx.prove(True, label)
        else:
            ctx.fail(label, f"{a!r} vs {b!r}")
        return
    if isinstance(a, SV):
        t = a.term
        if isinstance(b, SV):
            ctx.prove(t == b.term, label, f"{t} vs {b.term}")
            return
        if b is None or conc(b) or isinstance(b, (SS, SB, SI, SR)):
            if b is None:
                f = kind(t) == NONE
            elif isinstance(b, (bool, SB)):
                f = z3.And(kind(t) == BOOL, f_b(t) == i.asf(b))
            elif isinstance(b, (str, SS)):
                f = z3.And(kind(t) == STR, f_s(t) == i.zstr(b))
            elif isinstance(b, (int, SI)):
                f = z3.And(kind(t) == INT, f_i(t) == i.num(b))
            elif isinstance(b, (float, SR)):
                f = z3.And(kind(t) == FLOAT, f_r(t) == i.num(b))
            else:
                f = t == i.reify(b)
            ctx.prove(f, label, f"{t} vs {b}")
            return
        want = {ListV: LIST, DictV: DICT, SetV: SET, tuple: TUPLE, TupV: TUPLE}.get(type(b))
        if isinstance(b, DictV) and b.cls == "struct":
            want = STRUCT
        if isinstance(b, ListV) and getattr(b, "listvalue", False):
            want = LISTVALUE
        if want is not None:
            if b.term is not None if isinstance(b, Heap) else False:
                if ctx.entails(t == b.term):
                    ctx.prove(True, label)
                    return
            if not ctx.prove(kind(t) == want, label + " (class)", f"{t} vs {b}"):
                return
            i.set_kind(t, want)
            if want == LIST or want == TUPLE or want == LISTVALUE:
                same_segs(i, i.segments(a), i.segments(b), label)
            elif want in (DICT, STRUCT):
                same_dict(i, DictV((("base", t),)), b, label)
            else:
                same_set(i, (("set", t),), b.parts, label)
            return
        ctx.prove(t == i.reify(b), label, f"{t} vs {b}")
        return
    if isinstance(a, (bool, SB)) and isinstance(b, (bool, SB)):
        ctx.prove(z3.simplify(i.asf(a) == i.asf(b)), label)
        return
    if isinstance(a, (int, SI)) and isinstance(b, (int, SI)) and not isinstance(a, bool) and not isinstance(b, bool):
        ctx.prove(z3.simplify(i.num(a) == i.num(b)), label)
        return
    if isinstance(a, (float, SR)) and isinstance(b, (float, SR)):
        ctx.prove(z3.simplify(i.num(a) == i.num(b)), label)
        return
    if isinstance(a, (str, SS)) and isinstance(b, (str, SS)):
        ctx.prove(z3.simplify(i.zstr(a) == i.zstr(b)), label, f"{a} vs {b}")
        return
    if isinstance(a, ListV) and isinstance(b, ListV):
        same_segs(i, a.segs, b.segs, label)
        return
    if isinstance(a, (tuple, TupV)) and isinstance(b, (tuple, TupV)):
        same_segs(i, i.segments(a), i.segments(b), label)
        return
    if isinstance(a, DictV) and isinstance(b, DictV):
        if a.cls != b.cls:
            ctx.fail(label, f"{a.cls} vs {b.cls}")
            return
        same_dict(i, a, b, label)
        return
    if isinstance(a, SetV) and isinstance(b, SetV):
        same_set(i, a.parts, b.parts, label)
        return
    if isinstance(a, ObjV) and isinstance(b, ObjV):
        if a.cls is b.cls:
            if a.term is not None and b.term is not None and ctx.entails(a.term == b.term):
                ctx.prove(True, label)
                return
            h = i.hooks.get("same_obj")
            if h is not None:
                r = h(i, a, b, label)
                if r is not NotImplemented:
                    return
            same_dict(i, a.fields, b.fields, label)
            return
        ctx.fail(label, f"{a} vs {b}")
        return
    if isinstance(a, ExcV) and isinstance(b, ExcV) and a.cls is b.cls:
        same(i, a.args, b.args, label)
        return
    if isinstance(a, FutV) and isinstance(b, FutV):
        if a.state[0] == b.state[0] == "ok":
            same(i, a.state[1], b.state[1], label)
            return
    if isinstance(a, Heap) and isinstance(b, Heap) and a.term is not None and b.term is not None:
        ctx.prove(a.term == b.term, label, f"{a} vs {b}")
        return
    if isinstance(a, (type, ClassV, ExtV)) and a == b:
        ctx.prove(True, label)
        return
    ctx.fail(label, f"{str(a)[:150]} vs {str(b)[:150]}")


def drop_empty(i, segs):
    out = []
    for s in segs:
        if s[0] == "sym" and i.ctx.entails(s[1].m <= 0):
            continue
        out.append(s)
    return out


def same_segs(i, a, b, label):
    ctx = i.ctx
    a, b = list(a), list(b)
    if [s[0] for s in a] != [s[0] for s in b]:
        a, b = drop_empty(i, a), drop_empty(i, b)
    if [s[0] for s in a] != [s[0] for s in b]:
        # alternatives may be decided by the length of a symbolic segment
        segs = [s for s in a + b if s[0] == "sym"]
        if len(a) == 0 or len(b) == 0:
            ne = i.nonempty(a or b)
            ctx.prove(z3.Not(ne) if not isinstance(ne, bool) else not ne, label + " (length)", f"{a} vs {b}")
            return
        ctx.fail(label, f"sequences differ in shape: {str(a)[:200]} vs {str(b)[:200]}")
        return
    for x, y in zip(a, b):
        if x[0] == "el":
            same(i, x[1], y[1], label)
        elif x[0] == "sym":
            s1, s2 = x[1], y[1]
            if s1.base.key != s2.base.key:
                if not (s1.base.tag == s2.base.tag and ctx.entails(s1.base.term == s2.base.term)):
                    ctx.fail(label, f"sequences over different bases: {s1.base.term} vs {s2.base.term}")
                    continue
            if not ctx.prove(z3.simplify(s1.m == s2.m), label + " (length)"):
                continue
            j = ctx.fresh("j", I)

            def one(s1=s1, s2=s2, j=j):
                ctx.fact(z3.And(0 <= j, j < s1.m))
                ctx.register_index(s1.base, j)
                if s2.base.key != s1.base.key:
                    ctx.register_index(s2.base, j)
                if ctx.check() == z3.unsat:
                    raise PathDead()
                same_segs(i, s1.elem(i, j), s2.elem(i, j), label + "[j]")
            scoped(i, one)
        elif x[0] == "sorted":
            same_set(i, x[1].parts, y[1].parts, label)
        else:
            ctx.fail(label, f"segment {x[0]}")


def same_dict(i, a, b, label):
    ctx = i.ctx
    if a.ops == b.ops:
        ctx.prove(True, label)
        return
    keys = []
    for d in (a, b):
        for o in d.ops:
            if o[0] == "set" and conc(o[1]) and o[1] not in keys:
                keys.append(o[1])
    k = SV(ctx.fresh("k", V))

    def at(key):
        f1, v1 = i.dict_lookup(a, key)
        f2, v2 = i.dict_lookup(b, key)
        if f1 != f2:
            if ctx.check() == z3.unsat:
                raise PathDead()
            ctx.fail(label + " (keys)", f"key {key}: present={f1} vs present={f2}")
            return
        if f1:
            same(i, v1, v2, label + f"[{key if conc(key) else 'k'}]")
        else:
            ctx.prove(True, label)
    for key in keys:
        scoped(i, lambda: at(key))
    if any(o[0] != "set" or not conc(o[1]) for d in (a, b) for o in d.ops):
        def rest():
            for key in keys:
                f = i.eq(k, key)
                ctx.fact(z3.Not(i.asf(f)))
            at(k)
        scoped(i, rest)


def same_set(i, pa, pb, label):
    ctx = i.ctx
    e = SV(ctx.fresh("e", V))

    def go():
        f, g = i.asf(i.member(pa, e)), i.asf(i.member(pb, e))
        ctx.prove(z3.Implies(f, g), label + " (left in right)", f"{str(pa)[:150]} vs {str(pb)[:150]}")
        ctx.prove(z3.Implies(g, f), label + " (right in left)", f"{str(pa)[:150]} vs {str(pb)[:150]}")
    scoped(i, go)


# ----------------------------------------------------------------------------------------- vocabulary
def spec_of(i, m):
    """A type specification written in a harness (a string, or nested tuples/lists)."""
    if isinstance(m, str) or m is None:
        return m
    if isinstance(m, (tuple, ListV)):
        return tuple(spec_of(i, s[1]) for s in i.segments(m))
    raise Unsupported("type specification")


def p_sym(i, a, kw):
    name = a[0]
    spec = spec_of(i, a[1]) if len(a) > 1 else "any"
    n = i.ghost["nsym"] = i.ghost.get("nsym", 0) + 1
    c = i.ctx.fresh("in_" + name, V)
    v = SV(c)
    h = i.hooks.get("sym:" + spec) if isinstance(spec, str) else None
    if h is not None:
        return h(i, v)
    i.typed(v, spec)
    return i.norm(v)


def p_symstr(i, a, kw):
    v = SV(i.ctx.fresh("in_" + a[0], V))
    i.set_kind(v.term, STR)
    i.ctx.fact(kind(v.term) == STR)
    return i.norm(v)


def p_make(i, a, kw):
    """make('pulumi.x.Class', field=value, ...): an object of the class with exactly these fields (constructor bypassed)."""
    c = i.resolve_class(a[0])
    o = ObjV(c, DictV(tuple(("set", k, v) for k, v in kw.items())))
    return o


def p_ensure(i, a, kw):
    f = i.truth(a[0])
    i.ctx.prove(f if isinstance(f, bool) else z3.simplify(f), i.label(a[1]))


def p_ensure_same(i, a, kw):
    same(i, a[0], a[1], i.label(a[2]))


def p_assume(i, a, kw):
    f = i.truth(a[0])
    if f is True:
        return
    if f is False:
        raise PathDead()
    i.ctx.fact(f)
    if i.ctx.check() == z3.unsat:
        raise PathDead()


def p_assume_text(i, a, kw):
    """An assumption about strings; only used to decide where strings are cut."""
    f = i.truth(a[0])
    if f is False:
        raise PathDead()
    if f is not True:
        i.ctx.jappend(i.ctx.textfacts, f)


def p_fails(i, a, kw):
    i.ctx.fail(i.label(a[0]), a[1] if len(a) > 1 and isinstance(a[1], str) else "unreachable point reached")


def p_implies(i, a, kw):
    x, y = i.truth(a[0]), i.truth(a[1])
    return i.norm(SB(z3.simplify(z3.Implies(i.asf(x), i.asf(y)))))


def p_iff(i, a, kw):
    x, y = i.truth(a[0]), i.truth(a[1])
    return i.norm(SB(z3.simplify(i.asf(x) == i.asf(y))))


def p_or(i, a, kw):
    return i.norm(SB(z3.simplify(z3.Or(*[i.asf(i.truth(x)) for x in a]))))


def p_and(i, a, kw):
    return i.norm(SB(z3.simplify(z3.And(*[i.asf(i.truth(x)) for x in a]))))


def p_not(i, a, kw):
    return i.norm(SB(z3.simplify(z3.Not(i.asf(i.truth(a[0]))))))


def p_unfold(i, a, kw):
    i.ghost["root"] = a[0].qualname
    return i.call(a[0], a[1:], kw)


def p_root(i, a, kw):
    """root(f, *args): verify f's body (its own contract applies only to recursive calls)."""
    f = a[0]
    q = f.fn.qualname if isinstance(f, BoundV) else f.qualname
    i.ghost["root"] = q
    return i.call(f, a[1:], kw)


def p_get(i, a, kw):
    mod, attr = a[0].rsplit(".", 1)
    if i.find_module(mod) is not None:
        return i.module_attr(mod, attr)
    m2, c = mod.rsplit(".", 1)
    return i.getattr_(i.module_attr(m2, c), attr)


def p_setg(i, a, kw):
    mod, attr = a[0].rsplit(".", 1)
    if i.find_module(mod) is None:
        try:
            cls = i.module_attr(*mod.rsplit(".", 1)) if "." in mod and i.find_module(mod.rsplit(".", 1)[0]) is not None else None
            raw = i.class_attr(cls, attr) if isinstance(cls, ClassV) else None
            if raw is not None and isinstance(raw[1], FuncV) and isinstance(a[1], FuncV):
                a[1].stands_for = [x.arg for x in raw[1].node.args.posonlyargs + raw[1].node.args.args]
        except (Unsupported, PyRaise, KeyError):
            pass
        i.ctx.jdict(i.ext, a[0], a[1])
        return
    if isinstance(a[1], FuncV):
        try:
            real = i.module_attr(mod, attr)
            if isinstance(real, FuncV):
                a[1].stands_for = getattr(real, "stands_for", None) or [x.arg for x in real.node.args.posonlyargs + real.node.args.args]
            elif isinstance(real, ClassV):
                k, f, _ = i.class_attr(real, "__init__") or (None, None, None)
                if isinstance(f, FuncV):
                    a[1].stands_for = [x.arg for x in f.node.args.posonlyargs + f.node.args.args][1:]
        except (Unsupported, PyRaise, KeyError):
            pass
    vals = i.modvals.setdefault(mod, {})
    i.ctx.jdict(vals, attr, a[1])


def p_use(i, a, kw):
    """use('qualname', spec_fn): at every (non-root) call of the real function use spec_fn's result (callee contract)."""
    q, f = a[0], a[1]
    if f is None:  # the function itself, not the built-in contract for it
        i.ctx.jdict(i.contracts, q, None)
        return
    i.assumed_contracts.add(q)
    i.ctx.jdict(i.contracts, q, contract_from(q, f))


def p_use_rec(i, a, kw):
    """use_rec('qualname', spec_fn): recursive calls of the function, or of a function nested in it, satisfy spec_fn(first argument)."""
    q, f = a[0], a[1]
    i.assumed_contracts.add(q + " (recursive calls)")

    def ct(bound, fn):
        first = bound[(fn.node.args.posonlyargs + fn.node.args.args)[0].arg]
        r = i.call(f, [first], {})
        return r.thunk() if isinstance(r, CoroV) else r
    i.ctx.jdict(i.rec_contracts, q, ct)


def contract_from(q, f):
    def ct(i, bound, fn):
        if i.ghost.get("root") == q:
            i.ghost["root"] = None
            return NotImplemented
        args = []
        node = fn.node.args
        for x in node.posonlyargs + node.args:
            args.append(bound[x.arg])
        kw = {x.arg: bound[x.arg] for x in node.kwonlyargs}
        if node.vararg and getattr(getattr(f, "node", None), "args", None) is not None and f.node.args.vararg:
            segs = i.segments(bound[node.vararg.arg])
            if not all(s[0] == "el" for s in segs):
                raise Unsupported(f"contract of {q} called with an unknown number of arguments")
            args.extend(s[1] for s in segs)
        elif node.vararg:
            kw[node.vararg.arg] = bound[node.vararg.arg]
        if node.kwarg:
            d = bound[node.kwarg.arg]
            if not (isinstance(d, DictV) and not d.ops and hasattr(f, "node")
                    and node.kwarg.arg not in [x.arg for x in f.node.args.args + f.node.args.kwonlyargs]):
                kw[node.kwarg.arg] = d
        r = i.call(f, args, kw)
        if isinstance(r, CoroV):
            r = r.thunk()
        return r
    return ct


def p_func(i, a, kw):
    """An arbitrary callable supplied by the user: deterministic, effects logged in calls()."""
    t = i.ctx.fresh("in_" + a[0], V)
    i.ctx.fact(kind(t) == FUNC)
    v = SV(t)
    i.set_kind(t, FUNC)
    if kw.get("raising"):
        i.ctx.jdict(i.raising, t.get_id(), t)
    if kw.get("result") is not None:
        i.ctx.jdict(i.fresults, t.get_id(), (spec_of(i, kw["result"]), t))
    return v


def exc_facts(i, t):
    i.ctx.fact(kind(t) == OBJ)
    i.ctx.fact(i.isa_formula(t, Exception))
    i.ctx.fact(i.isa_formula(t, BaseException))
    i.ctx.fact(z3.Not(i.isa_formula(t, __import__("asyncio").InvalidStateError)))


def p_symexc(i, a, kw):
    """An exception object of some class derived from Exception."""
    t = i.ctx.fresh("in_" + a[0], V)
    i.set_kind(t, OBJ)
    exc_facts(i, t)
    return SV(t)


def call_symbolic(i, f, args, kwargs):
    log = i.ghost_list("calls")
    vals = list(args) + [kwargs[k] for k in sorted(kwargs)]
    terms = [i.reify(x) for x in vals]
    n = len(terms)
    i.list_append(log, (f,) + tuple(vals))
    nm = f"call{n}" + "".join("_" + k for k in sorted(kwargs))
    if f.term.get_id() in i.raising:
        if i.ctx.branch(ufunc(nm + "_raises", *([V] * (n + 1)), B)(f.term, *terms), "callback raises"):
            e = SV(ufunc(nm + "_exc", *([V] * (n + 1)), V)(f.term, *terms))
            exc_facts(i, e.term)
            raise PyRaise(e)
    r = SV(ufunc(nm, *([V] * (n + 1)), V)(f.term, *terms))
    spec = i.fresults.get(f.term.get_id())
    if spec is not None:
        i.typed(r, spec[0])
    return i.norm(r)


def p_calls(i, a, kw):
    return i.ghost_list("calls")


def p_uf(i, a, kw):
    """uf('name', *args): uninterpreted ghost function."""
    terms = [i.reify(x) for x in a[1:]]
    v = SV(ufunc("gh_" + a[0], *([V] * len(terms)), V)(*terms))
    spec = kw.get("result")
    if spec is not None:
        i.typed(v, spec_of(i, spec))
    return i.norm(v)


def p_ufb(i, a, kw):
    terms = [i.reify(x) for x in a[1:]]
    return SB(ufunc("ghb_" + a[0], *([V] * len(terms)), B)(*terms))


def p_drain(i, a, kw):
    i.drain()


def p_settled(i, a, kw):
    """State of a future: 'ok', 'exc', 'pending'."""
    v = i.norm(a[0])
    if isinstance(v, FutV):
        if v.state[0] == "task":
            i.run_task(v)
        return v.state[0]
    raise Unsupported("settled() of a symbolic future")


def p_kind(i, a, kw):
    """kind_is(v, 'list', ...)"""
    v = i.norm(a[0])
    names = dict(str=STR, bool=BOOL, int=INT, float=FLOAT, none=NONE, list=LIST, dict=DICT, set=SET, fut=FUT, obj=OBJ,
                 struct=STRUCT, listvalue=LISTVALUE, func=FUNC, tuple=TUPLE)
    ks = [names[x] for x in a[1:]]
    if isinstance(v, SV):
        k = i.known_kind(v.term)
        if k is not None:
            return k in ks
        return SB(z3.Or(*[kind(v.term) == c for c in ks]))
    t = i.reify(v)
    k = {type(None): NONE, bool: BOOL, SB: BOOL, int: INT, SI: INT, float: FLOAT, SR: FLOAT, str: STR, SS: STR, ListV: LIST,
         DictV: DICT, SetV: SET, FutV: FUT, CoroV: FUT, tuple: TUPLE, TupV: TUPLE, ObjV: OBJ}.get(type(v))
    if isinstance(v, DictV) and v.cls == "struct":
        k = STRUCT
    return k in ks


def p_resolved(i, a, kw):
    return FutV(("ok", a[0]))


def p_forall(i, a, kw):
    raise Unsupported("forall")


def p_same(i, a, kw):
    """Boolean: term identity/equality of two values (usable in conditions)."""
    r = i.eq(a[0], a[1])
    return i.wrapb(r)


def p_failed(i, a, kw):
    return FutV(("exc", a[0]))


def p_opaque(i, a, kw):
    """opaque(v): v is a value the proof knows nothing structural about (an input variable)."""
    return isinstance(i.norm(a[0]), SV)


def p_schema(i, a, kw):
    """schema('pulumi.x.Class', field=spec, ...): data invariant of every object of the class (types of its fields)."""
    d = dict(i.schema.get(a[0], {}))
    d.update({k: spec_of(i, v) for k, v in kw.items()})
    i.ctx.jdict(i.schema, a[0], d)


def p_invariant(i, a, kw):
    """invariant('qualname', pred, n=0, var=spec, ...): the n-th loop of the function keeps pred(done, step, var, ...)."""
    n = a[2] if len(a) > 2 else kw.pop("n", 0)
    i.ctx.jdict(i.invariants, (a[0], n), (a[0], a[1], {k: spec_of(i, v) for k, v in kw.items()}))


def p_set_root(i, a, kw):
    i.ghost["root"] = a[0]


VOCAB = dict(invariant=p_invariant, symexc=p_symexc, schema=p_schema, use_rec=p_use_rec, set_root=p_set_root, failed=p_failed, later=p_resolved, later_fail=p_failed, opaque=p_opaque, sym=p_sym, symstr=p_symstr, make=p_make, ensure=p_ensure, ensure_same=p_ensure_same, assume=p_assume, assume_text=p_assume_text,
             fails=p_fails, implies=p_implies, iff=p_iff, or_=p_or, and_=p_and, not_=p_not, unfold=p_unfold, root=p_root,
             get=p_get, setg=p_setg, use=p_use, func=p_func, calls=p_calls, ufn=p_uf, ufb=p_ufb, drain=p_drain,
             settled=p_settled, kind_is=p_kind, resolved=p_resolved, eqv=p_same)


class Prover:
    def __init__(self, timeout_ms=4000, deadline=None):
        self.ctx = Ctx(timeout_ms=timeout_ms, deadline=deadline)
        i = self.i = Interp(self.ctx, {"pulumi": REPO_LIB, "spec": CONTRACTS})
        i.assumed_contracts = set()
        i.raising = {}
        i.fresults = {}
        i.hooks["call_symbolic"] = call_symbolic
        i.label = lambda m: m if isinstance(m, str) else "ensure"

        def ghost_list(name):
            d = i.ghost.setdefault("lists", {})
            if name not in d:
                l = ListV()
                l.birth = 0
                i.ctx.jdict(d, name, l)
            return d[name]
        i.ghost_list = ghost_list
        for k, f in VOCAB.items():
            i.ext[k] = BuiltinV("pv." + k, f)
        i.ext["SYMBOLIC"] = True
        i.schema.setdefault("pulumi.output.Output", {
            "_future": ("fut", "any"), "_is_known": ("fut", "bool"), "_is_secret": ("fut", "bool"),
            "_resources": ("fut", ("set", ("obj", "pulumi.resource.Resource")))})
        i.schema.setdefault("pulumi.output.Unknown", {})

    def run(self, modname, fname, setup=None):
        """Verify one harness; returns a result record."""
        i, ctx = self.i, self.ctx
        n0 = len(ctx.obligations)
        t0 = time.time()
        st0 = ctx.solver_time
        paths = [0]
        err = None
        i.ghost = {}

        def go():
            i.ghost = {}
            i.tasks = []
            if setup is not None:
                setup(i)
            f = i.module_attr(modname, fname)
            try:
                r = i.call(f, [], {})
                if isinstance(r, CoroV):
                    r.thunk()
            except PyRaise as e:
                ctx.fail(f"{fname}: no unexpected exception", f"escaping exception {describe(i, e.exc)}")

        def end(fr, r):
            if ctx.check() != z3.unsat:
                paths[0] += 1
        try:
            ctx.explore(go, end)
        except Unsupported as e:
            err = f"unsupported: {e}"
            tb = traceback.extract_tb(e.__traceback__)
            self.last_tb = "".join(traceback.format_list(tb[-6:]))
        except Budget as e:
            err = f"budget: {e}"
            self.last_tb = ""
        except RecursionError as e:
            err = "unsupported: recursion depth"
            import sys
            tb = traceback.extract_tb(sys.exc_info()[2])
            self.last_tb = "".join(traceback.format_list(tb[-40:]))
        obs = ctx.obligations[n0:]
        return dict(harness=f"{modname}.{fname}", obligations=obs, paths=paths[0], error=err, time=time.time() - t0,
                    solver_time=ctx.solver_time - st0)


def describe(i, e):
    if isinstance(e, ExcV):
        return f"{e.cls.__name__}{tuple(str(x)[:100] for x in e.args)}"
    if isinstance(e, ObjV):
        return f"{e.cls.name} {str(e.fields.ops)[:200]}"
    return str(e)[:200]


def p_choose(i, a, kw):
    opts = [s[1] for s in i.segments(a[1])]
    c = i.ctx.fresh("choice", I)
    n = len(opts)
    i.ctx.fact(z3.And(0 <= c, c < n))
    k = i.ctx.decide([c == q for q in range(n)], [f"{a[0]}={o}" for o in opts])
    return opts[k]


VOCAB["choose"] = p_choose
VOCAB["choose_native"] = lambda i, a, kw: None
