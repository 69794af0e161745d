"""pyvc.values: meta-values manipulated by the symbolic interpreter."""
import itertools
from .core import *

_serial = itertools.count(1)


class SV:
    """Symbolic Python value of unknown (or path-dependent) class."""
    __slots__ = ("term",)

    def __init__(self, term):
        self.term = term

    def __repr__(self):
        return f"SV({self.term})"


class SB:
    __slots__ = ("f",)

    def __init__(self, f):
        self.f = f

    def __repr__(self):
        return f"SB({self.f})"


class SI:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __repr__(self):
        return f"SI({self.e})"


class SR:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __repr__(self):
        return f"SR({self.e})"


class SS:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __repr__(self):
        return f"SS({self.e})"


class Heap:
    def __init__(self):
        self.birth = next(_serial)
        self.term = None


class ListV(Heap):
    """segs: tuple of ('el', meta) | ('sym', SymSeg) | ('acc', id)"""

    def __init__(self, segs=()):
        super().__init__()
        self.segs = tuple(segs)

    def __repr__(self):
        return f"ListV{self.segs}"


class TupV:
    """Immutable tuple with symbolic segments."""

    def __init__(self, segs):
        self.segs = tuple(segs)

    def __repr__(self):
        return f"TupV{self.segs}"


class SymSeg:
    """Segment of symbolic length: for 0 <= j < m, elem(j) -> list of segs (forks allowed)."""

    def __init__(self, base, m, elem, one=True, subst=None, tag=None):
        self.base, self.m, self._elem, self.one, self._subst, self.tag = base, m, elem, one, subst, tag

    def elem(self, interp, j):
        return self._elem(interp, j)

    def subst(self, pairs, memo):
        return self._subst(pairs, memo)


class DictV(Heap):
    """ops: tuple of ('set', k, v) | ('del', k) | ('base', term) | ('lam', LamDict) | ('acc', id)"""

    def __init__(self, ops=(), cls="dict"):
        super().__init__()
        self.ops = tuple(ops)
        self.cls = cls       # 'dict' | 'struct'

    def __repr__(self):
        return f"DictV{self.ops}"


class SetV(Heap):
    """parts: tuple of ('el', meta) | ('sym', SymSeg) [each elem(j) gives parts] | ('set', term) | ('pred', name, fn) | ('acc', id)"""

    def __init__(self, parts=(), frozen=False):
        super().__init__()
        self.parts = tuple(parts)

    def __repr__(self):
        return f"SetV{self.parts}"


class ObjV(Heap):
    def __init__(self, cls, fields=None):
        super().__init__()
        self.cls = cls
        self.fields = fields if fields is not None else DictV()

    def __repr__(self):
        return f"<{self.cls} obj {self.birth}>"


class FutV(Heap):
    """state: ('pending',) | ('ok', v) | ('exc', e) | ('task', coro) | ('running',)"""

    def __init__(self, state=("pending",)):
        super().__init__()
        self.state = state


class CoroV(Heap):
    def __init__(self, thunk, name=""):
        super().__init__()
        self.thunk = thunk
        self.name = name
        self.args = None


class GenV(Heap):
    """Generator expression: segs are produced on demand by a loop over `segs` with body."""

    def __init__(self, node, env):
        super().__init__()
        self.node, self.env = node, env


class Env:
    __slots__ = ("vars", "parent", "module", "fn", "nonlocals", "globals_", "birth", "locals_")

    def __init__(self, parent=None, module=None, fn=None, locals_=None):
        self.vars = {}
        self.parent = parent
        self.module = module
        self.fn = fn
        self.nonlocals = ()
        self.globals_ = ()
        self.locals_ = locals_ or ()
        self.birth = next(_serial)


class FuncV(Heap):
    def __init__(self, node, env, module, qualname, cls=None, defaults=(), kw_defaults=()):
        super().__init__()
        self.node, self.env, self.module, self.qualname, self.cls = node, env, module, qualname, cls
        self.defaults, self.kw_defaults = defaults, kw_defaults
        self.deco = None
        self.attrs = {}          # attributes assigned to the function object

    def __repr__(self):
        return f"<func {self.qualname}>"


class BoundV:
    def __init__(self, self_, fn):
        self.self_, self.fn = self_, fn

    def __repr__(self):
        return f"<bound {self.fn}>"


class PartialV(Heap):
    def __init__(self, fn, args, kwargs):
        super().__init__()
        self.fn, self.args, self.kwargs = fn, args, kwargs


class BuiltinV:
    recv = None

    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __repr__(self):
        return f"<builtin {self.name}>"


class ClassV(Heap):
    def __init__(self, name, module, node, bases, env):
        super().__init__()
        self.name, self.module, self.node, self.bases, self.env = name, module, node, bases, env
        self.attrs = {}
        self.kindname = None     # 'enum' | 'namedtuple' | None
        self.fieldnames = None

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, ClassV):
                for c in b.mro():
                    if c in out:
                        out.remove(c)
                    out.append(c)
        for b in self.bases:
            if not isinstance(b, ClassV) and b not in out:
                out.append(b)
        return out

    def pybases(self):
        return [b for b in self.mro() if isinstance(b, type)]

    def issub(self, other):
        return other in self.mro() or (isinstance(other, type) and any(issubclass(b, other) for b in self.pybases()))

    def __repr__(self):
        return f"<class {self.module.name}.{self.name}>"


class ModuleV:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"<module {self.name}>"


class ExtV:
    """Attribute of an external (non-repository) module, by dotted name."""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"<ext {self.name}>"

    def __eq__(self, o):
        return isinstance(o, ExtV) and o.name == self.name

    def __hash__(self):
        return hash(self.name)


class TypeOf:
    """type(x) of a symbolic value."""

    def __init__(self, v):
        self.v = v


class GenericV:
    """A subscripted typing construct: Dict[str, int], Optional[str], ..."""

    def __init__(self, name, args):
        self.name, self.args = name, tuple(args)

    def __repr__(self):
        return f"{self.name}{list(self.args)}"


class ExcV(Heap):
    """Instance of a builtin exception class."""

    def __init__(self, cls, args):
        super().__init__()
        self.cls, self.args = cls, tuple(args)
        self.attrs = {}

    def __repr__(self):
        return f"{self.cls.__name__}{self.args}"


class Poison:
    def __init__(self, why):
        self.why = why


class Star:
    """*args with symbolic content in a call."""

    def __init__(self, segs):
        self.segs = tuple(segs)


class PyRaise(Exception):
    def __init__(self, exc):
        self.exc = exc


class ReturnEx(Exception):
    def __init__(self, value):
        self.value = value


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


MISSING = object()


def substm(m, pairs, memo):
    """Substitute z3 constants in a meta-value (deep; clones per-iteration heap objects)."""
    if isinstance(m, BuiltinV) and m.recv is not None:
        from . import lib
        o, name = substm(m.recv[0], pairs, memo), m.recv[1]
        b = BuiltinV(m.name, lambda i, a, kw: lib.method_(i, o, name).fn(i, a, kw))
        b.recv = (o, name)
        return b
    if m is None or isinstance(m, (bool, int, float, str, bytes, type, ExtV, ModuleV, ClassV, BuiltinV, Poison)):
        return m
    if isinstance(m, SV):
        return SV(z3.substitute(m.term, *pairs))
    if isinstance(m, SB):
        return SB(z3.substitute(m.f, *pairs))
    if isinstance(m, SI):
        return SI(z3.substitute(m.e, *pairs))
    if isinstance(m, SR):
        return SR(z3.substitute(m.e, *pairs))
    if isinstance(m, SS):
        return SS(z3.substitute(m.e, *pairs))
    if isinstance(m, tuple):
        return tuple(substm(x, pairs, memo) for x in m)
    k = id(m)
    if k in memo:
        return memo[k][1]
    limit = memo["birth"]
    if isinstance(m, TupV):
        r = TupV([substseg(s, pairs, memo) for s in m.segs])
        memo[k] = (m, r)
        return r
    if isinstance(m, BoundV):
        r = BoundV(substm(m.self_, pairs, memo), substm(m.fn, pairs, memo))
        memo[k] = (m, r)
        return r
    if isinstance(m, TypeOf):
        return TypeOf(substm(m.v, pairs, memo))
    if type(m).__name__ == "DictView":
        return type(m)(substm(m.d, pairs, memo), m.what)
    if type(m).__name__ in ("GatherFn", "CmV", "RangeV", "BuiltinSuper"):
        return m
    if isinstance(m, Env):
        if m.birth < limit:
            memo[k] = (m, m)
            return m
        e = Env(substm(m.parent, pairs, memo) if m.parent is not None else None, m.module, m.fn, m.locals_)
        e.nonlocals, e.globals_ = m.nonlocals, m.globals_
        memo[k] = (m, e)
        for n, v in m.vars.items():
            e.vars[n] = substm(v, pairs, memo)
        return e
    if isinstance(m, Heap):
        if m.birth < limit:
            return m
        c = object.__new__(type(m))
        c.__dict__.update(m.__dict__)
        c.birth = next(_serial)
        if "origin" in memo:
            c.origin = memo["origin"]
        memo[k] = (m, c)
        if m.term is not None:
            c.term = z3.substitute(m.term, *pairs)
        if isinstance(m, ListV):
            c.segs = tuple(substseg(s, pairs, memo) for s in m.segs)
        elif isinstance(m, DictV):
            c.ops = tuple(substop(s, pairs, memo) for s in m.ops)
        elif isinstance(m, SetV):
            c.parts = tuple(substseg(s, pairs, memo) for s in m.parts)
        elif isinstance(m, ObjV):
            c.fields = substm(m.fields, pairs, memo)
        elif isinstance(m, FutV):
            c.state = tuple([m.state[0]] + [substm(x, pairs, memo) for x in m.state[1:]])
        elif isinstance(m, CoroV):
            if m.args is None:
                raise Unsupported("opaque coroutine escapes a loop")
            interp, fn, bound = m.args
            nb = {kk: substm(v, pairs, memo) for kk, v in bound.items()}
            nf = substm(fn, pairs, memo)
            c.args = (interp, nf, nb)
            c.thunk = lambda: interp.exec_func(nf, nb)
        elif isinstance(m, GenV):
            c.env = substm(m.env, pairs, memo)
        elif isinstance(m, FuncV):
            c.env = substm(m.env, pairs, memo)
            c.defaults = tuple(substm(x, pairs, memo) for x in m.defaults)
        elif isinstance(m, PartialV):
            c.fn = substm(m.fn, pairs, memo)
            c.args = [substm(x, pairs, memo) for x in m.args]
            c.kwargs = {kk: substm(v, pairs, memo) for kk, v in m.kwargs.items()}
        elif isinstance(m, ExcV):
            c.args = tuple(substm(x, pairs, memo) for x in m.args)
        return c
    raise Unsupported(f"substitution into {type(m).__name__}")


def substseg(s, pairs, memo):
    t = s[0]
    if t == "el":
        return ("el", substm(s[1], pairs, memo))
    if t == "sym":
        return ("sym", s[1].subst(pairs, memo))
    if t == "set":
        return ("set", z3.substitute(s[1], *pairs))
    if t == "pred":
        f = s[2]
        return ("pred", s[1], lambda e: z3.substitute(f(e), *pairs))
    return s


def substop(s, pairs, memo):
    t = s[0]
    if t == "set":
        return ("set", substm(s[1], pairs, memo), substm(s[2], pairs, memo))
    if t == "del":
        return ("del", substm(s[1], pairs, memo))
    if t == "base":
        return ("base", z3.substitute(s[1], *pairs))
    if t == "lam":
        return ("lam", s[1].subst(pairs, memo))
    return s
