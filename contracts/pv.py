"""pv: the native meaning of the contract vocabulary.

The contracts in /verif/contracts/spec are ordinary (async) Python functions.  The deductive verifier (pyvc)
interprets them symbolically together with the real source; this module gives the same vocabulary a concrete
meaning, so that the very same contract can be run against the real code to search for a failing input when an
obligation does not discharge, and to cross-check the verifier when it does.
"""
import asyncio
import functools
import importlib
import inspect
import math
import random as _random

SYMBOLIC = False


class Violation(Exception):
    pass


class Reject(Exception):
    pass


class State:
    def __init__(self):
        self.rng = _random.Random(0)
        self.log = []
        self.calls = []
        self.ensured = 0
        self.patches = []
        self.n = 0


ST = State()


class Missing:
    """A private name the code no longer has: whatever uses it does not apply."""

    def __init__(self, q):
        self.__dict__["q"] = q

    def __call__(self, *a, **k):
        raise Reject()

    def __getattr__(self, n):
        raise Reject()


def reset(seed):
    for undo in reversed(ST.patches):
        undo()
    ST.__init__()
    ST.rng = _random.Random(seed)


def note(name, v):
    try:
        ST.log.append((name, repr(v)[:300]))
    except Exception:
        ST.log.append((name, "<unprintable>"))


# ------------------------------------------------------------------------------------------ generators
STRS = ["", "a", "b", "key", "some_key", "someKey", "__x", "0", "1", "urn:pulumi:s::p::t::n", "é", "__provider", "id", "urn"]
INTS = [0, 1, -1, 2, 7, 255, 2 ** 31]
FLOATS = [0.0, 1.0, -1.5, 3.25, 1e10]


class OddObject:
    """An object of a class of the user's, possibly falsy."""

    def __init__(self, truth):
        self.truth = truth

    def __bool__(self):
        return self.truth

    def __repr__(self):
        return f"OddObject({self.truth})"


def gen(spec, depth=0):
    r = ST.rng
    if spec is None or spec == "any":
        k = r.randrange(10 if depth < 3 else 6)
        if k == 5 and r.random() < 0.1:
            return OddObject(r.random() < 0.5)
        if k == 0:
            return None
        if k == 1:
            return r.random() < 0.5
        if k == 2:
            return r.choice(INTS)
        if k == 3:
            return r.choice(FLOATS)
        if k < 6:
            return r.choice(STRS)
        if k < 8:
            return [gen("any", depth + 1) for _ in range(r.randrange(4))]
        return {r.choice(STRS): gen("any", depth + 1) for _ in range(r.randrange(4))}
    if spec == "str":
        return r.choice(STRS)
    if spec == "bool":
        return r.random() < 0.5
    if spec == "int":
        return r.choice(INTS)
    if spec == "float":
        return r.choice(FLOATS)
    if spec == "none":
        return None
    if isinstance(spec, tuple):
        if spec[0] == "opt":
            return None if r.random() < 0.3 else gen(spec[1], depth)
        if spec[0] in ("list",):
            return [gen(spec[1], depth + 1) for _ in range(r.randrange(4))]
        if spec[0] == "set":
            return {gen(spec[1], depth + 1) for _ in range(r.randrange(4))}
        if spec[0] == "dict":
            v = spec[-1]
            return {r.choice(STRS): gen(v, depth + 1) for _ in range(r.randrange(4))}
        if spec[0] == "fut":
            return resolved(gen(spec[1], depth))
        if spec[0] == "native":
            return spec[1]()
    raise Reject(f"no native generator for {spec}")


def sym(name, spec="any", native=None):
    if native is not None:
        v = native() if callable(native) else ST.rng.choice(native)
    else:
        v = gen(spec)
    note(name, v)
    return v


def symstr(name, pool=None):
    v = ST.rng.choice(pool or STRS)
    note(name, v)
    return v


def choose(name, opts):
    v = ST.rng.choice(list(opts))
    note(name, v)
    return v


def choose_native(name, opts):
    v = ST.rng.choice(list(opts))
    note(name, v)
    return v


def rand():
    return ST.rng


# ------------------------------------------------------------------------------------------ construction
def resolve(q):
    parts = q.split(".")
    for i in range(len(parts), 0, -1):
        try:
            o = importlib.import_module(".".join(parts[:i]))
        except ImportError:
            continue
        for p in parts[i:]:
            o = getattr(o, p)
        return o
    raise ImportError(q)


def make(q, **fields):
    c = resolve(q)
    o = object.__new__(c)
    for k, v in fields.items():
        if isinstance(getattr(c, k, None), property):
            o.__dict__[k] = v
        else:
            setattr(o, k, v)
    return o


def resolved(v):
    f = asyncio.get_running_loop().create_future()
    f.set_result(v)
    return f


def symexc(name):
    return (CallbackError if ST.rng.random() < 0.7 else FalsyCallbackError)(name)


def failed(e):
    f = asyncio.get_running_loop().create_future()
    f.set_exception(e)
    f.exception()
    return f


def get(q):
    return resolve(q)


def standin(real, f):
    """A stand-in takes its arguments under its own names or under those of the real function."""
    if not inspect.isfunction(f) or not (inspect.isfunction(real) or inspect.isclass(real)):
        return f
    try:
        own, names = inspect.signature(f), inspect.signature(getattr(real, "pv_real", real))
    except (TypeError, ValueError):
        return f

    @functools.wraps(f)
    def call(*a, **k):
        try:
            own.bind(*a, **k)
        except TypeError:
            try:
                b = names.bind(*a, **k)
            except TypeError:
                return f(*a, **k)
            return f(*b.args, **b.kwargs)
        return f(*a, **k)
    call.pv_real = getattr(real, "pv_real", real)
    return call


def setg(q, v):
    mod, attr = q.rsplit(".", 1)
    m = resolve(mod)
    old = getattr(m, attr)
    ST.patches.append(lambda: setattr(m, attr, old))
    setattr(m, attr, standin(old, v))


def use(q, f):
    pass


def use_rec(q, f):
    pass


def invariant(q, pred, n=0, **specs):
    pass


def schema(q, **fields):
    pass


def root(f, *a, **k):
    return f(*a, **k)


unfold = root


# ------------------------------------------------------------------------------------------ obligations
def ensure(c, label):
    ST.ensured += 1
    if not c:
        raise Violation(label)


def fails(label, detail=""):
    raise Violation(f"{label} {detail}")


def assume(c):
    if not c:
        raise Reject()


def assume_text(c):
    assume(c)


def deep_same(a, b, d=0):
    if a is b:
        return True
    if d > 40:
        return True
    if isinstance(a, asyncio.Future) and isinstance(b, asyncio.Future):
        if a.done() and b.done() and not a.cancelled() and not b.cancelled():
            if a.exception() is not None or b.exception() is not None:
                return type(a.exception()) is type(b.exception())
            return deep_same(a.result(), b.result(), d + 1)
        return False
    if type(a) is not type(b):
        return False
    if isinstance(a, float):
        return a == b or (math.isnan(a) and math.isnan(b))
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(deep_same(x, y, d + 1) for x, y in zip(a, b))
    if isinstance(a, dict):
        return len(a) == len(b) and all(k in b and deep_same(v, b[k], d + 1) for k, v in a.items())
    if isinstance(a, (set, frozenset, str, int, bool, bytes)):
        return a == b
    if isinstance(a, BaseException):
        return deep_same(a.args, b.args, d + 1)
    if hasattr(a, "DESCRIPTOR"):
        return a == b
    if hasattr(a, "__dict__") and not callable(a):
        return deep_same(vars(a), vars(b), d + 1)
    try:
        return bool(a == b)
    except Exception:
        return False


def ensure_same(a, b, label):
    ST.ensured += 1
    if not deep_same(a, b):
        raise Violation(f"{label}: {a!r:.300} is not {b!r:.300}")


def implies(a, b):
    return (not a) or bool(b)


def iff(a, b):
    return bool(a) == bool(b)


def or_(*a):
    return any(a)


def and_(*a):
    return all(a)


def not_(a):
    return not a


def eqv(a, b):
    return deep_same(a, b)


def kind_is(v, *ks):
    names = {type(None): "none", bool: "bool", int: "int", float: "float", str: "str", list: "list", dict: "dict", set: "set",
             tuple: "tuple"}
    k = names.get(type(v))
    if k is None:
        if asyncio.isfuture(v) or asyncio.iscoroutine(v):
            k = "fut"
        elif type(v).__name__ == "Struct":
            k = "struct"
        elif type(v).__name__ == "ListValue":
            k = "listvalue"
        elif callable(v):
            k = "func"
        else:
            k = "obj"
    return k in ks


# ------------------------------------------------------------------------------------------ user callbacks
class CallbackError(RuntimeError):
    pass


class FalsyCallbackError(RuntimeError):
    def __bool__(self):
        return False


def func(name, raising=False, result=None, native=None):
    salt = ST.rng.random()
    may_raise = raising and ST.rng.random() < 0.4

    def f(*args, **kwargs):
        vals = tuple(args) + tuple(kwargs[k] for k in sorted(kwargs))
        ST.calls.append((f,) + vals)
        if may_raise:
            raise (CallbackError if ST.rng.random() < 0.7 else FalsyCallbackError)(f"callback {name} raises")
        if native is not None:
            return native(*args, **kwargs)
        h = _random.Random(f"{salt} {vals!r}")
        old, ST.rng = ST.rng, h
        try:
            return gen(result or "any", 2)
        finally:
            ST.rng = old
    f.__name__ = name
    note(name, "callback raising" if may_raise else "callback")
    return f


def calls():
    return ST.calls


async def settle():
    for _ in range(40):
        await asyncio.sleep(0)


def drain():
    pass


def settled(f):
    if not f.done():
        return "pending"
    if f.cancelled() or f.exception() is not None:
        return "exc"
    return "ok"


def opaque(v):
    return False


def later(v):
    """An awaitable that yields v: already resolved, or resolved by a task after some turns of the event loop."""
    if ST.rng.random() < 0.5:
        return resolved(v)
    f = asyncio.get_running_loop().create_future()
    n = ST.rng.randrange(4)

    async def go():
        for _ in range(n):
            await asyncio.sleep(0)
        f.set_result(v)
    asyncio.ensure_future(go())
    return f


def later_fail(e):
    if ST.rng.random() < 0.5:
        return failed(e)
    f = asyncio.get_running_loop().create_future()
    n = ST.rng.randrange(4)

    async def go():
        for _ in range(n):
            await asyncio.sleep(0)
        f.set_exception(e)
        f.exception()
    asyncio.ensure_future(go())
    return f
