"""C02: combinators of outputs: from_input, all, concat, secret, unsecret, joins of two inputs."""
import asyncio
import pulumi
from spec.common import *
from pulumi.output import _map_output, _map2_output, _map_input, _map2_input, _gather_from_dict

ASSUMPTIONS = ["dictionary inputs have string keys (Inputs = Mapping[str, ...])",
               "outside previews every output is known (the engine resolves all values in an update)",
               "input classes: checked on one representative class with two properties"]


# ---------------------------------------------------------------- deep contract of from_input
class Deep:
    """What an input denotes once deeply unwrapped."""

    def __init__(self, value, known, secret, deps):
        self.value = value
        self.known = known
        self.secret = secret
        self.deps = deps


def deep_uf(v):
    value = ufn("deepval", v)
    d = Deep(value, ufb("deepknown", v), ufb("deepsecret", v), ufn("deepdeps", v, result=("set", ("obj", RES))))
    assume(not_(and_(d.known, hasunk(value))))
    return d


def from_input_contract(val):
    d = deep_uf(val)
    return make(OUT, _future=resolved(d.value), _is_known=resolved(d.known), _is_secret=resolved(d.secret),
                _resources=resolved(d.deps))


def use_from_input():
    use("pulumi.output.Output.from_input", from_input_contract)


class State2:
    """Native: the state an output was built with."""

    def __init__(self, value, known, secret, deps):
        self.value, self.known, self.secret, self.deps = value, known, secret, deps


def deep(v):
    """One unfolding natively goes all the way down; symbolically nested inputs are opaque."""
    if SYMBOLIC:
        return deep_uf(v)
    return native_deep(v)


def native_deep(v):
    st = states().get(id(v))
    if st is not None:
        if isinstance(v, Output):
            inner = UNKNOWN if (dry() and not st.known and not hasunk(st.value)) else st.value
            d = native_deep(inner)
            return Deep(d.value, d.known, d.secret or st.secret, d.deps | st.deps)
        return native_deep(st.value)
    if isinstance(v, ArgsClass):
        parts = {k: native_deep(x) for k, x in v.__dict__.items()}
        val = ArgsClass(**{k: p.value for k, p in parts.items()})
        known = all(p.known for p in parts.values())
        ps = parts.values()
        return Deep(val if known or not dry() else None, known or not dry(), any(p.secret for p in ps), set().union(*[p.deps for p in ps]))
    if isinstance(v, dict) and v:
        ps = {k: native_deep(x) for k, x in v.items()}
        return Deep({k: p.value for k, p in ps.items()}, all(p.known for p in ps.values()), any(p.secret for p in ps.values()),
                    set().union(*[p.deps for p in ps.values()]))
    if isinstance(v, list) and v:
        ps = [native_deep(x) for x in v]
        return Deep([p.value for p in ps], all(p.known for p in ps), any(p.secret for p in ps), set().union(*[p.deps for p in ps]))
    return Deep(v, not hasunk(v), False, set())


def states():
    r = rand()
    if not hasattr(r, "pv_states"):
        r.pv_states = {}
        r.pv_keep = []
    return r.pv_states


def dry():
    import pulumi.runtime.settings as st
    return st.is_dry_run()


def native_input(depth=0):
    """Native: an arbitrary nested input: plain values, lists, dictionaries, awaitables, outputs, input objects."""
    r = rand()
    k = r.randrange(9 if depth < 3 else 4)
    if k < 4:
        return native_value(2)
    if k == 4:
        return [native_input(depth + 1) for _ in range(r.randrange(4))]
    if k == 5:
        return {q: native_input(depth + 1) for q in r.sample(["a", "b", "c", "d"], r.randrange(4))}
    if k == 6:
        return native_awaitable(native_input(depth + 1))
    if k == 7 and depth < 2:
        return ArgsClass(a=native_input(depth + 1), b=native_input(depth + 1))
    return native_output(native_input(depth + 1))


def native_awaitable(v):
    f = later(v)
    states()[id(f)] = State2(v, True, False, set())
    rand().pv_keep.append(f)
    return f


def native_output(v):
    r = rand()
    known = True if not dry() else (r.random() < 0.7 and not hasunk(v))
    st = State2(v, known, r.random() < 0.3, native_resources())
    o = make(OUT, _future=later(v), _is_known=later(known), _is_secret=later(st.secret), _resources=later(st.deps))
    states()[id(o)] = st
    rand().pv_keep.append(o)
    return o


@pulumi.input_type
class ArgsClass:
    def __init__(self, a=None, b=None):
        self.a = a
        self.b = b


async def ensure_denotes(o, d, what):
    ensure_same(await o._future, d.value, what + ": every value at its own place")
    ensure(iff(await o._is_known, d.known), what + ": known exactly when every constituent is")
    ensure(iff(await o._is_secret, d.secret), what + ": secret exactly when some constituent is")
    ensure_same(await o._resources, d.deps, what + ": dependencies are the union of the constituents'")


async def check_from_input():
    preview = choose("preview", [False, True])
    set_dry_run(preview)
    use_contains_unknowns()
    use_from_input()
    shape = choose("shape", ["output", "awaitable", "list", "dict", "plain", "args"])
    if not SYMBOLIC:
        v = native_input() if shape != "args" else ArgsClass(a=native_input(1), b=native_input(1))
        await ensure_denotes(Output.from_input(v), native_deep(v), "from_input")
        return

    def is_input_type(t):
        return shape == "args"
    use("pulumi._types.is_input_type", is_input_type)
    if shape == "output":
        val, known, secret, deps = sym("value"), sym("known", "bool"), sym("secret", "bool"), dep_set("deps")
        assume(or_(preview, known))
        o = an_output("o", val, known, secret, deps)
        r = root(Output.from_input, o)
        d = deep_uf(UNKNOWN) if and_(not_(known), not_(hasunk(val))) else deep_uf(val)
        await ensure_denotes(r, Deep(d.value, d.known, or_(secret, d.secret), deps | d.deps), "an output")
    elif shape == "awaitable":
        val = sym("value")
        r = root(Output.from_input, resolved(val))
        d = deep_uf(val)
        await ensure_denotes(r, d, "an awaitable")
    elif shape == "list":
        lst = sym("list", ("list", "any"))
        if len(lst) == 0:
            assume(not_(hasunk(lst)))      # definition of hasunk
        r = root(Output.from_input, lst)
        await ensure_list(r, lst, "a list")
    elif shape == "dict":
        dct = sym("dict", ("dict", "str", "any"))
        if len(dct) == 0:
            assume(not_(hasunk(dct)))      # definition of hasunk
        assume(all(isinstance(k, str) for k in dct))
        r = root(Output.from_input, dct)
        await ensure_dict(r, dct, "a dictionary")
    elif shape == "args":
        a, b = sym("a"), sym("b")
        r = root(Output.from_input, ArgsClass(a=a, b=b))
        da, db = deep_uf(a), deep_uf(b)
        v = await r._future
        if preview and not (da.known and db.known):
            ensure(not await r._is_known, "an input object is known only if every property is")
        else:
            ensure(isinstance(v, ArgsClass), "an input object is rebuilt as its own class")
            ensure_same(v.a, da.value, "an input object keeps each property")
            ensure_same(v.b, db.value, "an input object keeps each property")
        ensure(iff(await r._is_secret, or_(da.secret, db.secret)), "an input object is secret exactly when some property is")
        ensure_same(await r._resources, da.deps | db.deps, "an input object depends on its properties' resources")
    else:
        v = sym("value")
        assume(not isinstance(v, Output))
        assume(not_(kind_is(v, "fut")))
        assume(or_(not_(kind_is(v, "list", "dict")), not_(bool(v))))
        r = root(Output.from_input, v)
        ensure_same(await r._future, v, "a prompt value is its own value")
        ensure(iff(await r._is_known, not_(hasunk(v))), "a prompt value is known unless it is unknown")
        ensure(not await r._is_secret, "a prompt value is not secret")
        ensure_same(await r._resources, set(), "a prompt value depends on nothing")


async def ensure_list(r, lst, what):
    if len(lst) == 0:
        v = await r._future
        ensure(kind_is(v, "list", "dict"), what + ": an empty combination is empty")
        ensure(len(v) == 0, what + ": an empty combination is empty")
    else:
        ensure_same(await r._future, [deep(x).value for x in lst], what + ": every value at its own position")
    ensure(iff(await r._is_known, all(and_(deep(x).known, not_(hasunk(deep(x).value))) for x in lst)),
           what + ": known exactly when every element is")
    ensure(iff(await r._is_secret, any(deep(x).secret for x in lst)), what + ": secret exactly when some element is")
    want = set()
    for x in lst:
        want |= deep(x).deps
    ensure_same(await r._resources, want, what + ": dependencies are the union of the elements'")


async def ensure_dict(r, dct, what):
    ensure_same(await r._future, {k: deep(x).value for k, x in dct.items()} if len(dct) else {},
                what + ": every value at its own key")
    ensure(iff(await r._is_known, all(and_(deep(x).known, not_(hasunk(deep(x).value))) for x in dct.values())),
           what + ": known exactly when every entry is")
    ensure(iff(await r._is_secret, any(deep(x).secret for x in dct.values())), what + ": secret exactly when some entry is")
    want = set()
    for x in dct.values():
        want |= deep(x).deps
    ensure_same(await r._resources, want, what + ": dependencies are the union of the entries'")


async def check_all():
    preview = choose("preview", [False, True])
    set_dry_run(preview)
    use_contains_unknowns()
    use_from_input()
    named = choose("named", [False, True])
    if named:
        args = sym("args", ("dict", "str", "any"), native=lambda: {q: native_input(1) for q in rand().sample(["a", "b", "c", "d"], rand().randrange(4))})
        assume(all(isinstance(k, str) for k in args))
        assume(len(args) > 0)
        await ensure_dict(Output.all(**args), args, "all")
    else:
        args = sym("args", ("list", "any"), native=lambda: [native_input(1) for _ in range(rand().randrange(4))])
        await ensure_list(Output.all(*args), args, "all")


async def check_all_mixed():
    use_from_input()
    a, b = sym("a", "any", native=native_value), sym("b", "any", native=native_value)
    rejected = False
    try:
        Output.all(a, x=b)
    except ValueError:
        rejected = True
    ensure(rejected, "mixing named and unnamed inputs is rejected")


async def check_secret_flags():
    preview = choose("preview", [False, True])
    set_dry_run(preview)
    use_contains_unknowns()
    use_from_input()
    val, known, secret, deps = plain("value"), sym("known", "bool"), sym("secret", "bool"), dep_set("deps")
    o = an_output("o", val, known, secret, deps)
    u = Output.unsecret(o)
    ensure(not await u._is_secret, "unsecret clears the secret flag")
    ensure_same(await u._future, val, "unsecret keeps the value")
    ensure(iff(await u._is_known, known), "unsecret keeps knownness")
    ensure_same(await u._resources, deps, "unsecret keeps the dependencies")
    ensure(iff(await o._is_secret, secret), "the original output is unchanged")
    i = sym("input", "any", native=native_input)
    s = Output.secret(i)
    d = deep(i)
    ensure(await s._is_secret, "secret sets the secret flag")
    ensure_same(await s._future, d.value, "secret keeps the value")
    ensure(iff(await s._is_known, and_(d.known, not_(hasunk(d.value)))), "secret keeps knownness")
    ensure_same(await s._resources, d.deps, "secret keeps the dependencies")


async def check_map2():
    """Joining two outputs."""
    preview = choose("preview", [False, True])
    set_dry_run(preview)
    use_contains_unknowns()
    v1, k1, s1, d1 = plain("v1"), sym("k1", "bool"), sym("s1", "bool"), dep_set("d1")
    v2, k2, s2, d2 = plain("v2"), sym("k2", "bool"), sym("s2", "bool"), dep_set("d2")
    assume(v1 is not None)
    assume(v2 is not None)
    o1, o2 = an_output("o1", v1, k1, s1, d1), an_output("o2", v2, k2, s2, d2)
    joined = func("join", native=lambda x, y: ("join", x, y))
    r = _map2_output(o1, o2, joined)
    v = await r._future
    if not hasunk(v1) and not hasunk(v2):
        ensure_same(v, joined(v1, v2), "the join combines both values")
        ensure(iff(await r._is_known, and_(k1, k2, not_(hasunk(v)))), "a join is known exactly when both outputs are")
    else:
        ensure(isinstance(v, Unknown), "a join with an unknown is unknown")
        ensure(not await r._is_known, "a join with an unknown is not known")
    ensure(iff(await r._is_secret, or_(s1, s2)), "a join is secret exactly when either output is")
    ensure_same(await r._resources, d1 | d2, "a join depends on both outputs' resources")


async def check_map():
    preview = choose("preview", [False, True])
    set_dry_run(preview)
    use_contains_unknowns()
    v1, k1, s1, d1 = plain("v1"), sym("k1", "bool"), sym("s1", "bool"), dep_set("d1")
    assume(v1 is not None)
    o1 = an_output("o1", v1, k1, s1, d1)
    f = func("f", native=lambda x: ("f", x))
    r = _map_output(o1, f)
    v = await r._future
    if not hasunk(v1):
        ensure_same(v, f(v1), "the mapped value")
        ensure(iff(await r._is_known, and_(k1, not_(hasunk(v)))), "a mapped output is known exactly when the output is")
    else:
        ensure(isinstance(v, Unknown), "a mapped unknown is unknown")
        ensure(not await r._is_known, "a mapped unknown is not known")
    ensure(iff(await r._is_secret, s1), "a mapped output is secret exactly when the output is")
    ensure_same(await r._resources, d1, "a mapped output keeps its dependencies")


async def check_map2_input():
    """Joining two inputs of any style gives an input denoting the join."""
    preview = choose("preview", [False, True])
    set_dry_run(preview)
    use_contains_unknowns()
    v1, k1, s1, d1 = plain("v1"), sym("k1", "bool"), sym("s1", "bool"), dep_set("d1")
    v2, k2, s2, d2 = plain("v2"), sym("k2", "bool"), sym("s2", "bool"), dep_set("d2")
    assume(v1 is not None)
    assume(v2 is not None)
    assume(not_(hasunk(v1)))
    assume(not_(hasunk(v2)))
    st1, st2 = choose("style1", ["prompt", "awaitable", "output"]), choose("style2", ["prompt", "awaitable", "output"])
    i1 = v1 if st1 == "prompt" else (later(v1) if st1 == "awaitable" else an_output("o1", v1, k1, s1, d1))
    i2 = v2 if st2 == "prompt" else (later(v2) if st2 == "awaitable" else an_output("o2", v2, k2, s2, d2))
    f = func("join", native=lambda x, y: ("join", x, y))
    r = _map2_input(i1, i2, f)
    want = f(v1, v2)
    if st1 == "prompt" and st2 == "prompt":
        ensure_same(r, want, "prompt inputs join promptly")
        return
    if st1 != "output" and st2 != "output":
        ensure_same(await r, want, "awaitables join to an awaitable")
        return
    kk = and_(or_(st1 != "output", k1), or_(st2 != "output", k2))
    ss = or_(and_(st1 == "output", s1), and_(st2 == "output", s2))
    dd = set()
    if st1 == "output":
        dd = dd | d1
    if st2 == "output":
        dd = dd | d2
    ensure(isinstance(r, Output), "a join with an output is an output")
    ensure_same(await r._future, want, "a join holds both values")
    ensure(iff(await r._is_known, and_(kk, not_(hasunk(want)))), "a join is known exactly when both inputs are")
    ensure(iff(await r._is_secret, ss), "a join is secret exactly when either input is")
    ensure_same(await r._resources, dd, "a join depends on both inputs' resources")


async def check_concat():
    """concat joins the values of all parts, keeping the flags of all parts."""
    preview = choose("preview", [False, True])
    set_dry_run(preview)
    vals = [str(k) for k in range(rand().randrange(5))]
    parts = [x if rand().random() < 0.3 else native_output(x) if rand().random() < 0.8 else native_awaitable(x) for x in vals]
    r = Output.concat(*parts)
    ds = [native_deep(p) for p in parts]
    known = all(d.known for d in ds)
    ensure(await r._is_secret == any(d.secret for d in ds), "secret exactly when some part is")
    ensure(await r._is_known == (known or not dry()), "known exactly when every part is")
    if known:
        ensure(await r._future == "".join(vals), "the parts in order")
    want = set()
    for d in ds:
        want |= d.deps
    ensure_same(await r._resources, want, "dependencies of all parts")


HARNESSES = [check_from_input, check_all, check_all_mixed, check_secret_flags, check_map2, check_map, check_map2_input]
NATIVE = [check_concat]
BOUNDS = {"check_concat": "up to 4 parts, generated"}
