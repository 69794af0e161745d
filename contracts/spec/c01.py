"""C01: Output.apply against its contract, from an arbitrary settled source output and an arbitrary callback."""
from spec.common import *
import pulumi.runtime.rpc as rpc


async def value_of(o):
    try:
        return ("ok", await o._future)
    except Exception as e:
        return ("exc", e)


async def check_apply():
    preview = choose("preview", [False, True])
    set_dry_run(preview)
    use_contains_unknowns()
    val, known, secret, deps = plain("value"), sym("known", "bool"), sym("secret", "bool"), dep_set("deps")
    src = an_output("source", val, known, secret, deps)
    deps_before = set(deps)
    optin = choose("run_with_unknowns", [None, False, True])
    style = choose("callback returns", ["value", "awaitable", "output", "raises"])
    res = plain("result")
    ik, is_, ideps = sym("inner known", "bool"), sym("inner secret", "bool"), dep_set("inner deps")
    boom = RuntimeError("callback")
    inner = an_output("inner", res, ik, is_, ideps) if style == "output" else None
    ran = []

    def callback(x):
        ran.append(x)
        if style == "raises":
            raise boom
        if style == "awaitable":
            return later(res)
        if style == "output":
            return inner
        return res

    r = src.apply(callback, optin) if optin is not None else src.apply(callback)
    ensure(isinstance(r, Output), "apply returns an output")
    out = await value_of(r)
    ensure_same(await src._resources, deps_before, "apply leaves the source's own dependencies unchanged")
    allowed = or_(not preview, known, optin is True)
    r_known, r_secret, r_deps = await r._is_known if out[0] == "ok" or style == "raises" else None, await r._is_secret, await r._resources
    if not allowed:
        ensure(len(ran) == 0, "an unknown value is never passed to the callback in a preview")
        ensure(out[0] == "ok", "skipping the callback is not a failure")
        ensure(out[1] is None, "a skipped callback leaves no value")
        ensure(not r_known, "the result of a skipped callback is not known")
        ensure(iff(r_secret, secret), "the result of a skipped callback is secret exactly when the source is")
        ensure_same(r_deps, deps, "the result of a skipped callback keeps the source's dependencies")
        return
    ensure(len(ran) == 1, "the callback runs exactly once")
    if and_(preview, not_(known), not_(hasunk(val))):
        ensure(isinstance(ran[0], Unknown), "an opted-in callback receives the unknown marker for an unknown value")
    else:
        ensure_same(ran[0], val, "the callback receives the source's value")
    if style == "raises":
        ensure(out[0] == "exc", "the callback's failure surfaces on the result")
        ensure(out[1] is boom, "the failure is the callback's own")
        ensure(not r_known, "a failed result is not known")
        ensure_same(r_deps, deps, "a failed result depends on the source's resources")
        return
    ensure(out[0] == "ok", "the result resolves")
    ensure_same(out[1], res, "the result's value is the callback's result, unwrapped")
    if style == "output":
        ensure(iff(r_known, ik), "the result is known exactly when the returned output is")
        ensure(iff(r_secret, or_(secret, is_)), "the result is secret exactly when the source or the returned output is")
        ensure_same(r_deps, deps | ideps, "the result depends on the source's and the returned output's resources")
    else:
        ensure(iff(r_known, not_(hasunk(res))), "a plain result is known unless it contains unknowns")
        ensure(iff(r_secret, secret), "the result is secret exactly when the source is")
        ensure_same(r_deps, deps, "the result depends on the source's resources")


async def check_constructor():
    """The object invariant: a known output's value contains no unknowns; the flags are as given."""
    use_contains_unknowns()
    val, known, secret, deps = plain("value"), sym("known", "bool"), sym("secret", "bool"), dep_set("deps")
    as_set = choose("resources as a set", [True, False])
    with_secret = choose("secret flag given", [True, False])
    d = deps if as_set else later(deps)
    o = Output(d, later(val), later(known), later(secret)) if with_secret else Output(d, later(val), later(known))
    ensure_same(await o._future, val, "the value is the given one")
    ensure_same(await o._resources, deps, "the dependencies are the given ones")
    ensure(iff(await o._is_known, and_(known, not_(hasunk(val)))), "known exactly when so declared and free of unknowns")
    ensure(iff(await o._is_secret, and_(with_secret, secret)), "secret exactly when so declared")


async def check_future():
    """future() hides values with unknowns unless asked not to."""
    use_contains_unknowns()
    val, known, secret, deps = plain("value"), sym("known", "bool"), sym("secret", "bool"), dep_set("deps")
    o = an_output("o", val, known, secret, deps)
    mode = choose("with_unknowns", [None, False, True])
    v = await o.future(mode)
    if mode or not hasunk(val):
        ensure_same(v, val, "future() yields the value")
    else:
        ensure(v is None, "future() hides a value with unknowns")


async def check_lifted_access():
    """o.attr and o[key] lift the access and the flags, and map unknown to unknown."""
    preview = choose("preview", [False, True])
    set_dry_run(preview)
    use_contains_unknowns()
    key = sym("key", "str", native=["a", "b"])
    item = plain("item")
    known, secret, deps = sym("known", "bool"), sym("secret", "bool"), dep_set("deps")
    unknown_value = choose("unknown value", [False, True])
    val = UNKNOWN if unknown_value else {key: item}
    o = an_output("o", val, known, secret, deps)
    r = o[key]
    v = await r._future
    if and_(preview, not_(known)) and (unknown_value or not hasunk(val)) or unknown_value:
        ensure(isinstance(v, Unknown), "an item of an unknown value is unknown")
        ensure(not await r._is_known, "an item of an unknown value is not known")
    else:
        ensure_same(v, item, "the item is the value's item")
        ensure(iff(await r._is_known, not_(hasunk(item))), "the item is known unless it contains unknowns")
    ensure(iff(await r._is_secret, secret), "an item of a secret is secret")
    ensure_same(await r._resources, deps, "an item depends on the value's resources")


async def check_contains_unknowns():
    """contains_unknowns(v) exactly when the marker occurs in v's lists and dictionaries (its recursion by its own contract)."""
    use_rec("pulumi.runtime.rpc.contains_unknowns", hasunk)
    v = sym("v", "any", native=native_value)
    if SYMBOLIC:
        choice = choose("shape", ["list", "dict", "other"])
        if choice == "list":
            assume(kind_is(v, "list"))
            expected = any(hasunk(x) for x in v)
        elif choice == "dict":
            assume(kind_is(v, "dict"))
            expected = any(hasunk(x) for x in v.values())
        else:
            assume(not_(kind_is(v, "list", "dict")))
            expected = isinstance(v, Unknown)
    else:
        expected = hasunk(v)
    ensure(iff(rpc.contains_unknowns(v), expected), "true exactly when the unknown marker occurs inside")


async def shared_and_cyclic_unknowns():
    """contains_unknowns on values with shared and cyclic containers."""
    nodes = [[] if rand().random() < 0.5 else {} for _ in range(4)]
    marked = set()
    edges = {k: [] for k in range(4)}
    for k, n in enumerate(nodes):
        for q in range(rand().randrange(4)):
            t = rand().randrange(6)
            x = nodes[t] if t < 4 else (UNKNOWN if rand().random() < 0.3 else 1)
            if t < 4:
                edges[k].append(t)
            elif x is UNKNOWN:
                marked.add(k)
            if isinstance(n, list):
                n.append(x)
            else:
                n[f"k{q}"] = x
    reach, todo = set(), [0]
    while todo:
        k = todo.pop()
        if k not in reach:
            reach.add(k)
            todo += edges[k]
    ensure(rpc.contains_unknowns(nodes[0]) == bool(reach & marked), "found exactly when reachable")


HARNESSES = [check_apply, check_constructor, check_future, check_lifted_access, check_contains_unknowns]
NATIVE = [shared_and_cyclic_unknowns]
BOUNDS = {"shared_and_cyclic_unknowns": "generated graphs of 4 containers"}
