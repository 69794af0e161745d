"""C17: expansion of resources to the URNs the engine has to wait for."""
from spec.common import *
if not SYMBOLIC:
    import pulumi
    from pv import note
from pulumi.runtime.resource import _add_dependency, _expand_dependencies, _resolve_depends_on_urns

ASSUMPTIONS = ["children of a component are a finite tree (recursion: partial correctness)",
               "while one set is expanded, whether a resource may be waited on does not change (new edges start at the waiting resource; C18)",
               "a resource whose URN is not known has nothing to send"]
COMP = "pulumi.resource.ComponentResource"


def urns_of(res, waiting):
    """E(res): the URNs a resource stands for, when `waiting` is the resource that waits."""
    return ufn("urns_of", res, waiting, result=("set", "str"))


async def recursion_contract(deps, res, from_resource):
    deps.update(urns_of(res, from_resource))


def may_wait(frm, to):
    return ufb("may_wait", frm, to)


def use_contracts():
    use("pulumi.runtime.resource._add_dependency", recursion_contract)
    use("pulumi.runtime.resource_cycle_breaker.declare_dependency", may_wait)


def waiting():
    if choose("waiting resource given", [False, True]):
        frm = sym("frm", ("obj", CUSTOM))
        assume(bool(frm))
        return frm
    return None


async def check_local_component():
    """A local component stands for what its children stand for, and not for itself."""
    if not SYMBOLIC:
        return
    use_contracts()
    children = dep_set("children")
    urn = sym("urn", "any")
    comp = make(COMP, _remote=choose("remote flag", [False, None]), _childResources=children, urn=urn)
    frm = waiting()
    given = sym("deps", ("set", "str"))
    deps = set(given)
    await root(_add_dependency, deps, comp, frm)
    ensure_same(deps, given | {u for c in children for u in urns_of(c, frm)}, "exactly what the children stand for is added")


async def check_leaf():
    """Every other resource stands for its own URN."""
    if not SYMBOLIC:
        return
    asked, may = [], sym("may wait", "bool")

    def declare(f, t):
        asked.append((f, t))
        return may
    use("pulumi.runtime.resource._add_dependency", recursion_contract)
    use("pulumi.runtime.resource_cycle_breaker.declare_dependency", declare)
    urn = sym("urn", ("opt", "str"))
    children = dep_set("children")
    kind = choose("kind", ["custom", "remote component", "other"])
    output = an_output("urn", urn, sym("known", "bool"), sym("secret", "bool"), dep_set("own"))
    if kind == "custom":
        res = make(CUSTOM, urn=output, _childResources=children)
    elif kind == "remote component":
        res = make(COMP, urn=output, _remote=True, _childResources=children)
    else:
        res = make(RES, urn=output, _childResources=children)
    frm = waiting()
    given = sym("deps", ("set", "str"))
    deps = set(given)
    await root(_add_dependency, deps, res, frm)
    ensure(len(asked) == (0 if frm is None else 1), "a dependency is declared when a resource waits")
    if frm is not None:
        ensure(asked[0][0] is frm and asked[0][1] is res, "the waiting resource waits on this one")
    allowed = frm is None or may
    if allowed and urn is not None and urn != "":
        ensure_same(deps, given | {urn}, "a custom or remote resource stands for its URN, its children do not matter")
    else:
        ensure_same(deps, given, "nothing is added")


async def check_expand():
    """The set for several resources is the union."""
    if not SYMBOLIC:
        return
    use_contracts()
    rs = sym("resources", ("list", ("obj", RES))) if choose("as list", [False, True]) else dep_set("resources")
    frm = waiting()
    r = await _expand_dependencies(rs, frm)
    ensure(isinstance(r, set), "a set of URNs")
    ensure_same(r, {u for x in rs for u in urns_of(x, frm)}, "exactly what the given resources stand for")


def depends_inv(done, step, all_deps):
    x = GHOST["x"]
    return iff(x in all_deps, or_(x in GHOST["before"], any(or_(x in inner_deps(e), is_direct(e, x)) for e in done)))


def is_direct(e, x):
    d = direct(e)
    return False if d is None else d is x


def no_unknowns(v):
    return False


GHOST = {}


async def check_depends_on():
    """Explicit dependencies: what the list depends on, what its entries depend on, and the entries themselves."""
    if not SYMBOLIC:
        return
    seen = []

    async def expand(deps, from_resource):
        seen.append((deps, from_resource))
        return ufn("expansion", len(seen), result=("set", "str"))

    use("pulumi.runtime.resource._expand_dependencies", expand)
    use("pulumi.runtime.rpc.contains_unknowns", no_unknowns)
    frm = make(CUSTOM)
    x = sym("x", ("obj", RES))                    # an arbitrary resource
    entries = sym("entries", ("list", "any"))
    known, own = sym("known", "bool"), dep_set("own")
    before = set(own)
    GHOST["x"] = x
    GHOST["before"] = before
    invariant("pulumi.runtime.resource._resolve_depends_on_urns", depends_inv, all_deps=("set", ("obj", RES)))

    def shallow(v):
        return make(OUT, _future=later(entries), _is_known=later(known), _is_secret=later(False), _resources=later(own))

    def deep(v):
        return make(OUT, _future=later(direct(v)), _is_known=later(True), _is_secret=later(False), _resources=later(inner_deps(v)))
    use("pulumi.output.Output._from_input_shallow", shallow)
    use("pulumi.output.Output.from_input", deep)
    opts = make("pulumi.resource.ResourceOptions", depends_on=entries)
    r = await _resolve_depends_on_urns(opts, frm)
    ensure(len(seen) == 1, "one expansion")
    what, who = seen[0]
    expected = or_(x in before, any(or_(x in inner_deps(e), is_direct(e, x)) for e in entries))
    ensure(iff(x in what, expected), "the resources the list and its entries depend on, and the entries")
    ensure(who is frm, "on behalf of the waiting resource")
    ensure_same(r, ufn("expansion", 1, result=("set", "str")), "the result is their expansion")
    ensure_same(own, before, "the outputs' own dependency sets are not changed")


async def check_no_depends_on():
    opts = make("pulumi.resource.ResourceOptions", depends_on=None)
    ensure_same(await _resolve_depends_on_urns(opts, None), set(), "no explicit dependencies: none")


def direct(e):
    return ufn("direct", e, result=("opt", ("obj", RES)))


def inner_deps(e):
    return ufn("innerdeps", e, result=("set", ("obj", RES)))


# ------------------------------------------------------------------ native: whole trees
def native_tree():
    r = rand()
    rs = []
    for n in range(r.randrange(2, 9)):
        kind = r.choice(["custom", "comp", "comp", "remote"])
        cls = pulumi.CustomResource if kind == "custom" else pulumi.ComponentResource
        x = object.__new__(cls)
        x.__dict__["n"] = n
        x.__dict__["kind"] = kind
        if kind != "custom":
            x.__dict__["_remote"] = kind == "remote"
        x.__dict__["_childResources"] = set(r.sample(rs, r.randrange(min(4, len(rs) + 1))))
        urn = r.choice([f"urn:{n}", f"urn:{n}", f"urn:{n}", None])
        x.__dict__["urn"] = make(OUT, _future=later(urn), _is_known=resolved(urn is not None), _is_secret=resolved(False), _resources=resolved({x}))
        x.__dict__["u"] = urn
        rs.append(x)
    return rs


def stands_for(rs):
    todo, seen, out = list(rs), [], set()
    while todo:
        x = todo.pop()
        if any(x is y for y in seen):
            continue
        seen.append(x)
        if x.kind == "comp":
            todo += list(x._childResources)
        else:
            out.add(x)
    return out


def path(a, b, edges):
    seen, todo = set(), [a]
    while todo:
        x = todo.pop()
        if x is b:
            return True
        if id(x) not in seen:
            seen.add(id(x))
            todo += list(edges.get(id(x), ()))
    return False


async def check_tree_native():
    """Whole trees against plain reachability, with and without a waiting resource."""
    rs = native_tree()
    note("tree", [(x.kind, x.u, sorted(c.n for c in x._childResources)) for x in rs])
    edges = {}
    for x in rs:
        if rand().random() < 0.4:
            ds = set(rand().sample(rs, 1))
            if not any(path(d, x, edges) for d in ds):
                x.__dict__["_direct_computed_dependencies"] = ds
                edges[id(x)] = ds
    what = rand().sample(rs, rand().randrange(len(rs) + 1))
    frm = rand().choice(rs) if rand().random() < 0.5 else None
    r = await _expand_dependencies(what if rand().random() < 0.5 else set(what), frm)
    expected = set()
    for x in stands_for(what):
        if x.u is not None and (frm is None or not path(x, frm, edges)):
            expected.add(x.u)
    ensure(r == expected, f"the URNs behind the given resources: {r} is not {expected}")


async def check_depends_on_native():
    """Explicit dependencies given as values, awaitables, outputs and lists of these."""
    rs = native_tree()
    frm = object.__new__(pulumi.CustomResource)
    frm.__dict__["_childResources"] = set()
    want, own = set(), []

    def wrap(x, depth=0):
        r = rand()
        k = r.randrange(4 if depth < 2 else 1)
        if k == 0:
            return x
        if k == 1:
            return later(x)
        extra = {q for q in rs if r.random() < 0.15}
        want.update(extra)
        held = set(extra)
        own.append((extra, held))
        return make(OUT, _future=later(x), _is_known=resolved(True), _is_secret=resolved(False), _resources=resolved(held))
    chosen = rand().sample(rs, rand().randrange(len(rs) + 1))
    want.update(chosen)
    entries = [wrap(x) for x in chosen]
    given = wrap(entries[0] if len(entries) == 1 and rand().random() < 0.3 else entries)
    r = await _resolve_depends_on_urns(make("pulumi.resource.ResourceOptions", depends_on=given), frm)
    expected = {x.u for x in stands_for(want) if x.u is not None}
    ensure(all(a == b for a, b in own), "the outputs' own dependency sets are not changed")
    ensure(r == expected, f"explicit dependencies: {r} is not {expected}")
    ensure(await _resolve_depends_on_urns(make("pulumi.resource.ResourceOptions", depends_on=None), frm) == set(), "none given: none")


HARNESSES = [check_local_component, check_leaf, check_expand, check_depends_on, check_no_depends_on]
NATIVE = [check_tree_native, check_depends_on_native]
BOUNDS = {"check_tree_native": "up to 8 resources, random component trees and wait edges", "check_depends_on_native": "up to 8 resources"}
