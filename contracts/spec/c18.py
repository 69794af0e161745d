"""C18: the graph of resources that wait for each other stays acyclic."""
from spec.common import *
if not SYMBOLIC:
    import pulumi
    from pv import note
from pulumi.runtime.resource_cycle_breaker import declare_dependency, _with_transitive_deps, _reachable, _add_dep, _deps

ASSUMPTIONS = ["reach is the least reflexive relation closed under deps (its closure axioms and induction are used as stated in the harnesses)",
               "depth-first search terminates (partial correctness of the recursion)", "resources are compared by identity"]
M = "pulumi.runtime.resource_cycle_breaker."
GHOST = {}


def deps(r):
    return ufn("deps", r, result=("set", ("obj", RES)))


def reach(a, b):
    return ufb("reach", a, b)


def a_resource(name):
    return sym(name, ("obj", RES))


async def check_search():
    """Depth-first search from r with `visited` = W: visits r, is closed under deps outside W, and yields exactly what it newly visits,
    all of which is reachable from r.  x, y, t are arbitrary resources with y in deps(x)."""
    if not SYMBOLIC:
        return
    r, x, y, t = a_resource("r"), a_resource("x"), a_resource("y"), a_resource("t")
    assume(y in deps(x))
    given = dep_set("visited")
    before = set(given)
    GHOST["r"], GHOST["x"], GHOST["y"], GHOST["t"], GHOST["W"] = r, x, y, t, before

    def search(r2, v):
        was_x, was_t = x in v, t in v
        v.update(dep_set("newly visited"))
        out = sym("found", ("list", ("obj", RES)))
        assume(r2 in v)
        assume(implies(and_(x in v, not_(was_x)), y in v))
        assume(iff(t in out, and_(t in v, not_(was_t))))
        assume(implies(t in out, reach(r2, t)))
        assume(implies(and_(r2 in deps(r), reach(r2, t)), reach(r, t)))          # closure of reach
        return out

    ensure(implies(x is r, y in deps(r)), "y is among the dependencies of r if x is r")
    assume(reach(r, r))
    use(M + "_deps", deps)
    use(M + "_with_transitive_deps", search)
    invariant(M + "_with_transitive_deps", search_inv, visited=("in", ("set", ("obj", RES))), yields=("in", ("list", ("obj", RES))))
    visited = set(before)
    out = list(root(_with_transitive_deps, r, visited))
    ensure(r in visited, "the start is visited")
    ensure(implies(x in before, x in visited), "what was visited stays visited")
    ensure(implies(and_(x in visited, not_(x in before)), y in visited), "what is newly visited is closed under dependencies")
    ensure(iff(t in out, and_(t in visited, not_(t in before))), "exactly what is newly visited is found")
    ensure(implies(t in out, reach(r, t)), "what is found is reachable")


def search_inv(done, step, visited, yields):
    r, x, y, t, W = GHOST["r"], GHOST["x"], GHOST["y"], GHOST["t"], GHOST["W"]
    return and_(r in visited, implies(x in W, x in visited), implies(t in W, t in visited), implies(y in W, y in visited),
                implies(and_(x in visited, not_(x in W), not_(x is r)), y in visited),
                implies(y in done, y in visited),
                iff(t in yields, and_(t in visited, not_(t in W))),
                implies(t in yields, reach(r, t)))


async def check_reachable():
    """to is reachable from from exactly when the search finds it."""
    if not SYMBOLIC:
        return
    f, t = a_resource("from"), a_resource("to")

    def search(r, visited):
        """check_search with nothing visited, for every x, y, t: V is closed under deps, so it contains what is reachable (induction)."""
        ensure(len(visited) == 0, "the search starts with nothing visited")
        V = dep_set("visited")
        out = sym("found", ("list", ("obj", RES)))
        assume(r in V)
        assume(iff(t in out, t in V))
        assume(implies(t in out, reach(r, t)))
        assume(implies(and_(r in V, reach(r, t)), t in V))
        return out
    use(M + "_with_transitive_deps", search)
    ensure(iff(root(_reachable, f, t), reach(f, t)), "reachability")


def with_deps(name, cls, held):
    r = make(cls, tag=name)
    if held is not None:
        r._direct_computed_dependencies = held
    return r


async def check_declare():
    """Declaring succeeds exactly when `from` is not reachable from `to`; then exactly that edge is added, else nothing changes."""
    if not SYMBOLIC:
        return
    fs = choose("dependencies of from", ["none yet", "some"])
    given_f = dep_set("deps of from") if fs == "some" else None
    before_f = set(given_f) if fs == "some" else set()
    given_t = dep_set("deps of to")
    before_t = set(given_t)
    f = with_deps("f", CUSTOM, given_f)
    t = f if choose("same resource", [False, True]) else with_deps("t", CUSTOM, given_t)
    cyc = sym("closes a cycle", "bool")
    asked = []

    def reachable(from_resource, to_resource):
        asked.append((from_resource, to_resource))
        return cyc
    use(M + "_reachable", reachable)
    ok = declare_dependency(f, t)
    ensure(len(asked) == 1 and asked[0][0] is t and asked[0][1] is f, "asks whether `from` is reachable from `to`")
    ensure(iff(ok, not_(cyc)), "succeeds exactly when no cycle is closed")
    ensure(isinstance(ok, bool), "a bool")
    if cyc:
        ensure_same(_deps(f), before_f, "failing leaves the graph unchanged")
    else:
        ensure_same(_deps(f), before_f | {t}, "succeeding adds exactly the edge")
    if t is not f:
        ensure_same(_deps(t), before_t, "other edges are unchanged")
    ensure(f.tag == "f" and t.tag == ("f" if t is f else "t"), "nothing else changes")


async def check_transitive():
    """Lemma: reach is transitive (induction on what is reachable from b: {c: reach(a, c)} contains b and is closed)."""
    a, b, c, d = a_resource("a"), a_resource("b"), a_resource("c"), a_resource("d")
    if not SYMBOLIC:
        return
    assume(reach(a, b))
    assume(implies(and_(reach(a, c), d in deps(c)), reach(a, d)))        # closure of reach
    ensure(reach(a, b), "the set contains b")
    ensure(implies(and_(reach(a, c), d in deps(c)), reach(a, d)), "the set is closed under deps")


def edge2(f, t, x, y):
    """y in deps'(x), deps' = deps with the edge f -> t"""
    return or_(y in deps(x), and_(x is f, y is t))


def within(f, t, a, b):
    """The set in which everything lies that is reachable from a with the new edge."""
    return or_(reach(a, b), and_(reach(a, f), reach(t, b)))


async def check_one_edge():
    """Lemma: with a new edge f -> t, f not reachable from t, what is reachable from a lies in within(a)."""
    if not SYMBOLIC:
        return
    f, t, a, b, c = a_resource("f"), a_resource("t"), a_resource("a"), a_resource("b"), a_resource("c")
    assume(not_(reach(t, f)))
    assume(reach(a, a))
    assume(reach(t, t))
    assume(implies(and_(reach(a, b), c in deps(b)), reach(a, c)))
    assume(implies(and_(reach(t, b), c in deps(b)), reach(t, c)))
    ensure(within(f, t, a, a), "the set contains a")
    ensure(implies(and_(within(f, t, a, b), edge2(f, t, b, c)), within(f, t, a, c)), "the set is closed under the new dependencies")


async def check_acyclic():
    """Lemma: declaring keeps the graph acyclic: no y in deps'(x) from which x is reachable."""
    if not SYMBOLIC:
        return
    f, t, x, y = a_resource("f"), a_resource("t"), a_resource("x"), a_resource("y")
    reach2 = sym("x reachable from y with the new edge", "bool")
    assume(not_(reach(t, f)))                                             # check_declare, check_reachable
    assume(implies(y in deps(x), not_(reach(y, x))))                      # acyclic before
    assume(implies(reach2, within(f, t, y, x)))                           # check_one_edge and induction
    assume(implies(and_(reach(t, x), y in deps(x)), reach(t, y)))         # closure of reach
    assume(implies(and_(reach(t, y), reach(y, f)), reach(t, f)))          # check_transitive
    ensure(implies(edge2(f, t, x, y), not_(reach2)), "acyclic after")


# ------------------------------------------------------------------ native: whole histories
def native_reach(edges, a, b):
    seen, todo = set(), [a]
    while todo:
        x = todo.pop()
        if x == b:
            return True
        if x not in seen:
            seen.add(x)
            todo += list(edges.get(x, ()))
    return False


async def check_history_native():
    """Random histories of declarations against plain reachability."""
    r = rand()
    n = r.randrange(40, 70) if r.random() < 0.02 else r.randrange(1, 11)
    rs = []
    for k in range(n):
        x = object.__new__(r.choice([pulumi.CustomResource, pulumi.ComponentResource]))
        x.__dict__["n"] = k
        x.__dict__["_remote"] = r.random() < 0.3
        rs.append(x)
    edges = {}
    log = []
    for _ in range(r.randrange(1, 40) + (n if n > 10 else 0)):
        a, b = r.randrange(n), r.randrange(n)
        if n > 10 and r.random() < 0.9:
            a, b = len(log) % n, (len(log) + 1) % n          # long chains
        expected = not native_reach(edges, b, a)
        ok = declare_dependency(rs[a], rs[b])
        log.append((a, b))
        note("history", log)
        ensure(ok is expected, f"{log[-1]} closes a cycle: {not expected}, but the result is {ok}")
        if expected:
            edges.setdefault(a, set()).add(b)
        for k in range(n):
            ensure({x.n for x in _deps(rs[k])} == edges.get(k, set()), f"the edges of {k} after {log}")
            ensure(set(vars(rs[k])) <= {"n", "_remote", "_direct_computed_dependencies"}, "nothing else changes")


HARNESSES = [check_search, check_reachable, check_declare, check_transitive, check_one_edge, check_acyclic]
NATIVE = [check_history_native]
BOUNDS = {"check_history_native": "up to 70 resources (mostly up to 10), 110 declarations"}
