"""Shared vocabulary of the contracts: inputs, outputs, resources and the contracts of common callees."""
from pv import *
from pulumi.output import Output, Unknown, UNKNOWN

OUT = "pulumi.output.Output"
RES = "pulumi.resource.Resource"
CUSTOM = "pulumi.resource.CustomResource"


def set_dry_run(flag):
    if SYMBOLIC:
        def is_dry_run():
            return flag
        use("pulumi.runtime.settings.is_dry_run", is_dry_run)
    else:
        import pulumi.runtime.settings as st
        st.configure(st.Settings("proj", "stack", dry_run=flag))


def hasunk(v):
    """The value contains the unknown marker somewhere inside its lists and dictionaries."""
    if isinstance(v, Unknown):
        return True
    if opaque(v):
        return and_(kind_is(v, "list", "dict"), ufb("hasunk", v))
    if isinstance(v, dict):
        return any(hasunk(x) for x in v.values())
    if isinstance(v, list):
        return any(hasunk(x) for x in v)
    return False


def use_contains_unknowns():
    """Contract of contains_unknowns (proved in C01, check_contains_unknowns)."""
    use("pulumi.runtime.rpc.contains_unknowns", hasunk)


POOLRES = []


def native_resources():
    """Native: a set of distinct resource objects."""
    pool = rand_pool()
    return {r for r in pool if rand().random() < 0.4}


def rand_pool():
    if not hasattr(rand(), "pv_pool"):
        rand().pv_pool = [make(RES) for _ in range(4)]
        for k, r in enumerate(rand().pv_pool):
            r.__dict__["_name"] = f"r{k}"
    return rand().pv_pool


def dep_set(name):
    return sym(name, ("set", ("obj", RES)), native=native_resources)


def an_output(name, value, known, secret, deps):
    """An output in an arbitrary settled state (object invariant: a known output's value contains no unknowns)."""
    assume(not_(and_(known, hasunk(value))))
    return make(OUT, _future=later(value), _is_known=later(known), _is_secret=later(secret), _resources=later(deps))


def native_value(depth=0):
    """Native: an arbitrary plain value, possibly holding unknown markers."""
    r = rand()
    if r.random() < 0.12:
        return UNKNOWN
    if depth < 3 and r.random() < 0.25:
        return [native_value(depth + 1) for _ in range(r.randrange(3))]
    if depth < 3 and r.random() < 0.25:
        return {k: native_value(depth + 1) for k in r.sample(["a", "b", "c", "__x"], r.randrange(3))}
    return r.choice([None, True, False, 0, 1, 3.5, "", "s", "t"])


def plain(name):
    """A plain value: neither an output nor an awaitable."""
    v = sym(name, "any", native=native_value)
    assume(not isinstance(v, Output))
    assume(not_(kind_is(v, "fut")))
    return v
