"""C15: stack outputs are exported faithfully."""
from spec.common import *
from pulumi.runtime.stack import massage, is_primitive, reference_contains, Stack
from pulumi.resource import Resource
if not SYMBOLIC:
    import asyncio
    import pulumi
    from pv import note

S = "pulumi.runtime.stack."
ASSUMPTIONS = ["dictionaries have string keys", "termination (of the recursion through finitely many objects) is checked natively, not proved"]
GHOST = {}


def massaged(v):
    """What is exported for a value that is none of its own ancestors (the contract of massage)."""
    return ufn("massaged", v)


def spec_massage(attr, seen):
    """The contract of massage for the values inside: they are told exactly which objects they are in."""
    g = GHOST["object"]
    ensure(iff(any(x is g for x in seen), or_(any(x is g for x in GHOST["seen"]), g is GHOST["attr"])), "the objects on the way are known, and no others")
    GHOST["inside"].append(attr)
    if GHOST["record"] is not None:
        return dict(GHOST["record massaged"])
    return massaged(attr)


def spec_contains(val1, seen):
    """The contract of reference_contains (check_reference_contains): is the object one of those it is in?"""
    ensure(val1 is GHOST["attr"] and seen is GHOST["seen"], "the object at hand, and the objects it is in")
    return GHOST["ancestor"]


def spec_apply(self, func, run_with_unknowns=None):
    GHOST["applied"].append((self, func))
    return "applied"


class Plain:
    """An object with attributes."""

    def __init__(self, a, b):
        self.a = a
        self._b = b


class Promise:
    """An awaitable."""

    def __await__(self):
        return iter([])


def start(attr, record=None):
    GHOST["attr"], GHOST["inside"], GHOST["applied"] = attr, [], []
    GHOST["object"] = sym("some object", "any")
    GHOST["seen"] = sym("seen", ("list", "any"))
    GHOST["ancestor"] = sym("is one of its own ancestors", "bool")
    GHOST["record"] = record
    before = list(GHOST["seen"])
    use(S + "massage", spec_massage)
    use(S + "reference_contains", spec_contains)
    use("pulumi.output.Output.apply", spec_apply)
    r = root(massage, attr, GHOST["seen"])
    ensure_same(GHOST["seen"], before, "the caller's objects on the way are not changed")
    return r


async def check_primitive_values():
    """Primitive values are exported as they are."""
    if not SYMBOLIC:
        return
    v = sym("value", "any")
    assume(kind_is(v, "none", "bool", "int", "float", "str"))
    ensure(is_primitive(v), "a primitive value")
    ensure_same(start(v), v, "exported as it is")


async def check_containers():
    """Lists keep every element in place, dictionaries every public entry."""
    if not SYMBOLIC:
        return
    k = choose("container", ["list", "dict"])
    v = sym("list", ("list", "any")) if k == "list" else sym("dictionary", ("dict", "str", "any"))
    ensure(not is_primitive(v), "not primitive")
    r = start(v)
    if GHOST["ancestor"]:
        ensure(r is None, "an object inside itself is cut off")
        return
    if k == "list":
        ensure_same(r, [massaged(x) for x in v], "every element in place")
    else:
        q = sym("some key", "str")
        ensure(iff(q in r, q in v and not q.startswith("_")), "exactly the public entries")
        if q in r:
            ensure_same(r[q], massaged(v[q]), "the entry")


async def check_outputs():
    """Outputs stay outputs: what they hold is massaged once it is there."""
    if not SYMBOLIC:
        return
    if choose("form", ["output", "awaitable"]) == "output":
        o = v = make(OUT, tag=1)
    else:
        v = make("spec.c15.Promise")
        o = make(OUT, tag=2)

        def from_input(x):
            ensure(x is v, "the awaitable given")
            return o
        use("pulumi.output.Output.from_input", from_input)
    r = start(v)
    if GHOST["ancestor"]:
        ensure(r is None, "an object inside itself is cut off")
        return
    ensure(r == "applied" and len(GHOST["applied"]) == 1 and GHOST["applied"][0][0] is o, "an output derived from the output given")
    inner = sym("inner", "any")
    ensure_same(GHOST["applied"][0][1](inner), massaged(inner), "holding what is exported for its value")


async def check_objects():
    """Objects are exported as the dictionary of their attributes, resources marked as such in previews."""
    if not SYMBOLIC:
        return
    dry = sym("dry run", "bool")
    set_dry_run(dry)
    resource = choose("object", ["resource", "object"]) == "resource"
    v = make(CUSTOM, urn=make(OUT, tag="urn"), x=1) if resource else make("spec.c15.Plain", a=1)
    GHOST["record massaged"] = sym("exported attributes", ("dict", "str", "any"))
    r = start(v, v.__dict__)
    if GHOST["ancestor"]:
        ensure(r is v.urn if resource else r is None, "an object inside itself is cut off; a resource leaves its URN")
        return
    ensure(len(GHOST["inside"]) == 1 and GHOST["inside"][0] is v.__dict__, "the dictionary of its attributes")
    k = sym("some key", "str")
    want = GHOST["record massaged"]
    if resource and dry and k == "@isPulumiResource":
        ensure(r[k] is True, "marked as a resource")
    else:
        ensure(iff(k in r, k in want), "exactly the attributes")
        if k in r:
            ensure_same(r[k], want[k], "the attribute")


async def check_reference_contains():
    """An object is found by identity only."""
    if not SYMBOLIC:
        return
    v = sym("object", "any")
    seen = sym("seen", ("list", "any"))
    ensure(iff(reference_contains(v, seen), any(x is v for x in seen)), "found exactly if it is one of them")


async def check_stack():
    """The stack registers what its program exported, however the program ends, and there is only one stack."""
    if not SYMBOLIC:
        return
    active = choose("another stack", [False, True])
    fails = choose("program fails", [False, True])
    events = []
    project, stack = sym("project", "str"), sym("stack", "str")

    def init(self, t, name, props=None, opts=None, remote=False):
        events.append("registered")
        ensure(t == "pulumi:pulumi:Stack" and name == project + "-" + stack, "the stack resource")
        ensure(props is None and opts is None and remote is False, "a component without inputs")

    def set_root(r):
        GHOST["root"] = r
        events.append("root")

    def program():
        events.append("program")
        GHOST["root"].output("a", GHOST["exported"])
        if fails:
            raise ValueError("program")

    def spec(attr, seen):
        ensure(len(seen) == 0 and len(attr) == 1 and attr["a"] is GHOST["exported"], "everything the program exported")
        return "massaged"

    def outputs(self, outs):
        events.append("outputs")
        ensure(outs == "massaged" and self is GHOST["root"], "what is exported")
    GHOST["exported"] = sym("exported", "any")
    GHOST["root"] = make("spec.c15.Plain") if active else None
    use("pulumi.resource.ComponentResource.__init__", init)
    use("pulumi.resource.ComponentResource.register_outputs", outputs)
    use("pulumi.runtime.settings.get_root_resource", lambda: GHOST["root"])
    use("pulumi.runtime.settings.set_root_resource", set_root)
    use("pulumi.runtime.settings.get_project", lambda: project)
    use("pulumi.runtime.settings.get_stack", lambda: stack)
    use(S + "massage", spec)
    failure = None
    try:
        Stack(program)
    except Exception as e:
        failure = e
    if active:
        ensure(failure is not None and len(events) == 0, "only one stack")
        return
    ensure((failure is not None) == fails, "fails exactly if the program does")
    ensure(events == ["registered", "root", "program", "outputs"], "the outputs are registered after the program, whether it fails or not")


# ------------------------------------------------------------------ natively
def native_node(r):
    k = r.randrange(6)
    if k == 0:
        return {}
    if k == 1:
        return []
    if k == 2:
        o = object.__new__(Plain)
        return o
    if k == 3:
        c = object.__new__(pulumi.CustomResource)
        c.__dict__["_name"] = "res"
        c.__dict__["urn"] = an_output("urn", "urn:%d" % r.randrange(100), True, False, set())
        return c
    if k == 4:
        secret = r.random() < 0.4
        box = asyncio.Future()
        o = Output(set(), box, later(True), later(secret))
        SECRET[id(o)], BOX[id(o)] = secret, box
        return o
    box = asyncio.Future()
    BOX[id(box)] = box
    return box


BOX = {}
SECRET = {}
LEAVES = [None, 1, 2.5, True, "text", "", 0]


async def expected(v, path, dry):
    """What is exported for v inside the objects of the path, all outputs awaited."""
    if v is None or isinstance(v, (str, int, float, bool)):
        return v
    if any(p is v for p in path):
        return await v.urn.future() if isinstance(v, Resource) else None
    path = path + [v]
    if isinstance(v, dict):
        return {k: await expected(x, path, dry) for k, x in v.items() if not k.startswith("_")}
    if isinstance(v, Output):
        return ("output", SECRET.get(id(v), False), await expected(await v.future(), path, dry))
    if asyncio.isfuture(v):
        return ("output", False, await expected(await v, path, dry))
    if isinstance(v, Resource):
        d = await expected(v.__dict__, path, dry)
        if dry:
            d["@isPulumiResource"] = True
        return d
    if isinstance(v, Plain):
        return await expected(v.__dict__, path, dry)
    return [await expected(x, path, dry) for x in v]


async def awaited(v):
    if isinstance(v, Output):
        return ("output", await v.is_secret(), await awaited(await v.future()))
    if isinstance(v, dict):
        return {k: await awaited(x) for k, x in v.items()}
    if isinstance(v, list):
        return [await awaited(x) for x in v]
    return v


def leaf_object():
    o = object.__new__(Plain)
    o.__dict__.update(a=3, b={"k": (1,), "_c": 2})
    return o


def leftover_urns(v):
    """A resource that is cut off leaves its URN as an output: compare it by value."""
    if isinstance(v, tuple) and v[0] == "output" and isinstance(v[2], str) and v[2].startswith("urn:"):
        return v[2]
    if isinstance(v, tuple):
        return (v[0], v[1], leftover_urns(v[2]))
    if isinstance(v, dict):
        return {k: leftover_urns(x) for k, x in v.items()}
    if isinstance(v, list):
        return [leftover_urns(x) for x in v]
    return v


async def check_graphs_native():
    """Random graphs of containers, objects, resources and outputs, with sharing and cycles."""
    if SYMBOLIC:
        return
    r = rand()
    BOX.clear()
    SECRET.clear()
    dry = r.random() < 0.5
    set_dry_run(dry)
    nodes = [native_node(r) for _ in range(r.randrange(1, 7))]

    def pick(limit=None):
        if r.random() < 0.4:
            return r.choice(LEAVES)
        # outputs and awaitables only hold later nodes or plain values (an output of an output is no value)
        pool = nodes if limit is None else [n for n in nodes if not isinstance(n, Output) and not asyncio.isfuture(n)]
        return r.choice(pool) if pool else 1
    for n in nodes:
        if isinstance(n, dict):
            n.update({k: pick() for k in r.sample(["a", "b", "_c"], r.randrange(4))})
        elif isinstance(n, list):
            n.extend(pick() for _ in range(r.randrange(4)))
        elif isinstance(n, (Resource, Plain)):
            for k in r.sample(["a", "b", "_c"], r.randrange(3)):
                n.__dict__[k] = pick()
        else:
            # awaitables are flattened by Output.from_input, which follows no cycles
            BOX[id(n)].set_result(pick(1) if isinstance(n, Output) else r.choice(LEAVES + [["x", 1], (1, "y"), leaf_object()]))
    top = r.choice(nodes)
    if r.random() < 0.3:
        top = {"x": top, "y": (top, r.choice(nodes))}
    note("graph", [(type(n).__name__, sorted(n.__dict__) if isinstance(n, (Plain, Resource)) else len(n) if isinstance(n, (list, dict)) else "") for n in nodes])
    want = leftover_urns(await expected(top, [], dry))
    seen = []
    got = massage(top, seen)
    ensure(seen == [], "the caller's list is not changed")
    got = leftover_urns(await awaited(got))
    ensure(got == want, f"exported {got!r}, not {want!r}")


HARNESSES = [check_primitive_values, check_containers, check_outputs, check_objects, check_reference_contains, check_stack]
NATIVE = [check_graphs_native]
BOUNDS = {"check_graphs_native": "graphs of up to 6 nodes with up to 3 edges each"}
