"""C29: transformations, validation and registration of new resources."""
from spec.common import *
from pulumi.resource import Resource, ResourceOptions, ResourceTransformationResult
from pulumi.runtime.stack import register_stack_transformation
if not SYMBOLIC:
    import asyncio
    import pulumi
    from pulumi.runtime.proto import provider_pb2, resource_pb2
    from pv import note

R = "pulumi.resource."
ASSUMPTIONS = ["register_resource, read_resource, get_resource, all_aliases and Resource._get_providers by contract (C08, C11, C21, C25)",
               "transformations do not change the lists of transformations themselves"]
STATE = {}


def a_transformation(name, parent):
    how = choose(name, ["nothing", "result", "other parent"])
    opts = None
    if how != "nothing":
        opts = ResourceOptions(parent=parent if how == "result" else make(RES, _name="other"), version=sym(name + " version", "str"))
    props = sym(name + " inputs", ("dict", "str", "any"), native=lambda: {name: 1})

    def run(args):
        STATE["seen"].append((name, args.resource, args.type_, args.name, args.props, args.opts))
        return None if how == "nothing" else ResourceTransformationResult(props, opts)
    return how, run, props, opts, name


def recorders():
    def reg(res, ty, name, custom, remote, new_dependency, props, opts, typ=None):
        STATE["made"].append(("register", res, ty, name, custom, remote, props, opts, typ))

    def read(res, ty, name, props, opts, typ=None):
        STATE["made"].append(("read", res, ty, name, True, False, props, opts, typ))

    def lookup(res, props, custom, urn, typ=None):
        STATE["made"].append(("get", res, None, None, custom, False, props, urn, typ))
    STATE["seen"], STATE["made"] = [], []
    setg(R + "register_resource", reg)
    setg(R + "read_resource", read)
    setg(R + "get_resource", lookup)
    setg(R + "all_aliases", lambda given, name, t, parent: [("aliases", given, name, t, parent)])
    setg(R + "Resource._get_providers", lambda self, t, pkg, opts: (None, {}))


async def check_transformations():
    """The resource's own transformations run first, then its parent's; each sees what the one before left, and the last decides."""
    recorders()
    parent = make(RES, _name="parent", _protect=False, _providers={}, _childResources=set(), _aliases=[]) if choose("parent", [False, True]) else None
    root = make(RES, _name="root") if choose("root", [False, True]) else None
    setg(R + "get_root_resource", lambda: root)
    own = [a_transformation("first own", parent), a_transformation("second own", parent)][:choose("own", [0, 1, 2])]
    inherited = [a_transformation("first inherited", parent), a_transformation("second inherited", parent)][:choose("inherited", [0, 1, 2])]
    source = parent if parent is not None else root
    if source is not None:
        source._transformations = [t[1] for t in inherited]
    else:
        inherited = []
    props = sym("inputs", ("dict", "str", "any"), native=lambda: {"given": 1})
    given = [t[1] for t in own] if len(own) > 0 else None
    opts = ResourceOptions(parent=parent, transformations=given, version=sym("version", "str"), plugin_download_url=sym("url", "str"), aliases=["alias"])
    version = opts.version
    self = make(RES)
    if SYMBOLIC:
        use("pulumi._types.is_input_type", lambda t: False)
    error = None
    try:
        Resource.__init__(self, "p:m:T", "name", True, props, opts)
    except Exception as e:
        error = e
    now, cur, n = props, opts, 0
    for how, run, p, o, label in own + inherited:
        ensure(len(STATE["seen"]) > n, "every transformation runs, in order")
        got = STATE["seen"][n]
        n += 1
        ensure(got[0] == label and got[1] is self and got[2] == "p:m:T" and got[3] == "name", "for this resource, in order")
        ensure(got[4] is now and got[5] is cur, "it sees what the one before left")
        if how == "other parent":
            ensure(error is not None and len(STATE["made"]) == 0, "a transformation cannot move a resource")
            ensure(len(STATE["seen"]) == n, "and nothing else happens")
            return
        if how == "result":
            now, cur = p, o
    ensure(error is None and len(STATE["seen"]) == n, "each once")
    ensure(len(STATE["made"]) == 1 and STATE["made"][0][0] == "register", "the resource is registered")
    m = STATE["made"][0]
    ensure(m[1] is self and m[2] == "p:m:T" and m[3] == "name" and m[4] is True and m[5] is False and m[8] is None, "type, name and kind")
    ensure(m[6] is now, "with the inputs the last one left")
    ensure(m[7].version == cur.version and m[7].parent is parent and m[7] is not cur, "with (a copy of) the options the last one left")
    ensure(self._version == cur.version and self._plugin_download_url == cur.plugin_download_url, "and it keeps them")
    ensure(self._aliases == [("aliases", cur.aliases, "name", "p:m:T", parent)], "its aliases are those of the options left")
    ensure(opts.version == version and opts.parent is parent and opts.provider is None and opts.protect is None and opts.transformations is given, "the options given are unchanged")
    ensure(given is None or given == [t[1] for t in own], "so are its transformations")
    if source is not None:
        ensure(source._transformations == [t[1] for t in inherited], "and those of the parent")
    ensure([t for t in self._transformations] == [t[1] for t in own + inherited], "its children inherit all of them")
    if parent is not None:
        ensure(self in parent._childResources and len(parent._childResources) == 1, "its parent knows it")


async def check_validation():
    """Without a proper type, name, options and parent nothing is registered."""
    recorders()
    setg(R + "get_root_resource", lambda: None)
    if SYMBOLIC:
        use("pulumi._types.is_input_type", lambda t: False)
    wrong = choose("wrong", ["no type", "type", "no name", "empty name", "name", "options", "parent", "nothing"])
    t = "" if wrong == "no type" else 5 if wrong == "type" else "p:m:T"
    name = None if wrong == "no name" else ["name"] if wrong == "name" else "" if wrong == "empty name" else "name"
    opts = {"version": "1"} if wrong == "options" else None
    if wrong == "parent":
        opts = ResourceOptions()
        opts.parent = Parentless()
    self = make(RES)
    failed = False
    try:
        Resource.__init__(self, t, name, choose("custom", [False, True]), None, opts)
    except TypeError:
        failed = True
    ensure(failed == (wrong != "nothing"), "rejected with a TypeError")
    ensure(len(STATE["made"]) == (0 if failed else 1), "and nothing is registered")
    if not failed:
        ensure(len(STATE["made"][0][6]) == 0, "no inputs")


class Parentless:
    """Something that is no resource."""
    _transformations = []


async def check_typed():
    """Typed inputs are handed on by their attributes, together with their type."""
    if not SYMBOLIC:
        return
    recorders()
    setg(R + "get_root_resource", lambda: None)
    typed = sym("typed", "bool")
    use("pulumi._types.is_input_type", lambda t: typed)
    attributes = {"some_name": sym("value", "any")}
    props = make(RES, _name="stands for the inputs")

    def convert(obj):
        ensure(obj is props, "the inputs given")
        return attributes
    use("pulumi._types.input_type_to_untranslated_dict", convert)
    self = make(RES)
    Resource.__init__(self, "p:m:T", "name", True, props, None)
    m = STATE["made"][0]
    if typed:
        ensure(m[6] is attributes and m[8] is type(props), "the attributes, and the type")
    else:
        ensure(m[6] is props and m[8] is None, "the inputs as they are")


async def check_stack_transformation():
    """A stack transformation is added behind those of the stack, and needs a stack."""
    there = sym("transformations", ("list", "str"), native=lambda: ["t%d" % i for i in range(rand().randrange(4))])
    how = choose("stack", ["none", "no list", "list"])
    root = None if how == "none" else make(RES, _transformations=None if how == "no list" else there)
    setg("pulumi.runtime.stack.get_root_resource", lambda: root)
    before = list(there)
    failed = False
    try:
        register_stack_transformation("new")
    except Exception:
        failed = True
    ensure(failed == (how == "none"), "only with a stack")
    if not failed:
        ensure_same(root._transformations, (before if how == "list" else []) + ["new"], "behind the others")


if not SYMBOLIC:
    class Engine:
        def __init__(self):
            self.requests = {}
            self.calls = []

        def SupportsFeature(self, req):
            return resource_pb2.SupportsFeatureResponse(hasSupport=True)

        def Call(self, req):
            self.calls.append(req)
            return provider_pb2.CallResponse()

        def RegisterResource(self, req):
            self.requests.setdefault(req.name, []).append(req)
            return resource_pb2.RegisterResourceResponse(urn="urn:pulumi:s::p::t::" + req.name, id="id")


async def check_native():
    """Real trees of resources with transformations at every level (and of the stack)."""
    if SYMBOLIC:
        return
    import pulumi.runtime.settings as st
    from pulumi.runtime.rpc_manager import RPC_MANAGER
    from pulumi.runtime import call
    r = rand()
    engine = Engine()
    st.configure(st.Settings("proj", "stack", monitor=engine, dry_run=r.random() < 0.5))
    st.SETTINGS.feature_support = {}
    RPC_MANAGER.clear()
    count = [0]

    def transformation():
        count[0] += 1
        n, leaves, options, clears = count[0], r.random() < 0.3, r.random() < 0.5, r.random() < 0.1

        def t(args):
            if leaves:
                return None
            trace = (args.props.get("trace") or "") + f"{n};"
            o = pulumi.ResourceOptions.merge(args.opts, pulumi.ResourceOptions(version=f"{n}.0.0")) if options else args.opts
            return ResourceTransformationResult({} if clears else dict(args.props, trace=trace), o)
        return t, n, leaves, options, clears
    root = pulumi.ComponentResource("pulumi:pulumi:Stack", "root")
    real = pulumi.resource.get_root_resource
    import pulumi.runtime.stack as rs
    real2 = rs.get_root_resource
    pulumi.resource.get_root_resource = rs.get_root_resource = lambda: root
    stack = []
    expected = {}
    try:
        nodes = []
        for i in range(1 + r.randrange(6)):
            if r.random() < 0.3:
                t = transformation()
                register_stack_transformation(t[0])
                stack.append(t)
            own = [transformation() for _ in range(r.choice([0, 0, 1, 2]))]
            parent = r.choice([None] + nodes)
            scope = own + (list(stack) if parent is None else parent.scope)
            if nodes and r.random() < 0.2:
                opts, own, parent = nodes[-1].asked                 # the same options once more
                scope = own + (list(stack) if parent is None else parent.scope)
            else:
                opts = pulumi.ResourceOptions(parent=parent, transformations=[t[0] for t in own] if own or r.random() < 0.5 else None, version="0.0.1", plugin_download_url=f"http://{i}")
            inputs = {"x": 1}
            cls, kw = (pulumi.CustomResource, {}) if r.random() < 0.5 else (pulumi.ComponentResource, {})
            n = cls("p:m:T", f"n{i}", inputs, opts)
            n.__dict__["scope"], n.__dict__["asked"] = scope, (opts, own, parent)
            nodes.append(n)
            ensure(inputs == {"x": 1} and opts.version == "0.0.1" and opts.parent is parent and opts.protect is None and len(opts.transformations or []) == len(own), "inputs and options are unchanged")
            trace, version = "", "0.0.1"
            for _, k, leaves, options, clears in scope:
                if not leaves:
                    trace = "" if clears else trace + f"{k};"
                    version = f"{k}.0.0" if options else version
            expected[f"n{i}"] = (trace, version, not any(c and not l for _, k, l, o, c in scope))
            if parent is not None:
                ensure(n in parent._childResources, "the parent knows it")
        for _ in range(500):
            if len(engine.requests) > len(nodes):
                break
            await asyncio.sleep(0.001)
        for t in list(RPC_MANAGER.rpcs):
            await t
    finally:
        pulumi.resource.get_root_resource, rs.get_root_resource = real, real2
    note("expected", expected)
    for i, n in enumerate(nodes):
        await call("p:m:T/f", {}, n).future()
        ensure(len(engine.calls) == 1, "one call")
        q = engine.calls.pop()
        ensure((q.version, q.pluginDownloadURL) == (expected[f"n{i}"][1], n.asked[0].plugin_download_url), f"n{i}: its methods are called in its version: {q}")
    for k, (trace, version, x) in expected.items():
        ensure(len(engine.requests.get(k, [])) == 1, f"{k}: one request")
        q = engine.requests[k][0]
        got = (q.object.fields["trace"].string_value if "trace" in q.object.fields else "", q.version, "x" in q.object.fields)
        ensure(got == (trace, version, x), f"{k}: transformed as asked for: {got}, not {(trace, version, x)}")


HARNESSES = [check_transformations, check_validation, check_typed, check_stack_transformation]
NATIVE = [check_native]
BOUNDS = {"check_transformations": "at most 2 own and 2 inherited transformations (each arbitrary)",
          "check_native": "trees of up to 6 resources with up to 2 transformations each"}
