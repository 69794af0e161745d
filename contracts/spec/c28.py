"""C28: stack references give the outputs of the other stack, with their secretness."""
import asyncio
from spec.common import *
from pulumi.stack_reference import StackReference
if not SYMBOLIC:
    import pulumi
    from pulumi.runtime.proto import resource_pb2
    from google.protobuf import struct_pb2
    from pv import note

REF = "pulumi.stack_reference.StackReference"
ASSUMPTIONS = ["Output.all, Output.from_input and Output.apply by contract (C01, C02)",
               "outside previews every output is known; a stack reference whose outputs are known gives them as a dictionary",
               "ResourceOptions.merge by contract (C10)"]
STATE = {}


def parts(o):
    return o._future.result(), o._is_known.result(), o._is_secret.result(), o._resources.result()


def spec_from_input(v):
    return v if isinstance(v, Output) else make(OUT, _future=later(v), _is_known=later(not_(hasunk(v))), _is_secret=later(False), _resources=later(set()))


def spec_all(*args):
    """Two values: known if both are, secret if one is, depending on what both depend on."""
    a, b = parts(spec_from_input(args[0])), parts(spec_from_input(args[1]))
    return make(OUT, _future=later([a[0], b[0]]), _is_known=later(and_(a[1], b[1])), _is_secret=later(or_(a[2], b[2])), _resources=later(a[3] | b[3]))


def spec_apply(self, func, run_with_unknowns=None):
    v, kn, se, de = parts(self)
    ensure(run_with_unknowns is None or not run_with_unknowns, "only applied to known values")
    if STATE["dry"] and not kn:
        return make(OUT, _future=later(None), _is_known=later(False), _is_secret=later(se), _resources=later(de))
    try:
        r = func(v)
    except Exception as e:
        return make(OUT, _future=failed(e), _is_known=later(False), _is_secret=later(False), _resources=later(de))
    return make(OUT, _future=later(r), _is_known=later(not_(hasunk(r))), _is_secret=later(se), _resources=later(de))


def failed(e):
    f = asyncio.Future()
    f.set_exception(e)
    return f


def a_dict():
    r = rand()
    return {k: r.choice([1, "v", None, True, [1], 0, False, "", []]) for k in ["a", "b", "c", "d"] if r.random() < 0.6}


def some_names():
    r = rand()
    return None if r.random() < 0.2 else [k for k in ["a", "b", "c"] if r.random() < 0.5]


async def reference():
    """A stack reference in an arbitrary state, and an arbitrary name."""
    dry = sym("preview", "bool")
    STATE["dry"] = dry
    set_dry_run(dry)
    if SYMBOLIC:
        use_contains_unknowns()
        use("pulumi.output.Output.from_input", spec_from_input)
        use("pulumi.output.Output.all", spec_all)
        use("pulumi.output.Output.apply", spec_apply)
    outs = sym("outputs", ("dict", "str", "any"), native=a_dict)
    names = sym("secret output names", ("list", "str"), native=some_names)
    if SYMBOLIC and choose("old engine", [False, True]):
        names = None
    name = sym("name", "str", native=lambda: rand().choice(["a", "b", "c", "d", "e"]))
    ok, nk, pk = sym("outputs known", "bool"), sym("secret names known", "bool"), sym("name known", "bool")
    assume(dry or (ok and nk and pk))
    assume(not (ok and hasunk(outs)))
    if SYMBOLIC:
        assume(not hasunk(names))                                 # strings hold no unknowns
        if name in outs:
            assume(not (ok and hasunk(outs[name])))               # what holds of the whole holds of the part
    osec, psec, od, nd = sym("outputs secret", "bool"), sym("name secret", "bool"), dep_set("dependencies of the outputs"), dep_set("dependencies of the name")
    o = make(OUT, _future=later(outs if ok else None), _is_known=later(ok), _is_secret=later(osec), _resources=later(od))
    s = make(OUT, _future=later(names if nk else None), _is_known=later(nk), _is_secret=later(sym("names secret", "bool")), _resources=later(set()))
    given, nset = name, set()
    if choose("name is an output", [False, True]):
        given = make(OUT, _future=later(name if pk else None), _is_known=later(pk), _is_secret=later(psec), _resources=later(nd))
        nset = nd
    else:
        pk = True
    r = make(REF, outputs=o, secret_output_names=s, _name="ref")
    known = ok and pk
    if nk and pk and names is not None:
        secret = name in names
    else:
        secret = osec
    return r, given, known, name, outs, secret, nset | od


async def check_get():
    """get_output: the value or nothing, unknown exactly if it cannot be known, secret as the other stack says."""
    r, given, known, name, outs, secret, deps = await reference()
    out = r.get_output(given)
    drain()
    ensure(await out._is_known == known, "known exactly if the outputs and the name are")
    v = await out._future
    if known:
        ensure_same(v, outs[name] if name in outs else None, "the output's value, or nothing")
    else:
        ensure(v is None, "no value")
    ensure(await out._is_secret == secret, "secret as the other stack says, else as its outputs are")
    ensure_same(await out._resources, deps, "dependencies of the reference and of the name")


async def check_require():
    """require_output: the value, or a failure if there is none."""
    r, given, known, name, outs, secret, deps = await reference()
    out = r.require_output(given)
    drain()
    failure, v = None, None
    try:
        v = await out._future
    except KeyError as e:
        failure = e
    ensure_same(await out._resources, deps, "dependencies of the reference and of the name")
    if known and name not in outs:
        ensure(failure is not None, "a missing output is a failure")
        return
    ensure(failure is None, "no failure")
    ensure(await out._is_known == known, "known exactly if the outputs and the name are")
    if known:
        ensure_same(v, outs[name], "the output's value")
    else:
        ensure(v is None, "no value")
    ensure(await out._is_secret == secret, "secret as the other stack says, else as its outputs are")


async def check_names():
    """The engine's names of the properties are the reference's attributes."""
    p = sym("property", "str", native=lambda: rand().choice(["secretOutputNames", "outputs", "name", "other"]))
    r = make(REF, _name="ref")
    q = r.translate_output_property(p)
    ensure(q == ("secret_output_names" if p == "secretOutputNames" else p), "the attribute of the property")


async def check_construction():
    """A stack reference is read by the name of the other stack."""
    if not SYMBOLIC:
        return
    made = []
    use("pulumi.resource.CustomResource.__init__", lambda self, t, name, props, opts, dependency: made.append((self, t, name, props, opts)))
    use("pulumi.resource.ResourceOptions.merge", lambda a, b: make("pulumi.resource.ResourceOptions", first=a, id=b.id, rest=b))
    name, stack, opts = sym("name", "str"), sym("stack name", ("opt", "str")), sym("options", "any")
    r = StackReference(name, stack, opts)
    ensure(len(made) == 1, "one resource")
    self, t, n, props, o = made[0]
    target = stack if stack is not None else name
    ensure(self is r and t == "pulumi:pulumi:StackReference" and n == name, "type and name")
    ensure(o.first is opts and o.id == target and o.rest.parent is None and o.rest.provider is None, "the options given, and the stack's name as id")
    ensure(props["name"] == target and len(props) == 3, "the stack to refer to")
    ensure(props["outputs"] is None and props["secret_output_names"] is None, "the outputs are for the engine to fill in")


if not SYMBOLIC:
    class Engine:
        def __init__(self, answer):
            self.answer, self.requests = answer, []

        def SupportsFeature(self, req):
            return resource_pb2.SupportsFeatureResponse(hasSupport=True)

        def ReadResource(self, req):
            self.requests.append(req)
            return resource_pb2.ReadResourceResponse(urn="urn:pulumi:s::p::pulumi:pulumi:StackReference::r", properties=self.answer)


async def check_native():
    """A real stack reference: what the engine is asked for, and what the program gets of its answer."""
    if SYMBOLIC:
        return
    import pulumi.runtime.settings as st
    from pulumi.runtime.rpc_manager import RPC_MANAGER
    r = rand()
    outs, names = a_dict(), some_names()
    whole = r.random() < 0.3
    s = struct_pb2.Struct()
    wrapped = {k: v for k, v in outs.items() if v is not None}
    s.update({"name": "other", "outputs": {"4dabf18193072939515e22adb298388d": "1b47061264138c4ac30d75fd1eb44270", "value": wrapped} if whole else wrapped})
    if names is not None:
        s.update({"secretOutputNames": names})
    engine = Engine(s)
    st.configure(st.Settings("proj", "stack", monitor=engine, dry_run=r.random() < 0.5))
    st.SETTINGS.feature_support = {}
    RPC_MANAGER.clear()
    stack = r.choice([None, "org/other/dev", ""])
    opts = r.choice([None, pulumi.ResourceOptions(protect=True), pulumi.ResourceOptions(id="mine"),
                     pulumi.ResourceOptions(id="mine", version="1.2.3", additional_secret_outputs=["outputs"], plugin_download_url="http://x", depends_on=[])])
    given = (opts.version or "", list(opts.additional_secret_outputs or [])) if opts is not None else ("", [])
    own_id = opts.id if opts is not None else None
    target = "ref" if stack is None else stack
    ref = StackReference("ref", stack, opts)
    for _ in range(500):
        if ref.outputs._future.done():
            break
        await asyncio.sleep(0.001)
    ensure(len(engine.requests) == 1, "one request")
    q = engine.requests[0]
    ensure((q.type, q.name, q.id) == ("pulumi:pulumi:StackReference", "ref", target), f"what is read: {q}")
    ensure(q.properties.fields["name"].string_value == target, "the stack to refer to")
    ensure((q.version, list(q.additionalSecretOutputs)) == given, "read with the options given")
    ensure(opts is None or opts.id == own_id, "the options are not changed")
    note("answer", (outs, names, whole))
    for k in ["a", "b", "c", "d", "e"]:
        o = ref.get_output(k if r.random() < 0.5 else pulumi.Output.from_input(k))
        got = (await o.future(), await o.is_known(), await o.is_secret(), await o.resources())
        ensure(got == (outs.get(k), True, (k in names) if names is not None else whole, {ref}), f"output {k}: {got}")


HARNESSES = [check_get, check_require, check_names, check_construction]
NATIVE = [check_native]
BOUNDS = {"check_native": "outputs and names from a pool of 5"}
