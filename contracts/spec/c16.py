"""C16: component providers reconstruct what the program passed to the component, and report back faithfully."""
import asyncio
from spec.common import *
from pulumi.provider.server import (ProviderServicer, _contains_outputs, _is_resource_reference, _empty_as_none, _zero_as_none,
                                    _create_provider_resource)
if not SYMBOLIC:
    import pulumi
    from pulumi.runtime import proto
    from pulumi.provider.provider import Provider, ConstructResult, CallResult, CheckFailure
    from pv import note

from pulumi.resource import Resource as RESOURCE
from pulumi.resource import DependencyResource
from spec.c12 import part

URNS = ["urn:pulumi:s::p::a:b:C::n", ""]

S = "pulumi.provider.server."
SERVICER = S + "ProviderServicer"
ASSUMPTIONS = ["protobuf messages keep the fields they are given",
               "asyncio.Lock serializes its critical sections",
               "deserialize_properties, serialize_properties, set_all_config and wait_for_rpcs by contract (C06, C03/C04, C14, C23)"]
STATE = {}


def stand_in(urn):
    """The stand-in for the resource with this URN (check_stand_in)."""
    return ufn("stand in", urn, result=("obj", RES))


class PropertyDependencies:
    def __init__(self, urns=None):
        self.urns = [] if urns is None else urns


class Failure(Exception):
    pass


class Response:
    PropertyDependencies = PropertyDependencies
    ReturnDependencies = PropertyDependencies

    def __init__(self, **fields):
        self.fields = fields


class ConstructRequest:
    PropertyDependencies = PropertyDependencies


class CallRequest:
    ArgumentDependencies = PropertyDependencies


class Messages:
    ConstructRequest = ConstructRequest
    CallRequest = CallRequest
    ConstructResponse = Response
    CallResponse = Response

    def CheckFailure(self, property=None, reason=None):
        return (property, reason)


def setup():
    if SYMBOLIC:
        setg(S + "DependencyResource", stand_in)
        setg(S + "proto", Messages())
        schema("pulumi.provider.provider.CheckFailure", property="str", reason="str")
        schema("spec.c16.PropertyDependencies", urns=("set", "str"))


# ------------------------------------------------------------------ one input
def secret(v):
    return ufb("wrapped secret", v)


def spec_contains_outputs(v):
    return ufb("contains outputs", v)


async def spec_is_reference(v, deps):
    return ufb("reference", v)


async def check_select():
    """An input becomes an output with its secret flag and dependencies, unless it can stand for itself."""
    if not SYMBOLIC:
        return
    setup()
    use("pulumi.runtime.rpc.is_rpc_secret", secret)
    use("pulumi.runtime.rpc.unwrap_rpc_secret", lambda v: ufn("unwrapped", v))
    use(S + "_contains_outputs", spec_contains_outputs)
    use(S + "_is_resource_reference", spec_is_reference)
    use_contains_unknowns()
    v = sym("input", "any")
    deps = sym("dependencies", ("set", "str"))
    r = await ProviderServicer._select_value(v, deps)
    if not secret(v) and (len(deps) == 0 or spec_contains_outputs(v) or await spec_is_reference(v, deps)):
        ensure(r is v, "the input stands for itself")
        return
    ensure(isinstance(r, Output), "an output")
    ensure((await r.is_secret()) is True if secret(v) else (await r.is_secret()) is False, "secret exactly if the wire value was")
    inner = ufn("unwrapped", v)
    ensure_same(await r.future(True), inner, "the value")
    ensure(iff(await r.is_known(), not_(hasunk(inner))), "unknown exactly if the value contains unknowns")
    ensure_same(await r.resources(), {stand_in(u) for u in deps}, "the dependencies of the request")


def has_outputs(v):
    return or_(isinstance(v, Output), and_(kind_is(v, "list", "dict"), ufb("contains outputs", v)))


async def check_contains_outputs():
    """Outputs are found anywhere in lists and dictionaries."""
    if not SYMBOLIC:
        return
    use_rec(S + "_contains_outputs", has_outputs)
    k = choose("shape", ["list", "dict", "other"])
    v = sym("input", "any")
    if k == "list":
        assume(kind_is(v, "list"))
        expected = any(has_outputs(x) for x in v)
    elif k == "dict":
        assume(kind_is(v, "dict"))
        expected = any(has_outputs(x) for x in v.values())
    else:
        assume(not_(kind_is(v, "list", "dict")))
        expected = isinstance(v, Output)
    ensure(iff(_contains_outputs(v), expected), "exactly if there is an output inside")


async def check_reference():
    """A resource is its own reference exactly if the request lists only its own URN."""
    if not SYMBOLIC:
        return
    k = choose("input", ["resource", "other"])
    deps = sym("dependencies", ("set", "str"))
    u = sym("urn", "str")

    def future(self, with_unknowns=None):
        return later(u)
    use("pulumi.output.Output.future", future)
    v = make(RES, urn=make(OUT, tag=1)) if k == "resource" else sym("value", "any")
    if k == "other":
        assume(not_(isinstance(v, RESOURCE)))
    r = await _is_resource_reference(v, deps)
    if k == "resource":
        ensure(iff(r, and_(len(deps) == 1, u in deps)), "exactly if it depends on itself only")
    else:
        ensure(not r, "not a resource")


async def check_absent():
    """Empty strings and zeroes stand for absent options."""
    s, n = sym("text", "str"), sym("number", "int")
    got = _empty_as_none(s)
    ensure(got is None if s == "" else got == s, "an empty string is absent")
    got = _zero_as_none(n)
    ensure(got is None if n == 0 else got == n, "zero is absent")


# ------------------------------------------------------------------ requests
def selected(v, listed):
    return ufn("selected", v, listed)


async def spec_select(the_input, deps):
    """The input with its dependencies (check_select), told apart by an arbitrary URN."""
    return selected(the_input, STATE["urn"] in deps)


def spec_deserialize(props, keep_unknowns=None, keep_internal=None):
    STATE["deserialized"].append((props, keep_unknowns, keep_internal))
    return STATE["values"]


def use_inputs():
    STATE["urn"] = sym("some urn", "str")
    STATE["deserialized"] = []
    STATE["values"] = sym("values", ("dict", "str", "any"))
    use(SERVICER + "._select_value", spec_select)
    use("pulumi.runtime.rpc.deserialize_properties", spec_deserialize)


async def check_inputs():
    """Every input of a request is rebuilt with the dependencies the request lists for it."""
    if not SYMBOLIC:
        return
    setup()
    use_inputs()
    listed = sym("listed", ("dict", "str", ("obj", "spec.c16.PropertyDependencies")))
    if choose("request", ["construct", "call"]) == "construct":
        r = await ProviderServicer._construct_inputs("inputs", listed)
        ensure(STATE["deserialized"] == [("inputs", True, None)], "unknowns are kept")
    else:
        request = make("spec.c16.CallRequest", args="inputs", argDependencies=listed)
        r = await ProviderServicer._call_args(request)
        ensure(STATE["deserialized"] == [("inputs", True, True)], "unknowns and internal arguments are kept")
    k = sym("some input", "str")
    values = STATE["values"]
    ensure(iff(k in r, k in values), "exactly the inputs of the request")
    if k in values:
        ensure(r[k] == selected(values[k], STATE["urn"] in listed[k].urns if k in listed else False), "the input with its dependencies")


def a_request(cls, **more):
    return make("spec.c16." + cls, project=sym("project", "str"), stack=sym("stack", "str"), parallel=sym("parallel", "int"),
                monitorEndpoint=sym("monitor", "str"), dryRun=sym("dry run", "bool"), config=sym("config", ("dict", "str", "str")),
                configSecretKeys=sym("secret keys", ("list", "str")), **more)


async def check_options():
    """The options of the component are those of the request."""
    if not SYMBOLIC:
        return
    setup()
    use(S + "_create_provider_resource", lambda ref: ufn("provider", ref, result=("obj", "pulumi.resource.ProviderResource")))
    parent = sym("parent", "str")
    request = a_request("ConstructRequest", parent=parent, aliases=sym("aliases", ("list", "str")),
                        dependencies=sym("dependencies", ("list", "str")), protect=sym("protect", "bool"),
                        providers=sym("providers", ("dict", "str", "str")))
    o = ProviderServicer._construct_options(request)
    if parent == "":
        ensure(o.parent is None, "no parent")
    else:
        ensure_same(o.parent, stand_in(parent), "the parent")
    ensure_same(o.aliases, request.aliases, "the aliases")
    ensure_same(o.depends_on, [stand_in(u) for u in request.dependencies], "the dependencies")
    ensure(o.protect == request.protect, "protection")
    p = sym("some package", "str")
    ensure(iff(p in o.providers, p in request.providers), "providers for exactly the packages")
    if p in o.providers:
        ensure_same(o.providers[p], ufn("provider", request.providers[p], result=("obj", "pulumi.resource.ProviderResource")), "the provider")


class Lock:
    async def acquire(self):
        EVENTS.append("acquire")

    def release(self):
        EVENTS.append("release")


EVENTS = []


def step(name, value):
    EVENTS.append(name)
    if STATE["fails"] == name:
        raise Failure(name)
    return value


class UserProvider:
    def construct(self, name, resource_type, inputs, options):
        STATE["asked"].append((name, resource_type, inputs, options))
        return step("provider", "result")

    def call(self, token, args):
        STATE["asked"].append((token, args))
        return step("provider", "result")


async def check_serve():
    """A request is served with its own settings and configuration, alone, to its end, whatever fails."""
    if not SYMBOLIC:
        return
    setup()
    EVENTS.clear()
    STATE["asked"], STATE["settings"], STATE["config"] = [], [], []
    construct = choose("request", ["construct", "call"]) == "construct"
    STATE["fails"] = choose("fails", ["", "inputs", "provider", "response", "wait"])

    def reset(project=None, stack=None, parallel=None, engine_address=None, monitor_address=None, preview=None, organization=None):
        STATE["settings"].append((project, stack, parallel, engine_address, monitor_address, preview))
        step("settings", None)

    def config(c, secret_keys=None):
        STATE["config"].append((c, secret_keys))
        step("config", None)

    async def inputs(props, dependencies):
        STATE["inputs of"] = (props, dependencies)
        return step("inputs", "rebuilt")

    async def args(r):
        STATE["inputs of"] = r
        return step("inputs", "rebuilt")

    async def response(self, result):
        STATE["response of"] = result
        return step("response", "response")

    async def wait(await_all_outstanding_tasks=True):
        ensure(await_all_outstanding_tasks is False, "only the requests are waited for")
        step("wait", None)
    use("pulumi.runtime.settings.reset_options", reset)
    use("pulumi.runtime.config.set_all_config", config)
    use(SERVICER + "._construct_inputs", inputs)
    use(SERVICER + "._call_args", args)
    use(SERVICER + "._construct_options", lambda r: "options")
    use(SERVICER + "._construct_response", response)
    use(SERVICER + "._call_response", response)
    use("pulumi.runtime.stack.wait_for_rpcs", wait)
    request = a_request("ConstructRequest" if construct else "CallRequest", name=sym("name", "str"), type=sym("type", "str"), tok=sym("token", "str"),
                        inputs="inputs", inputDependencies="dependencies")
    servicer = make(SERVICER, provider=UserProvider(), args=[], engine_address="engine", lock=Lock())
    failure = None
    got = None
    try:
        got = await (servicer.Construct(request, None) if construct else servicer.Call(request, None))
    except Failure as e:
        failure = e
    ensure((failure is not None) == (STATE["fails"] != ""), "fails exactly if a step fails")
    ensure(EVENTS[0] == "acquire" and EVENTS[-1] == "release", "served alone, and the lock is always given back")
    if failure is not None:
        return
    ensure(EVENTS == ["acquire", "settings", "config", "inputs", "provider", "response", "wait", "release"], "settings, configuration, inputs, component, response")
    ensure(got == "response" and STATE["response of"] == "result", "the response for the component")
    project, stack, parallel, engine, monitor, preview = STATE["settings"][0]
    ensure(project is None if request.project == "" else project == request.project, "the project")
    ensure(stack is None if request.stack == "" else stack == request.stack, "the stack")
    ensure(parallel is None if request.parallel == 0 else parallel == request.parallel, "the parallelism")
    ensure(monitor is None if request.monitorEndpoint == "" else monitor == request.monitorEndpoint, "the monitor")
    ensure(engine == "engine" and preview == request.dryRun, "the engine and the mode")
    c, secret_keys = STATE["config"][0]
    ensure_same(c, request.config, "the configuration")
    ensure_same(secret_keys, request.configSecretKeys, "the secret configuration keys")
    if construct:
        ensure(STATE["asked"] == [(request.name, request.type, "rebuilt", "options")], "the component is constructed from the request")
        ensure(STATE["inputs of"] == ("inputs", "dependencies"), "the inputs of the request")
    else:
        ensure(STATE["asked"] == [(request.tok, "rebuilt")], "the function is called from the request")
        ensure(STATE["inputs of"] is request, "the arguments of the request")


def spec_future(self, with_unknowns=None):
    return later(ufn("value of", self, result="str"))


async def check_response():
    """The response carries the URN, the state without identity, and the URNs each property depends on."""
    if not SYMBOLIC:
        return
    setup()
    schema(RES, urn=("obj", OUT))
    STATE["serialized"] = []
    deps = sym("dependencies of the properties", ("dict", "str", ("list", ("obj", RES))))

    async def serialize(inputs, property_deps, input_transformer=None, typ=None, keep_output_values=None):
        STATE["serialized"].append(inputs)
        ensure(input_transformer is None and typ is None and not keep_output_values, "under their own names")
        property_deps.update(deps)
        return "serialized"
    use("pulumi.runtime.rpc.serialize_properties", serialize)
    use("pulumi.output.Output.future", spec_future)
    use("pulumi.output.Output.from_input", lambda v: v)
    servicer = make(SERVICER, provider=UserProvider(), args=[], engine_address="engine", lock=Lock())
    state = sym("state", ("dict", "str", "any"))
    k = sym("some property", "str")
    if choose("request", ["construct", "call"]) == "construct":
        u = make(OUT, tag="urn")
        r = await servicer._construct_response(make("pulumi.provider.provider.ConstructResult", urn=u, state=state))
        ensure(r.fields["urn"] == ufn("value of", u, result="str"), "the URN of the component")
        ensure(r.fields["state"] == "serialized", "the state of the component")
        got = STATE["serialized"][0]
        ensure(iff(k in got, k in state and k != "id" and k != "urn"), "every property but the identity")
        if k in got:
            ensure_same(got[k], state[k], "the property")
        sent = r.fields["stateDependencies"]
    else:
        failures = sym("failures", ("list", ("obj", "pulumi.provider.provider.CheckFailure")))
        r = await servicer._call_response(make("pulumi.provider.provider.CallResult", outputs=state, failures=failures))
        ensure(r.fields["return"] == "serialized", "the result")
        ensure(STATE["serialized"][0] is state, "all of it")
        if len(failures) == 0:
            ensure("failures" not in r.fields or len(r.fields["failures"]) == 0, "no failures")
        else:
            ensure_same(r.fields["failures"], [(f.property, f.reason) for f in failures], "every failure")
        sent = r.fields["returnDependencies"]
    ensure(iff(k in sent, k in deps), "dependencies for every property")
    if k in deps:
        ensure_same(sent[k].urns, [ufn("value of", d.urn, result="str") for d in deps[k]], "the URNs it depends on")


# ------------------------------------------------------------------ stand-ins
async def check_stand_in():
    """A stand-in has the URN it was made for and depends on itself."""
    u = sym("urn", "str", native=URNS)
    r = DependencyResource(u)
    await has_value(r.urn, u, r)


async def has_value(o, want, r):
    ensure_same(await o.future(True), want, "the value")
    ensure((await o.is_known()) is True, "known")
    ensure((await o.is_secret()) is False, "not secret")
    deps = await o.resources()
    ensure(len(deps) == 1 and r in deps, "depends on the resource itself")


class Package:
    def construct_provider(self, name, typ, urn):
        STATE["constructed"].append((name, typ, urn))
        return "constructed"


async def check_provider():
    """A provider reference becomes the registered provider class, or a stand-in with its URN and id."""
    pkg = sym("package", "str", native=["aws", "my-pkg"])
    name = sym("name", "str", native=["p", "a::b", "", "my:p"])
    ident = sym("id", "str", native=["04da6b54-80e4-46f7-96ec-b56ff0331ba9", "id"])
    stack, project = part("stack"), part("project")
    if SYMBOLIC:
        assume_text(":" not in pkg and pkg != "")
        assume_text("$" not in pkg)
        assume_text(":" not in ident)
    urn = "urn:pulumi:" + stack + "::" + project + "::pulumi:providers:" + pkg + "::" + name
    STATE["constructed"], asked = [], []
    registered = choose("registered", [False, True])

    def package(pkg, version):
        asked.append((pkg, version))
        return Package() if registered else None
    if SYMBOLIC:
        use("pulumi.runtime.rpc.get_resource_package", package)
        use_contains_unknowns()
    else:
        setg("pulumi.runtime.rpc.get_resource_package", package)
    r = _create_provider_resource(urn + "::" + ident)
    ensure(len(asked) == 1 and asked[0][1] == "", "any version of the package")
    ensure_same(asked[0][0], pkg, "the package of the provider")
    if registered:
        ensure(r == "constructed" and len(STATE["constructed"]) == 1, "a provider of the registered class")
        n, t, u = STATE["constructed"][0]
        ensure_same(n, name, "its name")
        ensure_same(t, "pulumi:providers:" + pkg, "its type")
        ensure_same(u, urn, "its URN")
        return
    ensure_same(r.package, pkg, "its package")
    await has_value(r.urn, urn, r)
    await has_value(r.id, ident, r)


# ------------------------------------------------------------------ natively
SIG = "4dabf18193072939515e22adb298388d"
SECRET = "1b47061264138c4ac30d75fd1eb44270"
OUTVAL = "d0e6a833031e9bbcd3f4e8bde6ca49a4"
SENTINEL = "04da6b54-80e4-46f7-96ec-b56ff0331ba9"
URN = "urn:pulumi:s::p::t:m:R::"


def secret_of(v):
    return {SIG: SECRET, "value": v}


def plain_values():
    """Wire values and what they denote: value, secret, contains unknowns."""
    return [("text", "text", False, False), (3.0, 3, False, False), (True, True, False, False), ([], [], False, False), ({}, {}, False, False),
            ([1.0, "a"], [1, "a"], False, False), ({"k": "v"}, {"k": "v"}, False, False), ("", "", False, False), (False, False, False, False),
            (secret_of("hidden"), "hidden", True, False), (["a", secret_of("b")], ["a", "b"], True, False),
            ({"k": secret_of({"l": 1.0})}, {"k": {"l": 1}}, True, False), (secret_of(""), "", True, False), (secret_of([]), [], True, False),
            (SENTINEL, UNKNOWN, False, True), (secret_of(SENTINEL), UNKNOWN, True, True), ({"k": [SENTINEL]}, {"k": [UNKNOWN]}, False, True)]


def output_value(r):
    d = {SIG: OUTVAL, "value": r.choice(["v", [1.0], {"a": "b"}])}
    if r.random() < 0.4:
        d["secret"] = True
    if r.random() < 0.6:
        d["dependencies"] = [URN + r.choice("xyz")]
    return d


def named(v):
    """The value with its unknown markers named."""
    if isinstance(v, list):
        return [named(x) for x in v]
    if isinstance(v, dict):
        return {k: named(x) for k, x in v.items()}
    return "unknown marker" if isinstance(v, Unknown) else v


async def urns_of(resources):
    return {await d.urn.future() for d in resources}


async def check_inputs_native():
    """Real requests with random inputs and dependencies, served by a real servicer."""
    if SYMBOLIC:
        return
    import pulumi.runtime.settings as st
    import pulumi.runtime.config as cfg
    from pulumi.runtime.rpc_manager import RPC_MANAGER
    r = rand()
    RPC_MANAGER.clear()
    inputs, deps, want = {}, {}, {}
    call = r.random() < 0.4
    for k in ["a", "b", "c", "__self__" if call else "d"]:
        how = r.random()
        if how < 0.1:
            continue
        ds = r.sample([URN + "x", URN + "y", URN + "z"], r.choice([0, 0, 1, 1, 2]))
        if ds or r.random() < 0.5:
            deps[k] = ds
        if how < 0.3:
            o = output_value(r)
            shape = r.choice(["bare", "list", "dict"])
            inputs[k] = o if shape == "bare" else [1.0, o] if shape == "list" else {"k": {"l": o}}
            want[k] = ("output values", shape, o)
        else:
            w, v, s, u = r.choice(plain_values())
            inputs[k] = w
            want[k] = ("plain", v, s, u, set(ds))
    parent, project, stack = r.choice(["", URN + "parent"]), r.choice(["", "proj"]), r.choice(["", "stack"])
    config, secret_keys = {"p:a": "1", "p:b": "2"}, r.choice([[], ["p:a"]])
    aliases, depends = r.sample([URN + "old1", URN + "old2"], r.randrange(3)), r.sample([URN + "x", URN + "y"], r.randrange(3))
    protect = r.random() < 0.5
    providers = {p: "urn:pulumi:s::p::pulumi:providers:%s::%s::id-%s" % (p, p, p) for p in ["aws", "gcp"] if r.random() < 0.5}
    note("inputs", inputs)
    note("dependencies", deps)
    fail = r.random() < 0.1
    seen = {}
    deps_of_state = {k: {URN + q for q in r.sample("xyz", r.randrange(3))} for k in ["s", "t"] if r.random() < 0.7}

    def state():
        out = {"id": "dropped", "urn": "dropped"} if not call else {}
        for k, us in deps_of_state.items():
            out[k] = Output({DependencyResource(u) for u in us}, later("v" + k), later(True), later(False))
        return out

    def common(given):
        seen["inputs"] = given
        seen["settings"] = (st.SETTINGS.project, st.SETTINGS.stack, st.SETTINGS.dry_run)
        seen["config"] = (dict(cfg.CONFIG.get()), set(cfg._SECRET_KEYS.get()))
        st.SETTINGS.feature_support = {"secrets": True, "resourceReferences": True, "outputValues": True}
        if fail:
            raise Failure("component")

    class Component(Provider):
        def __init__(self):
            super().__init__("1.0")

        def construct(self, name, resource_type, inputs, options=None):
            common(inputs)
            seen["what"] = (name, resource_type)
            seen["options"] = options
            return ConstructResult(Output.from_input(URN + "made"), state())

        def call(self, token, args):
            common(args)
            seen["what"] = token
            return CallResult(state(), failures=[CheckFailure("p", "because")] if r.random() < 0.3 else None)
    servicer = ProviderServicer(Component(), [], "")
    dry = r.random() < 0.5
    base = dict(project=project, stack=stack, config=config, configSecretKeys=secret_keys, dryRun=dry)
    if call:
        request = proto.CallRequest(tok="p:m:f", argDependencies={k: proto.CallRequest.ArgumentDependencies(urns=u) for k, u in deps.items()}, **base)
        request.args.update(inputs)
    else:
        request = proto.ConstructRequest(type="t:m:C", name="made", parent=parent, aliases=aliases, dependencies=depends, protect=protect,
                                         providers=providers, configSecretKeys=secret_keys,
                                         inputDependencies={k: proto.ConstructRequest.PropertyDependencies(urns=u) for k, u in deps.items()},
                                         **{k: v for k, v in base.items() if k != "configSecretKeys"})
        request.inputs.update(inputs)
    try:
        resp = await (servicer.Call(request, None) if call else servicer.Construct(request, None))
        ensure(not fail, "a failing component is reported")
    except Failure:
        ensure(fail and not servicer.lock.locked(), "the lock is given back")
        return
    ensure(not servicer.lock.locked(), "the lock is given back")
    got = seen["inputs"]
    same(set(got), set(want), "exactly the inputs of the request")
    for k, w in want.items():
        v = got[k]
        if w[0] == "output values":
            o = v if w[1] == "bare" else v[1] if w[1] == "list" else v["k"]["l"]
            d = w[2]
            ensure(isinstance(o, Output), f"{k}: output values stay outputs")
            same(await o.future(True), d["value"], f"{k}: the value")
            same(await o.is_secret(), d.get("secret", False), f"{k}: secret")
            same(await urns_of(await o.resources()), set(d.get("dependencies", [])), f"{k}: its own dependencies")
            continue
        _, value, is_secret, unknown, ds = w
        if not is_secret and not ds:
            ensure(not isinstance(v, Output), f"{k}: the input stands for itself")
            same(named(v), named(value), f"{k}: the value")
            continue
        ensure(isinstance(v, Output), f"{k}: an output")
        same(named(await v.future(True)), named(value), f"{k}: the value")
        same(await v.is_secret(), is_secret, f"{k}: secret")
        same(await v.is_known(), not unknown, f"{k}: known")
        same(await urns_of(await v.resources()), ds, f"{k}: the dependencies")
    same(seen["settings"], (project or None, stack or None, dry), "the settings")
    same(seen["config"], (config, set(secret_keys)), "the configuration")
    if call:
        same(seen["what"], "p:m:f", "the function")
        sent, out = resp.returnDependencies, getattr(resp, "return")
    else:
        o = seen["options"]
        same(seen["what"], ("made", "t:m:C"), "the component")
        same(await o.parent.urn.future() if o.parent else "", parent, "the parent")
        same(list(o.aliases), aliases, "the aliases")
        same([await d.urn.future() for d in o.depends_on], depends, "the dependencies")
        same(o.protect, protect, "protection")
        same({p: f"{await q.urn.future()}::{await q.id.future()}" for p, q in o.providers.items()}, providers, "the providers")
        same(resp.urn, URN + "made", "the URN")
        sent, out = resp.stateDependencies, resp.state
    same({k: v for k, v in out.items()}, {k: "v" + k for k in deps_of_state}, "the state")
    same({k: set(v.urns) for k, v in sent.items()}, deps_of_state, "the dependencies of the state")


async def check_component_native():
    """A component constructed by a real servicer: what is registered for it and for its children."""
    if SYMBOLIC:
        return
    import pulumi
    import pulumi.runtime.settings as st
    from pulumi.runtime.proto import resource_pb2
    from pulumi.runtime.rpc_manager import RPC_MANAGER
    r = rand()
    RPC_MANAGER.clear()
    requests = []

    class Engine:
        def SupportsFeature(self, req):
            return resource_pb2.SupportsFeatureResponse(hasSupport=True)

        def RegisterResource(self, req):
            requests.append(req)
            return resource_pb2.RegisterResourceResponse(urn=URN + req.name, id="id")

    providers = {p: "urn:pulumi:s::p::pulumi:providers:%s::%s::id-%s" % (p, p, p) for p in ["aws", "gcp"] if r.random() < 0.6}
    aliases, depends = r.sample([URN + "old1", URN + "old2"], r.randrange(3)), r.sample([URN + "x", URN + "y"], r.randrange(3))
    parent, protect = r.choice(["", URN + "parent"]), r.random() < 0.5
    note("request", (providers, aliases, depends, parent, protect))

    class Component(Provider):
        def __init__(self):
            super().__init__("1.0")

        def construct(self, name, resource_type, inputs, options=None):
            st.SETTINGS.monitor = Engine()
            st.SETTINGS.feature_support = {}
            c = pulumi.ComponentResource(resource_type, name, {}, options)
            pulumi.CustomResource("aws:m:R", "child", {}, pulumi.ResourceOptions(parent=c))
            return ConstructResult(c.urn, {})
    servicer = ProviderServicer(Component(), [], "")
    request = proto.ConstructRequest(type="t:m:C", name="made", parent=parent, aliases=aliases, dependencies=depends, protect=protect,
                                     providers=providers, project="proj", stack="stack", dryRun=r.random() < 0.5)
    resp = await servicer.Construct(request, None)
    same(resp.urn, URN + "made", "the URN")
    same([q.name for q in requests], ["made", "child"], "the component and its child are registered")
    made, child = requests
    same((made.type, made.custom, made.parent, made.protect, set(made.aliases), set(made.dependencies)),
         ("t:m:C", False, parent, protect, set(aliases), set(depends)), "the component as asked for")
    same((child.parent, child.protect, child.provider), (URN + "made", protect, providers.get("aws", "")), "its child, with what it inherits")


def same(got, want, what):
    ensure(got == want, f"{what}: {got!r}, not {want!r}")


HARNESSES = [check_select, check_contains_outputs, check_reference, check_absent, check_inputs, check_options, check_serve, check_response,
             check_stand_in, check_provider]
NATIVE = [check_inputs_native, check_component_native]
BOUNDS = {"check_component_native": "a component with one child; up to 2 providers, aliases and dependencies",
          "check_inputs_native": "up to 4 inputs from a pool of 17 wire values and random output values"}
