"""C27: invokes and method calls carry their arguments to the engine and yield its answer."""
import asyncio
from spec.common import *
from spec.outlib import use_values
from pulumi.runtime.invoke import invoke, call
from pulumi.invoke import InvokeOptions
if not SYMBOLIC:
    import os
    import pulumi
    from pulumi.runtime.proto import provider_pb2, resource_pb2
    from google.protobuf import struct_pb2
    from pv import note

I = "pulumi.runtime.invoke."
PROV = "pulumi.resource.ProviderResource"
UNKNOWN_ID = "04da6b54-80e4-46f7-96ec-b56ff0331ba9"
ASSUMPTIONS = ["protobuf messages keep the fields they are given; an absent optional field and the field's default are the same on the wire",
               "serialize_properties, deserialize_properties, translate_output_properties, is_rpc_secret, unwrap_rpc_secret, contains_unknowns, do_rpc and _sync_await by contract (C03, C04, C06, C07, C01, C22, C23)",
               "the URNs of the resources that arguments depend on are known"]
STATE = {}


class Failure(Exception):
    pass


class EngineError(Exception):
    pass


class Grpc:
    RpcError = EngineError


class ArgumentDependencies:
    """The dependencies of an argument, seen through one arbitrary URN."""
    def __init__(self, urns=None):
        self.has = STATE["urn"] in urns


class Request:
    """A request message: its fields."""
    ArgumentDependencies = ArgumentDependencies

    def __init__(self, **fields):
        self.fields = fields


class Messages:
    ResourceInvokeRequest = Request
    CallRequest = Request


class Failed:
    """A failure the provider reports."""


class Returned:
    """The dependencies of one returned property."""


class Answer:
    """The engine's answer."""


class Manager:
    def do_rpc(self, name, operation):
        async def started():
            try:
                r = await operation()
            except Exception as e:
                STATE["reported"].append(e)
                return None, e
            return r, None
        return started


class Monitor:
    def answer(self, req):
        STATE["requests"].append(req)
        if STATE["engine"] == "grpc error":
            raise EngineError()
        if STATE["engine"] == "other error":
            raise Failure()
        return STATE["answer"]

    def Invoke(self, req):
        return self.answer(req)

    def Call(self, req):
        return self.answer(req)


def spec_future(self, with_unknowns=None):
    return later(self.val)


async def spec_serialize(inputs, property_deps, input_transformer=None, typ=None, keep_output_values=None):
    if STATE["serialization fails"]:
        raise Failure()
    STATE["serialized with"].append((inputs, input_transformer, typ, keep_output_values))
    property_deps.update(STATE["deps"])
    return "serialized"


def spec_deserialize(props_struct, keep_unknowns=None, keep_internal=None):
    STATE["deserialized with"].append((props_struct, keep_unknowns, keep_internal))
    return STATE["deserialized"]


def spec_translate(output, output_transformer, typ=None, transform_using_type_metadata=False, path=None):
    STATE["translated with"].append((output, output_transformer("x"), typ))
    return "translated"


def an_answer():
    """An answer: failures, or a value (possibly none)."""
    a = make("spec.c27.Answer", failures=[])
    if choose("failures reported", [False, True]):
        a.failures = [make("spec.c27.Failed", reason=sym("reason", "str"), property=sym("property", "str"))] + sym("more failures", ("list", ("obj", "spec.c27.Failed")))
    setattr(a, "return", "returned" if choose("something returned", [True, False]) else None)
    return a


def spec_contains_unknowns(value):
    return STATE["unknown"] if value is STATE["deserialized"] else False


def setup():
    STATE["unknown"] = sym("unknowns in the answer", "bool")
    STATE["requests"], STATE["reported"], STATE["serialized with"] = [], [], []
    STATE["deserialized with"], STATE["translated with"], STATE["deps"] = [], [], {}
    STATE["engine"], STATE["serialization fails"] = "answers", False
    STATE["deserialized"] = sym("deserialized", ("dict", "str", "any"))
    use_values()
    use("pulumi.output.Output.future", spec_future)
    setg(I + "grpc", Grpc())
    setg(I + "resource_pb2", Messages())
    setg(I + "provider_pb2", Messages())
    setg(I + "RPC_MANAGER", Manager())
    setg("os.environ", {})
    use("pulumi.runtime.settings.get_monitor", lambda: Monitor())
    use("pulumi.runtime.settings.grpc_error_to_exception", lambda exn: RuntimeError("engine"))
    use("pulumi.runtime.settings.handle_grpc_error", spec_handle)
    use("pulumi.runtime.sync_await._sync_await", spec_sync_await)
    use("pulumi.runtime.rpc.serialize_properties", spec_serialize)
    use("pulumi.runtime.rpc.deserialize_properties", spec_deserialize)
    use("pulumi.runtime.rpc.translate_output_properties", spec_translate)
    use("pulumi.runtime.rpc.is_rpc_secret", lambda value: ufb("wrapped secret", value))
    use("pulumi.runtime.rpc.unwrap_rpc_secret", lambda value: unwrapped(value))
    use("pulumi.runtime.rpc.contains_unknowns", spec_contains_unknowns)
    use("pulumi._types.is_output_type", lambda c: STATE["output type"])
    setg("pulumi.resource.DependencyResource", stand_in)
    schema(RES, urn=("obj", OUT))
    schema(OUT, val="str")
    schema("spec.c27.ArgumentDependencies", has="bool")
    STATE["output type"] = True


def spec_handle(exn):
    raise RuntimeError("engine")


def spec_sync_await(awaitable):
    drain()
    return awaitable.result()


def unwrapped(v):
    return ufn("unwrapped", v) if ufb("wrapped secret", v) else v


def stand_in(urn):
    return ufn("stand in", urn, result=("obj", RES))


def a_provider(name):
    ident = choose(name + " id", ["known", "unknown"])
    i = sym(name + " id", "str") if ident == "known" else None
    return make(PROV, urn=make(OUT, val=sym(name + " urn", "str")), id=make(OUT, val=i))


def reference(p):
    return f"{p.urn.val}::{p.id.val or UNKNOWN_ID}"


def field(name, default=None):
    f = STATE["requests"][0].fields
    v = f[name] if name in f else None
    return default if v is None else v


class Parent:
    """A parent with the providers it was given."""

    def get_provider(self, module_member):
        STATE["asked"].append(module_member)
        return self.inherited


async def check_invoke_request():
    """The request carries the function, the arguments, the provider and the options; the options stay as they are."""
    if not SYMBOLIC:
        return
    setup()
    STATE["asked"] = []
    STATE["answer"] = make("spec.c27.Answer", failures=[])
    setattr(STATE["answer"], "return", None)
    explicit = a_provider("provider") if choose("provider given", [False, True]) else None
    inherited = a_provider("inherited provider") if choose("provider inherited", [False, True]) else None
    parent = make("spec.c27.Parent", inherited=inherited) if choose("parent given", [False, True]) else None
    version, url = sym("version", ("opt", "str")), sym("url", ("opt", "str"))
    given = choose("options given", [True, False])
    opts = make("pulumi.invoke.InvokeOptions", parent=parent, provider=explicit, version=version, plugin_download_url=url) if given else None
    tok, props = sym("token", "str"), sym("arguments", "any")
    invoke(tok, props, opts)
    ensure(len(STATE["requests"]) == 1 and len(STATE["serialized with"]) == 1, "one request")
    w = STATE["serialized with"][0]
    ensure(w[0] is props and w[1] is None and w[2] is None and not w[3], "the arguments given")
    ensure(field("tok", "") == tok and field("args") == "serialized", "function and arguments")
    ensure(field("acceptResources") is True, "capabilities")
    used = None
    if given:
        used = explicit if explicit is not None else parent.get_provider(tok) if parent is not None else None
    ensure_same(field("provider", ""), "" if used is None else reference(used), "the provider given, else the parent's for this function")
    ensure(all(m == tok for m in STATE["asked"]), "the parent is asked for this function's provider")
    if given:
        ensure_same(field("version", ""), version or "", "version")
        ensure_same(field("pluginDownloadURL", ""), url or "", "plugin download URL")
        ensure(opts.provider is explicit and opts.parent is parent and opts.version == version and opts.plugin_download_url == url,
               "the options are not changed")


async def check_invoke_answer():
    """The result is what the engine returned; whatever fails raises."""
    if not SYMBOLIC:
        return
    setup()
    STATE["engine"] = choose("engine", ["answers", "grpc error", "other error"])
    STATE["serialization fails"] = choose("serialization fails", [False, True])
    STATE["answer"] = an_answer()
    typed = choose("result type", [False, True])
    typ = RES if typed else None
    failure, result = None, None
    try:
        result = invoke("token", "props", None, typ)
    except Exception as e:
        failure = e
    if STATE["serialization fails"] or STATE["engine"] != "answers" or len(STATE["answer"].failures) > 0:
        ensure(failure is not None, "a failure is raised")
        if STATE["serialization fails"] or STATE["engine"] == "other error":
            ensure(len(STATE["reported"]) == 1, "and reported, when it is no failure of the function itself")
        else:
            ensure(len(STATE["reported"]) == 0, "a failure of the function itself can be handled by the program")
        return
    ensure(failure is None and len(STATE["reported"]) == 0, "no failure")
    if getattr(STATE["answer"], "return") is None:
        ensure(result.value is None, "nothing returned")
        return
    d = STATE["deserialized with"]
    ensure(len(d) == 1 and d[0][0] == "returned", "what was returned is deserialized")
    if typed:
        t = STATE["translated with"]
        ensure(len(t) == 1 and t[0][0] is STATE["deserialized"] and t[0][1] == "x" and t[0][2] is typ, "and converted to the type, its names kept")
        ensure(result.value == "translated", "the converted value")
    else:
        ensure(result.value is STATE["deserialized"], "the value")


async def check_result_type():
    """A result type has to be an output type."""
    if not SYMBOLIC:
        return
    setup()
    STATE["output type"] = False
    STATE["answer"] = an_answer()
    f = choose("function", [invoke, call])
    failed = False
    try:
        if f is invoke:
            invoke("token", "props", None, RES)
        else:
            call("token", "props", None, RES)
    except TypeError:
        failed = True
    drain()
    ensure(failed and len(STATE["requests"]) == 0, "anything else is rejected before anything is sent")


async def check_call_request():
    """The request carries the method, the arguments with their dependencies, and the resource's provider and version."""
    if not SYMBOLIC:
        return
    setup()
    STATE["answer"] = make("spec.c27.Answer", failures=[])
    setattr(STATE["answer"], "return", None)
    STATE["deps"] = sym("dependencies", ("dict", "str", ("list", ("obj", RES))))
    prov = a_provider("provider") if choose("the resource has a provider", [False, True]) else None
    version, url = sym("version", ("opt", "str")), sym("url", ("opt", "str"))
    STATE["urn"] = sym("some URN", "str")
    res = make(RES, _provider=prov, _version=version, _plugin_download_url=url) if choose("resource given", [False, True]) else None
    tok, props = sym("token", "str"), sym("arguments", "any")
    call(tok, props, res)
    drain()
    ensure(len(STATE["requests"]) == 1 and len(STATE["serialized with"]) == 1, "one request")
    w = STATE["serialized with"][0]
    ensure(w[0] is props and w[1] is None and w[2] is None and w[3] is True, "the arguments given, their output values kept")
    ensure(field("tok", "") == tok and field("args") == "serialized", "method and arguments")
    ensure_same(field("provider", ""), reference(prov) if res is not None and prov is not None else "", "the provider of the resource")
    ensure_same(field("version", ""), "" if res is None else version or "", "the version of the resource")
    ensure_same(field("pluginDownloadURL", ""), "" if res is None else url or "", "the plugin download URL of the resource")
    k = sym("some argument", "str")
    ad = field("argDependencies", {})
    ensure(iff(k in ad, k in STATE["deps"]), "dependencies of exactly the arguments")
    if k in ad:
        if ad[k].has:
            ensure(any(r.urn.val == STATE["urn"] for r in STATE["deps"][k]), "only dependencies of the argument")
        else:
            ensure(all(r.urn.val != STATE["urn"] for r in STATE["deps"][k]), "all dependencies of the argument")


def secret_somewhere(d):
    return any(ufb("wrapped secret", v) for v in d.values())


async def check_call_answer():
    """The output of a call settles exactly once: value, knownness, secretness and dependencies of the answer."""
    if not SYMBOLIC:
        return
    setup()
    a = STATE["answer"] = make("spec.c27.Answer", failures=[])
    returned = choose("something returned", [True, False])
    setattr(a, "return", "returned" if returned else None)
    schema("spec.c27.Returned", urns=("list", "str"))
    a.returnDependencies = sym("dependencies", ("dict", "str", ("obj", "spec.c27.Returned")))
    d = STATE["deserialized"]
    before, unknown = dict(d), STATE["unknown"]
    typed = choose("result type", [False, True])
    out = call("token", "props", None, RES if typed else None)
    ensure(isinstance(out, Output), "an output")
    drain()
    ensure(len(STATE["reported"]) == 0, "no failure")
    v, kn, se, de = out._future.result(), out._is_known.result(), out._is_secret.result(), out._resources.result()
    if not returned:
        ensure(v is None and kn is True and se is False and len(de) == 0, "nothing returned")
        return
    w = STATE["deserialized with"]
    ensure(len(w) == 1 and w[0][0] == "returned", "what was returned is deserialized")
    ensure(iff(kn, not_(unknown)), "known exactly if the answer contains no unknowns")
    ensure(iff(se, secret_somewhere(before)), "secret exactly if some returned property is")
    rd = a.returnDependencies
    ensure_same(de, {stand_in(u) for y in rd.values() for u in y.urns}, "the dependencies of the returned properties")
    if not kn:
        ensure(v is None, "an unknown output has no value")
        return
    if typed:
        t = STATE["translated with"]
        ensure(len(t) == 1 and t[0][0] is d and t[0][1] == "x" and t[0][2] is RES and v == "translated", "converted to the type, its names kept")
    else:
        ensure(v is d, "the value")
    k = sym("some property", "str")
    ensure(iff(k in d, k in before), "exactly the properties returned")
    if k in before:
        ensure_same(d[k], unwrapped(before[k]), "the value of the property, without its secret marker")


async def check_call_failure():
    """A failed call settles its output with the failure, once, and reports it."""
    if not SYMBOLIC:
        return
    setup()
    where = choose("failure", ["serialization", "engine", "engine otherwise", "reported"])
    STATE["serialization fails"] = where == "serialization"
    STATE["engine"] = "grpc error" if where == "engine" else "other error" if where == "engine otherwise" else "answers"
    STATE["answer"] = make("spec.c27.Answer", failures=[make("spec.c27.Failed", reason=sym("reason", "str"), property=sym("property", "str"))] if where == "reported" else [])
    out = call("token", "props", None, None)
    drain()
    ensure(len(STATE["reported"]) == 1, "the failure is reported")
    e = STATE["reported"][0]
    for f in [out._future, out._is_known, out._is_secret]:
        ensure(settled(f) == "exc" and f.exception() is e, "the output fails with it")
    ensure(settled(out._resources) == "ok" and len(out._resources.result()) == 0, "without dependencies")


if not SYMBOLIC:
    class Engine:
        """A monitor that keeps the requests and gives the answers it was told to give."""

        def __init__(self):
            self.requests, self.answer = [], None

        def SupportsFeature(self, req):
            return resource_pb2.SupportsFeatureResponse(hasSupport=True)

        def Invoke(self, req):
            return self.reply(req)

        def Call(self, req):
            return self.reply(req)

        def reply(self, req):
            self.requests.append(req)
            if isinstance(self.answer, Exception):
                raise self.answer
            return self.answer

    class RpcFailure(__import__("grpc").RpcError):
        def code(self):
            return __import__("grpc").StatusCode.INTERNAL

        def details(self):
            return "broken"

    class Bare(pulumi.Resource):
        def __init__(self):
            pass

    class BareComponent(pulumi.ComponentResource):
        def __init__(self):
            pass

    class BareProvider(pulumi.ProviderResource):
        def __init__(self):
            pass

    class NoType:
        pass

    @pulumi.output_type
    class Result(dict):
        def __init__(self, the_a=None, the_b=None):
            if the_a is not None:
                pulumi.set(self, "the_a", the_a)
            if the_b is not None:
                pulumi.set(self, "the_b", the_b)

        @property
        @pulumi.getter(name="theA")
        def the_a(self):
            return pulumi.get(self, "the_a")

        @property
        @pulumi.getter(name="theB")
        def the_b(self):
            return pulumi.get(self, "the_b")

SIG = "4dabf18193072939515e22adb298388d"
U = "urn:pulumi:stack::proj::t:m:R::"


def bare(cls, urn, ident="id", **attrs):
    r = object.__new__(cls)
    r.__dict__.update(_name=urn, _aliases=[], _providers={}, _provider=None, _version=None, _plugin_download_url=None,
                      _childResources=set(), _remote=False, urn=pulumi.Output.from_input(urn), id=pulumi.Output.from_input(ident))
    r.__dict__.update(attrs)
    return r


def same(got, want, what):
    ensure(got == want, f"{what}: {got!r}, not {want!r}")


def wire(v):
    return {k: struct(x) for k, x in v.fields.items()}


def struct(v):
    k = v.WhichOneof("kind")
    if k == "struct_value":
        return {n: struct(x) for n, x in v.struct_value.fields.items()}
    return [struct(x) for x in v.list_value.values] if k == "list_value" else None if k == "null_value" else getattr(v, k)


def the_ref(p):
    return "" if p is None else f"{p.__dict__['_name']}::" + (UNKNOWN_ID if p.package == "pkg0" else "pid" + p.package[3:])


def plain_of(v, ds):
    """The value of an argument; an output is sent as one."""
    if isinstance(v, dict) and SIG in v:
        ensure(v[SIG] == "d0e6a833031e9bbcd3f4e8bde6ca49a4" and "secret" not in v, f"an output value: {v!r}")
        ensure(set(v.get("dependencies", [])) == {U + d for d in ds} or set(v.get("dependencies", [])) == set(ds), f"its dependencies: {v!r} {ds!r}")
        return v["value"]
    ensure(len(ds) == 0, "outputs are sent as outputs")
    return v


async def check_bad_type_native():
    """A result type that is no output type is rejected before anything is sent."""
    if SYMBOLIC:
        return
    import pulumi.runtime.settings as st
    from pulumi.runtime.rpc_manager import RPC_MANAGER
    r = rand()
    engine = Engine()
    st.configure(st.Settings("proj", "stack", monitor=engine, dry_run=r.random() < 0.5))
    st.SETTINGS.feature_support = {}
    RPC_MANAGER.clear()
    s = struct_pb2.Struct()
    engine.answer = (provider_pb2.CallResponse if r.random() < 0.5 else provider_pb2.InvokeResponse)(**{"return": s})
    typ = r.choice([int, str, NoType, dict, Result])
    failed = False
    try:
        if isinstance(engine.answer, provider_pb2.CallResponse):
            call("pkg:m:R/f", {}, None, typ)
            await asyncio.sleep(0.01)
        else:
            invoke("pkg:m:f", {}, None, typ)
    except TypeError:
        failed = True
    ensure(failed == (typ is not Result), "rejected with a TypeError")
    ensure(len(engine.requests) == (0 if failed else 1), "before anything is sent")


async def check_native():
    """Real invokes and calls with random arguments, options and answers."""
    if SYMBOLIC:
        return
    import pulumi.runtime.settings as st
    from pulumi.runtime.rpc_manager import RPC_MANAGER
    r = rand()
    engine = Engine()
    dry = r.random() < 0.5
    st.configure(st.Settings("proj", "stack", monitor=engine, dry_run=dry))
    st.SETTINGS.feature_support = {}
    RPC_MANAGER.clear()
    no_references = r.choice([None, None, "1", "TRUE", "true", "0", "no"])
    os.environ.pop("PULUMI_DISABLE_RESOURCE_REFERENCES", None)
    if no_references is not None:
        os.environ["PULUMI_DISABLE_RESOURCE_REFERENCES"] = no_references

    def maybe(v):
        return v if r.random() < 0.6 else None
    provs = [bare(BareProvider, U + "prov%d" % i, "pid%d" % i if i else None, package="pkg%d" % i,
                  **({"_version": "9.9.9", "_plugin_download_url": "https://provider"} if r.random() < 0.5 else {})) for i in range(3)]
    resources = [bare(Bare, U + "c%d" % i) for i in range(3)]
    is_call = r.random() < 0.5
    props, want, deps = {}, {}, {}
    for k in ["a", "b", "cC"]:
        how = r.random()
        v = r.choice([1.0, "text", True, [1.0, "x"], {"n": 2.0}])
        if how < 0.4:
            props[k], want[k] = v, v
            deps[k] = set()
        elif how < 0.8:
            ds = [d for d in resources if r.random() < 0.4]
            fs = [asyncio.Future() for _ in range(3)]
            for f, x in zip(fs, [v, True, False]):
                f.set_result(x)
            props[k], want[k] = pulumi.Output(set(ds), *fs), v
            deps[k] = {d.__dict__["_name"] for d in ds}
    typ = maybe(Result)
    secret_sig = {"4dabf18193072939515e22adb298388d": "1b47061264138c4ac30d75fd1eb44270"}
    returned, expected, unknown, secret = {}, {}, False, False
    for k in ["theA", "theB"]:
        how = r.random()
        v = r.choice([1.0, "text", True, [1.0, "x"], {"n": 2.0}])
        if how < 0.4:
            returned[k], expected[k] = v, v
        elif how < 0.6 and is_call:
            returned[k], expected[k], secret = dict(secret_sig, value=v), v, True
        elif how < 0.8 and is_call:
            returned[k], unknown = UNKNOWN_ID, True
    s = struct_pb2.Struct()
    s.update(returned)
    problem = r.choice([None, None, None, "failures", "grpc"])
    failures = [provider_pb2.CheckFailure(property="p%d" % i, reason="r%d" % i) for i in range(1 + r.randrange(2))] if problem == "failures" else []
    M = provider_pb2.CallResponse if is_call else provider_pb2.InvokeResponse
    engine.answer = M(failures=failures, **{"return": s}) if problem != "grpc" else RpcFailure()
    dependencies = {}
    if is_call and problem is None:
        for k in list(returned) + ["other"]:
            us = [U + n for n in ["x", "y", "z"] if r.random() < 0.4]
            dependencies[k] = us
            engine.answer.returnDependencies[k].urns.extend(us)
    note("case", (is_call, dry, props, returned, problem, typ, dependencies))

    def value_same(got, what):
        if typ is not None and (expected or returned):
            ensure(isinstance(got, Result), f"{what}: typed, not {got!r}")
            same({"theA": got.the_a, "theB": got.the_b}, {"theA": expected.get("theA"), "theB": expected.get("theB")}, what)
        else:
            same(dict(got) if got is not None else {}, expected, what)

    if not is_call:
        given, inherited = maybe(r.choice(provs)), r.choice(provs)
        parent = maybe(bare(BareComponent, U + "parent", _providers={inherited.package: inherited}))
        pkg = r.choice(["pkg0", "pkg1", "pkg2"])
        version, url = maybe("1.2.3"), maybe("https://example.com")
        opts = InvokeOptions(parent=parent, provider=given, version=version, plugin_download_url=url)
        failure = result = None
        try:
            result = invoke(pkg + ":m:f", props, maybe(opts) if not (parent or given or version or url) else opts, typ)
        except Exception as e:
            failure = e
        ensure(len(engine.requests) == 1, f"one request: {failure!r}")
        q = engine.requests[0]
        same(q.tok, pkg + ":m:f", "function")
        same(wire(q.args), want, "arguments")
        same(q.acceptResources, no_references not in ("1", "TRUE", "true"), "resource references are accepted unless disabled")
        used = given if given is not None else inherited if parent is not None and inherited.package == pkg else None
        same(q.provider, the_ref(used), "provider")
        same((q.version, q.pluginDownloadURL), (version or "", url or ""), "version and plugin download URL")
        ensure(opts.provider is given and opts.parent is parent and (opts.version, opts.plugin_download_url) == (version, url), "the options are not changed")
        ensure((failure is not None) == (problem is not None), f"a failure: {failure!r} ({problem})")
        ensure(RPC_MANAGER.unhandled_exception is None, "a failed function can be handled by the program")
        if failure is None:
            value_same(result.value, "the result")
            ensure(await result is result.value, "the result can be awaited, too")
        elif problem == "failures":
            ensure("r0" in str(failure) and "p0" in str(failure), "the failure says why")
        return
    prov, version, url = maybe(r.choice(provs)), maybe("1.2.3"), maybe("https://example.com")
    res = maybe(bare(Bare, U + "self", _provider=prov, _version=version, _plugin_download_url=url))
    if res is None:
        prov = version = url = None
    out = call("pkg:m:R/f", props, res, typ)
    for _ in range(200):
        if out._resources.done() and out._future.done():
            break
        await asyncio.sleep(0.001)
    ensure(len(engine.requests) == 1, "one request")
    q = engine.requests[0]
    same(q.tok, "pkg:m:R/f", "method")
    same({k: plain_of(struct(v), deps[k]) for k, v in q.args.fields.items()}, want, "arguments")
    same({k: set(v.urns) for k, v in q.argDependencies.items()}, deps, "dependencies of the arguments")
    same((q.provider, q.version, q.pluginDownloadURL), (the_ref(prov), version or "", url or ""), "provider, version and plugin download URL")
    if problem is not None:
        for f in [out._future, out._is_known, out._is_secret]:
            await asyncio.wait([f], timeout=1)
            ensure(f.done() and f.exception() is not None, "the output fails")
        same(await out._resources, set(), "no dependencies")
        for t in list(RPC_MANAGER.rpcs):
            try:
                await t
            except Exception:
                pass
        ensure(RPC_MANAGER.unhandled_exception is not None, "the failure is reported")
        return
    ensure(isinstance(await out.resources(), set), "the dependencies are a set")
    if returned:
        same({d.__dict__.get("_name") or await d.urn.future() for d in await out.resources()},
             {u for us in dependencies.values() for u in us}, "dependencies")
        same((await out.is_known(), await out.is_secret()), (not (dry and unknown), secret), "known, secret")
        if not (dry and unknown):
            value_same(await out.future(), "the value")
    else:
        same((await out.is_known(), await out.is_secret()), (True, False), "known, secret")


HARNESSES = [check_invoke_request, check_invoke_answer, check_result_type, check_call_request, check_call_answer, check_call_failure]
NATIVE = [check_native, check_bad_type_native]
BOUNDS = {"check_bad_type_native": "five types, one request each", "check_native": "up to 3 arguments, 2 returned properties, 3 providers, random options and failures"}
