"""C25: requests carry everything a resource was given."""
from spec.common import *
from spec.preplib import prepared, PREP, GHOST, expansion, alias_value, value_of, UNKNOWN_ID
from spec.reglib import setup, run, STATE, Monitor, Response, new_dependency, Request
from pulumi.resource import ResourceOptions, CustomTimeouts
from pulumi.runtime.resource import (register_resource, read_resource, register_resource_outputs, _translate_ignore_changes,
                                     _translate_additional_secret_outputs, _translate_replace_on_changes)
if not SYMBOLIC:
    import asyncio
    import os
    import pulumi
    from pulumi.runtime.proto import resource_pb2
    from pv import note

R = "pulumi.runtime.resource."
ASSUMPTIONS = ["protobuf messages keep the fields they are given; an absent optional field and the field's default are the same on the wire",
               "callees of prepare_resource, register_resource and read_resource by contract (C03, C04, C08, C11, C12, C17, C21)"]


async def check_inputs():
    """The inputs are serialized with the right names, and the dependencies are what they stand for."""
    if not SYMBOLIC:
        return
    r, res, ty, custom, remote, opts, typed, aliases = await prepared("inputs")
    ensure(len(PREP["serialized with"]) == 1, "the inputs are serialized once")
    props, translate, typ, keep = PREP["serialized with"][0]
    ensure(props == "props", "the inputs given")
    ensure((keep if keep is not None else False) == remote, "output values are kept exactly for remote components")
    if typed:
        ensure(translate is None and typ is not None, "names by the type's metadata")
    else:
        ensure(typ is None and translate("x") == res.translate_input_property("x"), "names by the resource's translation")
    ensure(r.serialized_props == "serialized", "the serialized inputs")
    explicit = PREP["explicit"] if opts is not None and opts.depends_on is not None else set()
    if opts is not None and opts.depends_on is not None:
        o, f = PREP["explicit asked"][0]
        ensure(o is opts and f is res, "the explicit dependencies of this resource")
    ensure_same(r.dependencies, explicit | {u for ds in PREP["deps"].values() for u in expansion(ds)},
                "the explicit dependencies and those of every property")
    k = sym("some property", "str")
    ensure(iff(k in r.property_dependencies, k in PREP["deps"]), "dependencies for exactly the properties that were serialized")
    if k in PREP["deps"]:
        ensure_same(set(r.property_dependencies[k]), expansion(PREP["deps"][k]), "the dependencies of the property")


async def check_parent():
    """The parent is the given one, else the root resource (except for the stack itself), else none."""
    if not SYMBOLIC:
        return
    r, res, ty, custom, remote, opts, typed, aliases = await prepared("parent")
    if opts is not None and opts.parent is not None:
        ensure_same(r.parent_urn, value_of(opts.parent.urn), "the given parent")
    elif ty != "pulumi:pulumi:Stack" and PREP["root"] is not None:
        ensure_same(r.parent_urn, value_of(PREP["root"].urn), "the root resource")
    else:
        ensure(not r.parent_urn, "no parent")


async def check_aliases():
    """Every alias of the resource is in the request, and nothing else."""
    if not SYMBOLIC:
        return
    r, res, ty, custom, remote, opts, typed, aliases = await prepared("aliases")
    x = GHOST["x"]
    ensure(iff(x in r.aliases, any(alias_value(a) == x for a in aliases)), "exactly the aliases of the resource")


class Names:
    """A resource with its own names."""

    def translate_input_property(self, prop):
        return ufn("translated", prop, result="str")


async def check_translated_lists():
    """Property lists among the options are translated like the inputs, entry by entry."""
    if not SYMBOLIC:
        return
    metadata = sym("names", ("dict", "str", "str"))
    asked = []

    def names(t):
        asked.append(t)
        return metadata
    use("pulumi._types.input_type_py_to_pulumi_names", names)
    use("pulumi._types.resource_py_to_pulumi_names", names)
    typed = choose("type metadata", [False, True])
    given = sym("list", ("list", "str")) if choose("given", [False, True]) else None
    res = make("spec.c25.Names")
    f = choose("option", ["ignore changes", "replace on changes", "secret outputs"])
    typ = RES if typed else None
    if f == "ignore changes":
        r = _translate_ignore_changes(res, typ, given)
    elif f == "replace on changes":
        r = _translate_replace_on_changes(res, typ, given)
    else:
        r = _translate_additional_secret_outputs(res, typ, given)
    if given is None:
        ensure(r is None or len(r) == 0, "nothing given, nothing sent")
    elif typed:
        ensure_same(r, [(metadata[k] if k in metadata and metadata[k] != "" else k) for k in given], "each under its wire name")
        ensure(len(asked) == 1 and (asked[0] is typ if f != "secret outputs" else asked[0] is not typ), "names of the inputs, or of the resource")
    else:
        ensure_same(r, [ufn("translated", k, result="str") for k in given], "each under its wire name")


def field(name, default=None):
    f = STATE["requests"][0].fields
    v = f[name] if name in f else None
    return default if v is None else v


def an_option(name, spec):
    return sym(name, ("opt", spec))


def wire(v, default):
    return default if v is None else v


def translations():
    use(R + "_translate_ignore_changes", lambda res, typ, v: ufn("translated ignore changes", v))
    use(R + "_translate_additional_secret_outputs", lambda res, typ, v: ufn("translated secret outputs", v))
    use(R + "_translate_replace_on_changes", lambda res, typ, v: ufn("translated replace on changes", v))


async def registered(**options):
    """Register a resource with these options; the request is in STATE."""
    STATE["environ"] = {}
    setup("nowhere")
    translations()
    custom, remote = sym("custom", "bool"), sym("remote", "bool")
    assume(not (custom and remote))
    STATE["monitor"] = Monitor()
    STATE["response"] = make("spec.reglib.Response", urn="urn", id="id", object="object", propertyDependencies=None)
    res = make(CUSTOM, _name="name")
    opts = ResourceOptions(**options)
    ty, name = sym("type", "str"), sym("name", "str")
    register_resource(res, ty, name, custom, remote, new_dependency, "props", opts, None)
    failure = await run()
    ensure(failure is None and len(STATE["requests"]) == 1, "one request")
    prepared_with = STATE["prepared with"][0]
    ensure(prepared_with[0] is res and prepared_with[1] == ty and prepared_with[2] == custom and prepared_with[3] == remote
           and prepared_with[4] == "props" and prepared_with[5] is opts, "prepared from what was given")
    ensure(field("type", "") == ty and field("name", "") == name, "type and name")
    ensure(field("custom", False) == custom and field("remote", False) == remote, "kind of resource")
    return STATE["prepared"], opts


async def check_register_request():
    """The registration request carries everything that was prepared."""
    if not SYMBOLIC:
        return
    p, opts = await registered()
    ensure_same(field("parent", ""), wire(p.parent_urn, ""), "parent")
    ensure(field("object") == "serialized", "inputs")
    ensure_same(field("provider", ""), wire(p.provider_ref, ""), "provider")
    ensure_same(field("providers"), p.provider_refs, "providers")
    ensure_same(set(field("dependencies")), p.dependencies, "dependencies")
    ensure_same(field("aliases"), p.aliases, "aliases")
    ensure(field("customTimeouts") is None, "no timeouts")
    ensure(field("acceptSecrets") is True and field("acceptResources") is True and field("supportsPartialValues") is True, "capabilities")
    k = sym("some property", "str")
    pd = field("propertyDependencies")
    ensure(iff(k in pd, k in p.property_dependencies), "dependencies of exactly the properties")
    if k in pd:
        ensure_same(pd[k].urns, p.property_dependencies[k], "dependencies of the property")


async def check_register_flags():
    """The registration request carries every flag as given, or the protocol's default."""
    if not SYMBOLIC:
        return
    p, opts = await registered(protect=an_option("protect", "bool"), delete_before_replace=an_option("dbr", "bool"),
                               retain_on_delete=an_option("retain", "bool"))
    ensure(field("protect", False) == wire(opts.protect, False), "protect")
    ensure(field("deleteBeforeReplace", False) == wire(opts.delete_before_replace, False), "delete before replace")
    ensure(field("deleteBeforeReplaceDefined", False) == (opts.delete_before_replace is not None), "delete before replace was given")
    ensure(field("retainOnDelete", False) == wire(opts.retain_on_delete, False), "retain on delete")


async def check_register_strings():
    """The registration request carries version, plugin URL and import id as given, or the protocol's default."""
    if not SYMBOLIC:
        return
    p, opts = await registered(version=an_option("version", "str"), plugin_download_url=an_option("url", "str"),
                               import_=an_option("import", "str"))
    ensure(field("version", "") == wire(opts.version, ""), "version")
    ensure(field("pluginDownloadURL", "") == wire(opts.plugin_download_url, ""), "plugin download URL")
    ensure(field("importId", "") == wire(opts.import_, ""), "import id")


async def check_register_lists():
    """The registration request carries the property lists as given, or the protocol's default."""
    if not SYMBOLIC:
        return
    p, opts = await registered(ignore_changes=sym("ic", "any"), additional_secret_outputs=sym("aso", "any"), replace_on_changes=sym("roc", "any"))
    ensure_same(field("ignoreChanges", []), wire(ufn("translated ignore changes", opts.ignore_changes), []), "ignore changes")
    ensure_same(field("replaceOnChanges", []), wire(ufn("translated replace on changes", opts.replace_on_changes), []), "replace on changes")
    ensure_same(field("additionalSecretOutputs", []), wire(ufn("translated secret outputs", opts.additional_secret_outputs), []), "secret outputs")


async def check_timeouts():
    """Custom timeouts are sent as given, whether as an object or as a dictionary."""
    if not SYMBOLIC:
        return
    STATE["environ"] = {}
    setup("nowhere")
    translations()
    STATE["monitor"] = Monitor()
    STATE["response"] = make("spec.reglib.Response", urn="urn", id="id", object="object", propertyDependencies=None)
    res = make(CUSTOM, _name="name")
    names = ["create", "update", "delete"]
    form = choose("form", ["object", "dictionary", "other"])
    if form == "object":
        want = {n: an_option(n, "str") for n in names}
        t = make("pulumi.resource.CustomTimeouts", create=want["create"], update=want["update"], delete=want["delete"])
    elif form == "dictionary":
        want = {n: (sym(n, "str") if choose(n + " given", [False, True]) else None) for n in names}
        t = {n: want[n] for n in names if want[n] is not None}
    else:
        t = 5
    opts = ResourceOptions(custom_timeouts=t)
    register_resource(res, "type", "name", True, False, new_dependency, "props", opts, None)
    failure = await run()
    if form == "other":
        ensure(failure is not None and len(STATE["requests"]) == 0, "anything else is rejected")
        return
    ensure(failure is None and len(STATE["requests"]) == 1, "one request")
    got = field("customTimeouts")
    for n in names:
        ensure(wire(getattr(got, n), "") == wire(want[n], ""), "the timeout for " + n)


async def check_read_request():
    """The read request carries the id and every option that applies to reads."""
    if not SYMBOLIC:
        return
    STATE["environ"] = {}
    setup("nowhere")
    translations()
    asked = []
    ident = sym("serialized id", "str")

    async def serialize(value, deps, input_transformer=None, typ=None, keep_output_values=None):
        asked.append(value)
        return ident
    use("pulumi.runtime.rpc.serialize_property", serialize)
    STATE["monitor"] = Monitor()
    STATE["response"] = make("spec.reglib.Response", urn="urn", properties="object")
    res = make(CUSTOM, _name="name")
    the_id = sym("id", "any")
    assume(the_id is not None)
    opts = make("pulumi.resource.ResourceOptions", id=the_id, version=an_option("version", "str"),
                plugin_download_url=an_option("url", "str"), additional_secret_outputs=sym("aso", "any"))
    ty, name = sym("type", "str"), sym("name", "str")
    read_resource(res, ty, name, "props", opts, None)
    failure = await run()
    ensure(failure is None and len(STATE["requests"]) == 1, "one request")
    p = STATE["prepared"]
    w = STATE["prepared with"][0]
    ensure(w[0] is res and w[1] == ty and w[2] is True and w[3] is False and w[4] == "props" and w[5] is opts, "prepared from what was given")
    ensure(field("type", "") == ty and field("name", "") == name, "type and name")
    ensure(len(asked) == 1 and asked[0] is the_id and field("id") == ident, "the id given")
    ensure_same(field("parent", ""), wire(p.parent_urn, ""), "parent")
    ensure_same(field("provider", ""), wire(p.provider_ref, ""), "provider")
    ensure(field("properties") == "serialized", "inputs")
    ensure_same(set(field("dependencies")), p.dependencies, "dependencies")
    ensure(field("version", "") == wire(opts.version, ""), "version")
    ensure(field("pluginDownloadURL", "") == wire(opts.plugin_download_url, ""), "plugin download URL")
    ensure_same(field("additionalSecretOutputs", []), wire(ufn("translated secret outputs", opts.additional_secret_outputs), []), "secret outputs")
    ensure(field("acceptSecrets") is True and field("acceptResources") is True, "capabilities")


async def check_outputs_request():
    """The outputs of a component are serialized and reported under its URN."""
    if not SYMBOLIC:
        return
    STATE["environ"] = {}
    setup("nowhere")
    asked = []

    async def serialize(inputs, property_deps, input_transformer=None, typ=None, keep_output_values=None):
        asked.append((inputs, input_transformer, typ, keep_output_values))
        return "serialized"
    use("pulumi.runtime.rpc.serialize_properties", serialize)
    STATE["monitor"] = Monitor() if choose("engine", [True, False]) else None
    STATE["response"] = None
    u = sym("urn", "str")
    res = make(CUSTOM, _name="name", urn=make(OUT, tag="urn", val=u))
    register_resource_outputs(res, "outputs")
    failure = await run()
    ensure(failure is None, "no failure")
    ensure(len(asked) == 1 and asked[0] == ("outputs", None, None, None), "the outputs, under their own names")
    if STATE["monitor"] is None:
        ensure(len(STATE["requests"]) == 0, "without engine nothing is sent")
        return
    ensure(len(STATE["requests"]) == 1, "one request")
    ensure(field("urn") == u and field("outputs") == "serialized", "the outputs, under the URN of the component")


if not SYMBOLIC:
    class Bare(pulumi.Resource):
        """A resource that is not registered by its constructor."""

        def __init__(self):
            pass

        def translate_input_property(self, prop):
            return "wire_" + prop

    class BareComponent(pulumi.ComponentResource):
        def __init__(self):
            pass

    class BareProvider(pulumi.ProviderResource):
        def __init__(self):
            pass

    class Engine:
        def __init__(self):
            self.requests = []

        def SupportsFeature(self, req):
            return resource_pb2.SupportsFeatureResponse(hasSupport=True)

        def RegisterResource(self, req):
            self.requests.append(req)
            return resource_pb2.RegisterResourceResponse(urn="urn:pulumi:s::p::t:m:R::r", id="id")

        def ReadResource(self, req):
            self.requests.append(req)
            return resource_pb2.ReadResourceResponse(urn="urn:pulumi:s::p::t:m:R::r")

        def RegisterResourceOutputs(self, req):
            self.requests.append(req)


def bare(cls, urn, ident="id", **attrs):
    r = object.__new__(cls)
    r.__dict__.update(_name=urn, _aliases=[], _providers={}, _childResources=set(), _remote=False,
                      urn=pulumi.Output.from_input(urn), id=pulumi.Output.from_input(ident))
    r.__dict__.update(attrs)
    return r


async def settle():
    for _ in range(40):
        await asyncio.sleep(0)


def the_names(names, kind):
    return names if names is None else ["wire_" + n for n in names]


async def check_request_native():
    """Real resources with random options, dependencies and parents: the request the engine gets."""
    if SYMBOLIC:
        return
    import pulumi.runtime.settings as st
    from pulumi.runtime.rpc_manager import RPC_MANAGER
    r = rand()
    engine = Engine()
    st.configure(st.Settings("proj", "stack", monitor=engine, dry_run=r.random() < 0.5))
    st.SETTINGS.feature_support = {}
    RPC_MANAGER.clear()
    read = r.random() < 0.3
    U = "urn:pulumi:stack::proj::t:m:R::"
    customs = [bare(Bare, U + "c%d" % i) for i in range(4)]
    inner = bare(BareComponent, U + "inner", _childResources={customs[3]})
    local = bare(BareComponent, U + "local", _childResources={customs[2], inner})
    remote_dep = bare(BareComponent, U + "remote", _remote=True, _childResources={customs[1]})
    empty = bare(BareComponent, U + "empty")
    deps = customs + [inner, local, remote_dep, empty]
    provs = [bare(BareProvider, U + "prov%d" % i, "pid%d" % i if i else None, package="pkg%d" % i) for i in range(3)]

    def urns(d):
        if d is inner:
            return {U + "c3"}
        if d is local:
            return {U + "c2", U + "c3"}
        return set() if d is empty else {d.__dict__["_name"]}

    def some(xs, n=3):
        return [r.choice(xs) for _ in range(r.randrange(n + 1))]

    def maybe(v):
        return v if r.random() < 0.6 else None
    explicit = some(deps)
    given = explicit
    if len(explicit) == 1 and r.random() < 0.5:
        given = explicit[0]
    elif r.random() < 0.3:
        given = pulumi.Output.from_input([pulumi.Output.from_input(d) for d in explicit]) if r.random() < 0.5 else [pulumi.Output.from_input(d) for d in explicit]
    if r.random() < 0.2:
        given, explicit = None, []
    ins = {}
    implicit = {}
    for k in ["a", "b", "c"]:
        how = r.random()
        if how < 0.3:
            ins[k] = r.choice([1, "text", True, [1, 2]])
            implicit["wire_" + k] = set()
        elif how < 0.8:
            ds = some(customs + [local, remote_dep], 2)

            def outp(v):
                f, kn, se = asyncio.Future(), asyncio.Future(), asyncio.Future()
                f.set_result(v)
                kn.set_result(True)
                se.set_result(False)
                return pulumi.Output(set(ds), f, kn, se)
            ins[k] = outp("x")
            implicit["wire_" + k] = set().union(*[urns(d) for d in ds]) if ds else set()
    aliases = [U + "old%d" % r.randrange(3) for _ in range(r.randrange(4))]
    parent = r.choice([None, inner, customs[0]])
    root = maybe(bare(BareComponent, U + "root"))
    custom = r.random() < 0.7 or read
    is_remote = not custom and r.random() < 0.6
    provider = maybe(r.choice(provs))
    providers = r.choice([None, some(provs), {p.package: p for p in some(provs)}])
    tm = {n: r.choice(["1m", "2h"]) for n in ["create", "update", "delete"] if r.random() < 0.5}
    o = dict(protect=maybe(r.random() < 0.5), delete_before_replace=maybe(r.random() < 0.5), ignore_changes=maybe(some(["a", "b"])),
             version=maybe("1.2.3"), plugin_download_url=maybe("https://example.com"), additional_secret_outputs=maybe(some(["a", "c"])),
             import_=maybe("imported") if not read else None, custom_timeouts=r.choice([None, tm, pulumi.CustomTimeouts(**tm)]),
             replace_on_changes=maybe(some(["b", "c"])), retain_on_delete=maybe(r.random() < 0.5))
    opts = pulumi.ResourceOptions(parent=parent, depends_on=given, provider=provider, providers=providers, id="the-id" if read else None, **o)
    note("options", {k: v for k, v in o.items() if v is not None})
    note("other", (custom, is_remote, read, provider and provider.package, providers, given, ins))
    from pulumi.runtime import settings
    real = settings.get_root_resource
    settings.get_root_resource = lambda: root
    try:
        res = bare(Bare, "self", _aliases=list(aliases))
        if read:
            read_resource(res, "t:m:R", "name", ins, opts)
        else:
            register_resource(res, "t:m:R", "name", custom, is_remote, None, ins, opts)
        for _ in range(20):
            await settle()
            if engine.requests:
                break
            await asyncio.sleep(0.005)
        for t in list(RPC_MANAGER.rpcs):
            await t
    finally:
        settings.get_root_resource = real
    ensure(RPC_MANAGER.unhandled_exception is None, f"no failure: {RPC_MANAGER.unhandled_exception!r}")
    ensure(len(engine.requests) == 1, "one request")
    q = engine.requests[0]
    same(q.type, "t:m:R", "type")
    same(q.name, "name", "name")
    same(q.parent, parent.__dict__["_name"] if parent else root.__dict__["_name"] if root else "", "parent")
    want = set().union(*[urns(d) for d in explicit], *implicit.values())
    same(set(q.dependencies), want, "dependencies")
    same(len(list(q.dependencies)), len(want), "dependencies, each once")
    same(q.version, o["version"] or "", "version")
    same(q.pluginDownloadURL, o["plugin_download_url"] or "", "plugin download URL")
    same(q.acceptSecrets, True, "accept secrets")
    same(list(q.additionalSecretOutputs), the_names(o["additional_secret_outputs"], 0) or [], "secret outputs")
    wp = f"{provider.__dict__['_name']}::" + ("pid%s" % provider.package[3:] if provider is not provs[0] else UNKNOWN_ID) if provider else ""
    same(q.provider, wp if custom else "", "provider")
    same(set(q.properties if read else q.object), {"wire_" + k for k in ins}, "inputs")
    if read:
        same(q.id, "the-id", "id")
        return
    same((q.custom, q.remote), (custom, is_remote), "kind of resource")
    same({k: set(v.urns) for k, v in q.propertyDependencies.items()}, implicit, "dependencies of the properties")
    same(list(q.aliases), list(dict.fromkeys(aliases)), "aliases")
    refs = {}
    if is_remote:
        for p in (list(providers.values()) if isinstance(providers, dict) else providers or []) + ([provider] if provider else []):
            refs[p.package] = f"{p.__dict__['_name']}::" + ("pid%s" % p.package[3:] if p is not provs[0] else UNKNOWN_ID)
    same(dict(q.providers), refs, "providers")
    same(q.protect, bool(o["protect"]), "protect")
    same(q.deleteBeforeReplace, bool(o["delete_before_replace"]), "delete before replace")
    same(q.deleteBeforeReplaceDefined, o["delete_before_replace"] is not None, "delete before replace was given")
    same(list(q.ignoreChanges), the_names(o["ignore_changes"], 0) or [], "ignore changes")
    same(list(q.replaceOnChanges), the_names(o["replace_on_changes"], 0) or [], "replace on changes")
    same(list(q.additionalSecretOutputs), the_names(o["additional_secret_outputs"], 0) or [], "secret outputs")
    same(q.importId, o["import_"] or "", "import id")
    same(q.retainOnDelete, bool(o["retain_on_delete"]), "retain on delete")
    same({n: getattr(q.customTimeouts, n) for n in ["create", "update", "delete"]},
         {n: (tm.get(n, "") if o["custom_timeouts"] is not None else "") for n in ["create", "update", "delete"]}, "timeouts")


async def check_names_native():
    """The property lists of a resource with typed arguments: inputs under the inputs' names, outputs under the resource's."""
    if SYMBOLIC:
        return
    import pulumi.runtime.settings as st
    from pulumi.runtime.rpc_manager import RPC_MANAGER
    r = rand()

    def prop(name, wire):
        def get(self):
            ...
        get.__name__ = name
        get.__annotations__["return"] = str
        return property(pulumi.getter(name=wire)(get) if wire else pulumi.getter(get))
    pool = ["some_in", "shared_name", "other_in", "out_only"]
    ins = {n: r.choice(["", "in" + n.title().replace("_", "")]) for n in pool[:3]}
    outs = {n: r.choice(["", "out" + n.title().replace("_", "")]) for n in pool[1:]}
    args_cls = pulumi.input_type(type("Args", (), {n: prop(n, w) for n, w in ins.items()}))
    res_cls = type("Res", (Bare,), {n: prop(n, w) for n, w in outs.items()})
    engine = Engine()
    st.configure(st.Settings("proj", "stack", monitor=engine, dry_run=r.random() < 0.5))
    st.SETTINGS.feature_support = {}
    RPC_MANAGER.clear()

    def some():
        return [r.choice(pool + ["unheard_of"]) for _ in range(r.randrange(4))]
    ic, aso, roc = some(), some(), some()
    note("names", (ins, outs, ic, aso, roc))
    opts = pulumi.ResourceOptions(ignore_changes=list(ic), additional_secret_outputs=list(aso), replace_on_changes=list(roc))
    from pulumi.runtime import settings
    real = settings.get_root_resource
    settings.get_root_resource = lambda: None
    try:
        register_resource(bare(res_cls, "self"), "t:m:R", "name", True, False, None, {}, opts, args_cls)
        for _ in range(200):
            if engine.requests:
                break
            await asyncio.sleep(0.001)
        for t in list(RPC_MANAGER.rpcs):
            await t
    finally:
        settings.get_root_resource = real
    ensure(len(engine.requests) == 1, f"one request: {RPC_MANAGER.unhandled_exception!r}")
    q = engine.requests[0]
    same(list(q.ignoreChanges), [ins.get(n) or n for n in ic], "ignore changes")
    same(list(q.replaceOnChanges), [ins.get(n) or n for n in roc], "replace on changes")
    same(list(q.additionalSecretOutputs), [outs.get(n) or n for n in aso], "secret outputs")
    ensure((opts.ignore_changes, opts.additional_secret_outputs, opts.replace_on_changes) == (ic, aso, roc), "the options are not changed")


def same(got, want, what):
    ensure(got == want, f"{what}: {got!r}, not {want!r}")


HARNESSES = [check_inputs, check_parent, check_aliases, check_translated_lists, check_register_request, check_register_flags,
             check_register_strings, check_register_lists, check_timeouts, check_read_request, check_outputs_request]
NATIVE = [check_request_native, check_names_native]
BOUNDS = {"check_names_native": "4 properties with and without wire names, lists of up to 3",
          "check_request_native": "3 inputs, 8 possible dependencies, 3 providers, random options"}
