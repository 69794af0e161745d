"""C08: every output property of a resource is resolved exactly once."""
from spec.common import *
from spec.serlib import Table
from spec.reglib import *
if not SYMBOLIC:
    import pulumi
    from pv import note
from pulumi.runtime.rpc import resolve_outputs, resolve_properties, resolve_outputs_due_to_exception, transfer_properties
from pulumi.runtime.rpc import _special_sig_key as SIG, _special_secret_sig as SECRET
from pulumi.runtime.resource import resource_output

ASSUMPTIONS = ["the renaming of wire properties to Python properties is injective on the properties at hand",
               "secret markers carry a value; is_rpc_secret, unwrap_rpc_secret, deserialize_property and translate_output_properties satisfy their contracts (C06, C07)",
               "run_in_executor runs its function to its end; the awaits of one operation are sequential",
               "the engine's answer to a lookup has a urn, an id and a state"]
M = "pulumi.runtime.rpc."
GHOST = {}


class Resolver:
    """An output property waiting for its resolution; the property in question counts and checks it."""

    def __init__(self, key):
        self.key = key

    def __call__(self, value, known, secret, deps, failed):
        if self.key == GHOST["key"]:
            GHOST["check"](value, known, secret, deps, failed)
            GHOST["n"] = GHOST["n"] + 1


async def check_transfer():
    """Every property but id and urn gets an output; its resolver settles exactly that output."""
    if not SYMBOLIC:
        return
    made = []

    def init(self, resources, future, is_known, is_secret=None):
        self.parts = (resources, future, is_known, is_secret)
    use("pulumi.output.Output.__init__", init)
    res = make(CUSTOM, tag="res")
    props = sym("props", ("dict", "str", "any"))
    r = transfer_properties(res, props)
    k = sym("key", "str")
    ensure(iff(k in r, and_(k in props, k != "id", k != "urn")), "exactly the properties other than id and urn are resolved")
    ensure(iff(k in res.__dict__, or_(k in r, k == "tag")), "and are outputs of the resource")
    if k in r and k != "tag":
        o = res.__dict__[k]
        ensure(isinstance(o, Output), "an output")
        deps_f, value_f, known_f, secret_f = o.parts
        ensure(not deps_f.done() and not value_f.done() and not known_f.done() and not secret_f.done(), "not settled yet")
        given = dep_set("deps") if choose("deps given", [True, False]) else None
        before = set(given) if given is not None else set()
        if choose("outcome", ["ok", "failed"]) == "ok":
            v, kn, se = sym("value", "any"), sym("known", "bool"), sym("secret", "bool")
            r[k](v, kn, se, given, None)
            ensure_same(value_f.result(), v, "the value")
            ensure_same(known_f.result(), kn, "known")
            ensure_same(secret_f.result(), se, "secret")
        else:
            e = symexc("failure")
            r[k](None, False, False, given, e)
            ensure(value_f.exception() is e and known_f.exception() is e and secret_f.exception() is e, "fails with the failure")
        ensure_same(deps_f.result(), before | {res}, "the dependencies and the resource itself")
        if given is not None:
            ensure_same(given, before, "the given dependencies are not changed")


RESOLVERS = ("dict", "str", ("obj", "spec.c08.Resolver"))


def use_resolvers():
    schema("spec.c08.Resolver", key="str")


async def check_exception():
    """Each resolver is called exactly once, with the failure."""
    if not SYMBOLIC:
        return
    use_resolvers()
    resolvers = sym("resolvers", RESOLVERS)
    g = sym("key", "str")
    assume(g in resolvers)
    for k, r in resolvers.items():
        assume(r.key == k)
    exn = symexc("failure")

    def check(value, known, secret, deps, failed):
        ensure(failed is exn and value is None and not deps, "resolved with the failure")
    GHOST["key"], GHOST["n"], GHOST["check"] = g, 0, check
    invariant(M + "resolve_outputs_due_to_exception", exception_inv, ghost_n="int")
    resolve_outputs_due_to_exception(resolvers, exn)
    ensure(GHOST["n"] == 1, "exactly once")


def exception_inv(done, ghost_n):
    g = GHOST["key"]
    return ghost_n == (1 if any(k == g for k, r in done) else 0)


def wrapped(d):
    """Contract of is_rpc_secret (proved in C06)."""
    if opaque(d):
        return and_(kind_is(d, "dict"), ufb("wrapped", d))
    return isinstance(d, dict) and SIG in d and d[SIG] == SECRET


def unwrapped(d):
    """Contract of unwrap_rpc_secret (proved in C06)."""
    return (ufn("secret value", d) if opaque(d) else d["value"]) if wrapped(d) else d


async def check_resolve_properties():
    """Each resolver is called exactly once, with the value, flags and dependencies of its property."""
    if not SYMBOLIC:
        return
    use_resolvers()
    use(M + "is_rpc_secret", wrapped)
    use(M + "unwrap_rpc_secret", unwrapped)
    dry = sym("dry run", "bool")
    set_dry_run(dry)
    resolvers = sym("resolvers", RESOLVERS)
    props = sym("all properties", ("dict", "str", "any"))
    deps = sym("deps", ("dict", "str", ("set", ("obj", RES))))
    g = sym("key", "str")
    assume(g in resolvers)
    assume("id" not in resolvers and "urn" not in resolvers)          # check_transfer
    for k, r in resolvers.items():
        assume(r.key == k)

    def check(value, known, secret, d, failed):
        ensure(failed is None, "resolved with a value")
        if g in props:
            ensure_same(value, unwrapped(props[g]), "the value of the property")
            ensure(iff(secret, wrapped(props[g])), "secret exactly if marked")
            ensure(iff(known, or_(not_(dry), not_(unwrapped(props[g]) is None))), "known in an update, else if there is a value")
        else:
            ensure(value is None, "no value")
            ensure(not_(secret), "not secret")
            ensure(iff(known, not_(dry)), "known in an update")
        ensure_same(d, deps[g] if g in deps else None, "the dependencies of the property")
    GHOST["key"], GHOST["n"], GHOST["check"], GHOST["props"] = g, 0, check, props
    invariant(M + "resolve_properties", returned_inv, 0, ghost_n="int")
    invariant(M + "resolve_properties", missing_inv, 1, ghost_n="int")
    resolve_properties(resolvers, props, deps)
    ensure(GHOST["n"] == 1, "exactly once")


def returned_inv(done, ghost_n):
    g = GHOST["key"]
    return ghost_n == (1 if any(k == g for k, v in done) else 0)


def missing_inv(done, ghost_n):
    g = GHOST["key"]
    return ghost_n == (1 if g in GHOST["props"] or any(k == g for k, r in done) else 0)


class Names:
    """The declared names of a resource's properties (an arbitrary injective renaming)."""

    def get(self, k, default=None):
        v = ufn("declared name", k, result=("opt", "str"))
        only(k, v if v else k)
        return default if v is None else v


def only(k, name):
    """No other wire key than GHOST["wire"] is renamed to the property in question."""
    assume(implies(eqv(name, GHOST["key"]), and_(GHOST["renamed"], eqv(k, GHOST["wire"]))))


def renamed(k):
    if GHOST["typed"]:
        v = ufn("declared name", k, result=("opt", "str"))
        return v if v else k
    return ufn("renamed", k, result="str")


def rename(self, k):
    r = ufn("renamed", k, result="str")
    only(k, r)
    return r


def translated(v, k):
    return ufn("translated", v, Table("wiretype", "any").get(k))


async def check_resolve_outputs():
    """The properties: what the engine returned, else the serialized input (updates and legacy apply), translated; all or nothing."""
    if not SYMBOLIC:
        return
    dry, legacy, typed = sym("dry run", "bool"), sym("legacy apply", "bool"), choose("type metadata", [True, False])
    set_dry_run(dry)
    use("pulumi.runtime.settings.is_legacy_apply_enabled", lambda: legacy)
    setg("pulumi.runtime.settings.excessive_debug_output", False)
    use("pulumi._types.resource_types", lambda c: Table("wiretype", "any"))
    use("pulumi._types.resource_pulumi_to_py_names", lambda c: Names())
    use("pulumi.resource.Resource.translate_output_property", rename)
    GHOST["typed"], GHOST["wire"], GHOST["renamed"] = typed, sym("wire key", "str"), choose("is a wire property", [True, False])
    gk = GHOST["wire"]
    g = renamed(gk) if GHOST["renamed"] else sym("key", "str")
    GHOST["key"] = g
    probe = sym("probe", "str")
    returned = sym("returned", ("dict", "str", "any"))
    inputs = sym("serialized inputs", ("dict", "str", "any"))
    deps = sym("deps", ("dict", "str", ("set", ("obj", RES))))

    def deserialize(outputs, keep_unknowns=None, keep_internal=None):
        ensure(not keep_internal and not keep_unknowns, "unknown and internal values as usual")
        ensure(outputs == "outputs", "deserializes what the engine returned")
        return returned
    use(M + "deserialize_properties", deserialize)
    use(M + "deserialize_property", lambda v, keep_unknowns=None: ufn("deserialized", v))

    def translate(value, fn, typ, meta, path=None):
        if ufb("mismatch", value):
            raise AssertionError("mismatch")
        ensure_same(fn(probe), probe if typed else ufn("renamed", probe, result="str"), "keys inside values are translated likewise")
        ensure(meta is typed, "with or without type metadata")
        return ufn("translated", value, typ)
    use(M + "translate_output_properties", translate)
    done = []

    def resolve(resolvers, props, d):
        ensure(resolvers == "resolvers", "the resolvers of the resource")
        done.append((props, d))
    use(M + "resolve_properties", resolve)
    GHOST["returned"], GHOST["inputs"] = returned, inputs
    GHOST["deps"] = deps
    invariant(M + "resolve_outputs", returned_props_inv, 0, all_properties=("in", ("dict", "str", "any")))
    invariant(M + "resolve_outputs", deps_inv, 1, translated_deps=("in", ("dict", "str", ("set", ("obj", RES)))))
    invariant(M + "resolve_outputs", inputs_inv, 2, all_properties=("in", ("dict", "str", "any")))
    try:
        resolve_outputs(make(CUSTOM, _name="name"), inputs, "outputs", deps, "resolvers", typed)
    except AssertionError:
        ensure(len(done) == 0, "nothing is resolved when a value does not fit")
        return
    ensure(len(done) == 1, "resolved once")
    props, d = done[0]
    if not GHOST["renamed"]:
        ensure(g not in props, "nothing for other properties")
        ensure(g not in d, "no dependencies for other properties")
        return
    ensure_same(d.get(g), deps.get(gk), "the dependencies of the property")
    ensure(iff(g in props, or_(gk in returned, and_(gk in inputs, or_(not_(dry), legacy)))), "present if returned or taken from the inputs")
    if gk in returned:
        ensure_same(props[g], translated(returned[gk], gk), "the value the engine returned")
    elif g in props:
        ensure_same(props[g], translated(ufn("deserialized", inputs[gk]), gk), "the value of the input")


def returned_props_inv(done, all_properties, nxt):
    gk = GHOST["wire"]
    return holds(all_properties, any(k == gk for k, v in done), lambda: GHOST["returned"][gk])


def holds(props, present, wire_value):
    """The property in question is in props exactly if present, and then is the translation of the wire value."""
    g = GHOST["key"]
    if not GHOST["renamed"]:
        return g not in props
    if g in props:
        return present and props[g] is translated(wire_value(), GHOST["wire"])
    return not_(present)


def deps_inv(done, translated_deps):
    g, gk = GHOST["key"], GHOST["wire"]
    if not GHOST["renamed"]:
        return g not in translated_deps
    present = any(k == gk for k, v in done)
    if g in translated_deps:
        return present and translated_deps[g] is GHOST["deps"][gk]
    return not_(present)


def inputs_inv(done, all_properties, nxt):
    gk = GHOST["wire"]
    if gk in GHOST["returned"]:
        return holds(all_properties, True, lambda: GHOST["returned"][gk])
    return holds(all_properties, any(k == gk for k, v in done), lambda: ufn("deserialized", GHOST["inputs"][gk]))


def settled_once(res, failure, custom, engine):
    """Everything is resolved exactly once: with the failure, or with the engine's answer."""
    events = STATE["events"]
    ensure(len(events) == 1, "the properties are resolved exactly once")
    ensure(events[0][1] == "resolvers", "those of the resource")
    ensure(events[0][0] == ("resolved" if failure is None else "failed"), "as the operation went")
    ensure(events[0][2] is failure, "with the operation's own failure")
    urn = log_of(res, "urn")
    ensure(len(urn) == 1, "the urn is resolved exactly once")
    ident = log_of(res, "id") if custom else None
    if custom:
        ensure(len(ident) == 1, "the id is resolved exactly once")
    if failure is None:
        ensure_same(urn[0], (engine[0], True, False, None), "the urn the engine gave")
        if custom:
            ensure_same(ident[0], (engine[1], bool(engine[1]), False, None), "the id the engine gave, known unless empty")
    return events[0]


async def check_register():
    """A registration settles everything exactly once, wherever it fails."""
    if not SYMBOLIC:
        return
    custom, remote = choose("custom", [True, False]), sym("remote", "bool")
    fails = choose("fails at", ["nowhere", "preparation", "engine", "dependencies", "resolution"])
    engine = choose("engine", [True, False])
    setup(fails)
    use(R + "_translate_ignore_changes", lambda res, typ, v: v)
    use(R + "_translate_additional_secret_outputs", lambda res, typ, v: v)
    use(R + "_translate_replace_on_changes", lambda res, typ, v: v)
    STATE["monitor"] = Monitor() if engine else None
    u, ident = sym("urn", "str"), sym("id", ("opt", "str"))
    pd = sym("property dependencies of the answer", ("dict", "str", ("obj", "spec.reglib.PropertyDependencies")))
    STATE["response"] = make("spec.reglib.Response", urn=u, id=ident, object="object", propertyDependencies=pd)
    res = make(CUSTOM, _name="name")
    typ = None if choose("type metadata", [False, True]) else RES
    register_resource(res, "type", "name", custom, remote, new_dependency, "props", ResourceOptions(), typ)
    ensure(len(STATE["events"]) == 0 and len(log_of(res, "urn")) == 0, "nothing is resolved before the operation runs")
    failure = await run()
    e = settled_once(res, failure, custom, (u, ident) if engine else ("mock urn", None))
    if failure is None:
        ensure(e[3] is res and e[4] == "serialized" and e[7] is (typ is not None), "with the resource's own inputs and names")
        ensure(e[5] == ("object" if engine else "serialized"), "with the outputs of the answer")
        g = sym("key", "str")
        ensure(iff(g in e[6], and_(engine, g in pd)), "dependencies for exactly the properties the engine lists")
        if g in e[6]:
            ensure_same(e[6][g], set(ufn("dependency", w, result=("obj", RES)) for w in pd[g].urns), "the dependencies of the property")


async def check_read():
    """Reading a resource settles everything exactly once, wherever it fails."""
    if not SYMBOLIC:
        return
    fails = choose("fails at", ["nowhere", "preparation", "id", "engine", "resolution"])
    engine = choose("engine", [True, False])
    setup(fails)
    use(R + "_translate_additional_secret_outputs", lambda res, typ, v: v)

    async def serialize(value, deps, input_transformer=None, typ=None, keep_output_values=None):
        if fails_at("id"):
            raise Failure("id")
        return sym("serialized id", "any")
    use(M + "serialize_property", serialize)
    STATE["monitor"] = Monitor() if engine else None
    u = sym("urn", "str")
    STATE["response"] = make("spec.reglib.Response", urn=u, properties="object")
    res = make(CUSTOM, _name="name")
    typ = None if choose("type metadata", [False, True]) else RES
    opts = ResourceOptions(id="id")
    if not engine:
        return
    read_resource(res, "type", "name", "props", opts, typ)
    ensure(len(STATE["events"]) == 0 and len(log_of(res, "urn")) == 0, "nothing is resolved before the operation runs")
    failure = await run()
    if fails_at("resolution"):
        ensure(len(log_of(res, "urn")) == 1 and len(log_of(res, "id")) == 1, "urn and id are resolved exactly once")
        ensure(len(STATE["events"]) == 1 and STATE["events"][0][0] == "failed" and STATE["events"][0][2] is failure and failure is not None,
               "the properties fail exactly once")
        return
    e = settled_once(res, failure, False, (u, None))
    ensure(len(log_of(res, "id")) == 1, "the id is resolved exactly once")
    if failure is None:
        ensure(e[3] is res and e[4] == "serialized" and e[7] is (typ is not None) and e[5] == "object", "with the resource's inputs and the answer")
        ensure(len(e[6]) == 0, "reads report no dependencies")


async def check_lookup():
    """Looking up a resource by its URN settles everything exactly once, wherever it fails."""
    if not SYMBOLIC:
        return
    fails = choose("fails at", ["nowhere", "preparation", "engine", "refused", "resolution"])
    custom = choose("custom", [True, False])
    setup(fails)
    use("pulumi.urn._parse_urn", lambda urn: make("pulumi.urn._UrnParts", urn=urn, urn_name="name", typ="type"))

    async def serialize(inputs, property_deps, input_transformer=None, typ=None, keep_output_values=None):
        return inputs
    use(M + "serialize_properties", serialize)
    STATE["monitor"] = Monitor()
    u, ident = sym("urn", "str"), sym("id", "str")
    STATE["response"] = make("spec.reglib.Reply", failures=[Failed()] if fails == "refused" else [], **{"return": {"urn": u, "id": ident, "state": "object"}})
    res = make(CUSTOM, _name="name")
    typ = None if choose("type metadata", [False, True]) else RES
    get_resource(res, "props", custom, "given urn", typ)
    ensure(len(STATE["events"]) == 0 and len(log_of(res, "urn")) == 0, "nothing is resolved before the operation runs")
    failure = await run()
    if fails_at("resolution"):
        ensure(len(log_of(res, "urn")) == 1, "the urn is resolved exactly once")
        ensure(len(STATE["events"]) == 1 and STATE["events"][0][0] == "failed" and STATE["events"][0][2] is failure and failure is not None,
               "the properties fail exactly once")
        return
    ensure(iff(failure is None, fails == "nowhere"), "fails exactly if refused or failed")
    e = settled_once(res, failure, custom, (u, ident))
    if failure is None:
        ensure(e[3] is res and e[4] == "serialized" and e[7] is (typ is not None) and e[5] == "object", "with the resource's inputs and the answer")
        ensure(len(e[6]) == 0, "lookups report no dependencies")


async def check_identity():
    """The output of a resource's urn or id is settled by its resolver, with the value or the failure."""
    if not SYMBOLIC:
        return

    def init(self, resources, future, is_known, is_secret=None):
        self.parts = (resources, future, is_known, is_secret)
    use("pulumi.output.Output.__init__", init)
    res = make(CUSTOM)
    resolve, o = resource_output(res)
    deps, value_f, known_f, secret_f = o.parts
    ensure_same(deps, {res}, "depends on the resource")
    ensure(not value_f.done() and not known_f.done() and not secret_f.done(), "not settled yet")
    v, kn, se = sym("value", "any"), sym("known", "bool"), sym("secret", "bool")
    if choose("outcome", ["ok", "failed"]) == "ok":
        resolve(v, kn, se, None)
        ensure_same(value_f.result(), v, "the value")
        ensure_same(known_f.result(), kn, "known")
        ensure_same(secret_f.result(), se, "secret")
    else:
        e = symexc("failure")
        resolve(None, kn, se, e)
        ensure(value_f.exception() is e and known_f.exception() is e and secret_f.exception() is e, "fails with the failure")


# ------------------------------------------------------------------ native: real resources and outputs
WIRE = {"plain": "plain", "camelName": "camel_name", "other": "other", "lastOne": "last_one"}
NAMES = {v: k for k, v in WIRE.items()}
SEC = {SIG: SECRET, "value": "hidden"}
SENTINEL = "04da6b54-80e4-46f7-96ec-b56ff0331ba9"
#           wire value, value in a preview, value in an update, secret
VALUES = [("s", "s", "s", False), (2.0, 2.0, 2.0, False), (True, True, True, False), ("", "", "", False), (False, False, False, False), (0.0, 0.0, 0.0, False),
          (SEC, "hidden", "hidden", True), (["a", SEC], ["a", "hidden"], ["a", "hidden"], True), ([], [], [], False), ({}, {}, {}, False),
          ({"k": "v"}, {"k": "v"}, {"k": "v"}, False), ({"k": SEC}, {"k": "hidden"}, {"k": "hidden"}, True),
          (SENTINEL, UNKNOWN, None, False), (["a", SENTINEL], ["a", UNKNOWN], ["a", None], False), ({"k": SENTINEL}, {"k": UNKNOWN}, {}, False),
          ({SIG: SECRET, "value": SENTINEL}, UNKNOWN, None, True), (None, None, None, False)]
if not SYMBOLIC:
    import asyncio
    from google.protobuf import struct_pb2

    class Untyped(pulumi.CustomResource):
        def translate_output_property(self, prop):
            return WIRE.get(prop) or prop

        def translate_input_property(self, prop):
            return NAMES.get(prop) or prop

    class Typed(pulumi.CustomResource):
        @property
        @pulumi.getter
        def plain(self):
            return pulumi.get(self, "plain")

        @property
        @pulumi.getter(name="camelName")
        def camel_name(self):
            return pulumi.get(self, "camel_name")

        @property
        @pulumi.getter
        def other(self):
            return pulumi.get(self, "other")

        @property
        @pulumi.getter(name="lastOne")
        def last_one(self):
            return pulumi.get(self, "last_one")


def to_struct(d):
    s = struct_pb2.Struct()
    s.update(d)
    return s


async def soon(f):
    """The value of the awaitable, or "unresolved"."""
    try:
        return await asyncio.wait_for(f, 0.3)
    except asyncio.TimeoutError:
        return "unresolved"


async def failure_of(f):
    try:
        return await soon(f)
    except Exception as e:
        return e


def expect(k, returned, inputs, dry, legacy):
    """(value, known, secret) of the python property k, from the wire entries (indices into VALUES)."""
    if k in returned:
        w, p, u, secret = VALUES[returned[k]]
        v = p if dry else u
        if v is not None or secret:
            return v, not dry or not (v is None or hasunk(v)), secret
    if (not dry or legacy) and k in inputs:
        w, p, u, secret = VALUES[inputs[k]]
        v = p if dry else u
        return v, not dry or not (v is None or hasunk(v)), secret
    return None, not dry, False


def some_entries():
    return {k: rand().randrange(len(VALUES)) for k in WIRE.values() if rand().random() < 0.6}


async def check_outputs(res, names, returned, inputs, dry, legacy, deps):
    for k in names:
        o = res.__dict__[k]
        value, known, secret = expect(k, returned, inputs, dry, legacy)
        ensure(isinstance(o, Output), f"{k} is an output")
        got = await failure_of(o.is_known())
        ensure(got is known, f"{k} is known: {known}, not {got!r}")
        got = await failure_of(o.is_secret())
        ensure(got is secret, f"{k} is secret: {secret}, not {got!r}")
        got = await failure_of(o.resources())
        ensure(got == deps.get(NAMES[k], set()) | {res}, f"{k} depends on its own dependencies and the resource")
        if not dry or not hasunk(value):
            ensure_same(await failure_of(o.future(with_unknowns=True)), value, f"value of {k}")


async def check_resolve_native():
    """Whole resolution from engine answers, against an oracle."""
    if SYMBOLIC:
        return
    r = rand()
    dry, legacy, typed = r.random() < 0.5, r.random() < 0.3, r.random() < 0.5
    import pulumi.runtime.settings as st
    st.configure(st.Settings("proj", "stack", dry_run=dry, legacy_apply_enabled=legacy))
    res = object.__new__(Typed if typed else Untyped)
    res.__dict__["_name"] = "res"
    names = [k for k in WIRE.values() if r.random() < 0.8]
    props = {k: None for k in names}
    if r.random() < 0.3:
        props["id"] = props["urn"] = "x"
    resolvers = transfer_properties(res, props)
    ensure(set(resolvers) == set(names), "a resolver for every property but id and urn")
    for k in names:
        ensure(isinstance(res.__dict__.get(k), Output), f"{k} is an output")
    pool = rand_pool()
    returned, inputs = some_entries(), some_entries()
    deps = {w: set(r.sample(pool, r.randrange(3))) for w in WIRE if r.random() < 0.5}
    note("returned", {k: VALUES[v][0] for k, v in returned.items()})
    note("inputs", {k: VALUES[v][0] for k, v in inputs.items()})
    note("preview, legacy, typed", (dry, legacy, typed))
    if r.random() < 0.15:
        e = RuntimeError("failed")
        resolve_outputs_due_to_exception(resolvers, e)
        for k in names:
            ensure(await failure_of(res.__dict__[k].future()) is e, f"{k} fails with the failure")
            ensure(await failure_of(res.__dict__[k].is_known()) is e, f"known of {k} fails")
        return
    out = to_struct({NAMES[k]: VALUES[v][0] for k, v in returned.items()})
    if r.random() < 0.5:
        out.update({"id": "x", "urn": "y", "notListed": SEC})
    before = {k: set(v) for k, v in deps.items()}
    resolve_outputs(res, to_struct({NAMES[k]: VALUES[v][0] for k, v in inputs.items()}), out, deps, resolvers, typed)
    ensure(deps == before, "the dependencies are not changed")
    await check_outputs(res, names, returned, inputs, dry, legacy, deps)
    ensure("notListed" not in res.__dict__ and "urn" not in res.__dict__ and "id" not in res.__dict__, "nothing else is set")


async def check_register_native():
    """Registering, reading and looking up real resources with an engine stand-in that answers or fails."""
    if SYMBOLIC:
        return
    import pulumi.runtime.settings as st
    from pulumi.runtime.proto import resource_pb2, provider_pb2
    from pulumi.runtime.rpc_manager import RPC_MANAGER
    r = rand()
    dry, legacy, typed = r.random() < 0.5, r.random() < 0.3, r.random() < 0.5
    how = r.choice(["register", "register", "read", "lookup"])
    fails = r.choice(["", "", "inputs", "engine", "engine value", "dependency"])
    returned, inputs = some_entries(), some_entries()
    out = to_struct({NAMES[k]: VALUES[v][0] for k, v in returned.items()})
    if fails == "engine value":
        out.update({"plain": {SIG: "no such signature"}})
    urn, ident = "urn:pulumi:stack::proj::t:m:R::res", r.choice(["the-id", ""])
    deps = {w: ["urn:pulumi:stack::proj::t:m:R::dep%d" % k for k in range(r.randrange(3))] for w in WIRE if r.random() < 0.4} if how == "register" else {}
    note("how", (how, fails, dry, legacy, typed, ident))
    note("returned", {k: VALUES[v][0] for k, v in returned.items()})
    note("inputs", {k: VALUES[v][0] for k, v in inputs.items()})

    class Engine:
        def SupportsFeature(self, req):
            return resource_pb2.SupportsFeatureResponse(hasSupport=True)

        def RegisterResource(self, req):
            if fails == "engine":
                raise RuntimeError("engine")
            return resource_pb2.RegisterResourceResponse(urn=urn, id=ident, object=out, propertyDependencies={
                w: resource_pb2.RegisterResourceResponse.PropertyDependencies(urns=us) for w, us in deps.items()})

        def ReadResource(self, req):
            if fails == "engine":
                raise RuntimeError("engine")
            return resource_pb2.ReadResourceResponse(urn=urn, properties=out)

        def Invoke(self, req):
            if fails == "engine":
                raise RuntimeError("engine")
            resp = provider_pb2.InvokeResponse()
            getattr(resp, "return").update({"urn": urn, "id": ident, "state": out})
            return resp
    st.configure(st.Settings("proj", "stack", monitor=Engine(), dry_run=dry, legacy_apply_enabled=legacy))
    st.SETTINGS.feature_support = {}
    RPC_MANAGER.clear()
    names = list(WIRE.values())
    cls = Typed if typed else Untyped
    res = object.__new__(cls)
    res.__dict__.update(_name="res", _aliases=[], _providers={}, _childResources=set())
    props = {k: None for k in names}
    for k, v in inputs.items():
        w, p, u, secret = VALUES[v]
        if p is UNKNOWN or hasunk(p):
            del_unknown(inputs, k)
            continue
        props[k] = an_output("given", p, True, secret, set()) if secret or r.random() < 0.3 else p
    inputs = {k: v for k, v in inputs.items() if v is not None and VALUES[v][0] is not None}
    if fails == "inputs":
        f = asyncio.get_running_loop().create_future()
        f.set_exception(RuntimeError("inputs"))
        props["plain"] = f
        inputs.pop("plain", None)

    made = {}

    def dependency(u):
        if fails == "dependency":
            raise RuntimeError("dependency")
        if u not in made:
            made[u] = make(RES)
            made[u].__dict__["_name"] = u
        return made[u]

    typ = TypedArgs if typed else None
    opts = pulumi.ResourceOptions(id="the-id" if how == "read" else None)
    if how == "register":
        register_resource(res, "t:m:R", "res", True, False, dependency, props, opts, typ)
    elif how == "read":
        read_resource(res, "t:m:R", "res", props, opts, typ)
    else:
        get_resource(res, props, True, urn, typ)
    await settle()
    for t in list(RPC_MANAGER.rpcs):
        await failure_of(t)
    await settle()
    failed = fails in ("inputs", "engine", "engine value") or (fails == "dependency" and any(deps.values()))
    e = RPC_MANAGER.unhandled_exception
    ensure((e is not None) is failed, f"fails: {failed}, but the failure is {e!r}")
    RPC_MANAGER.clear()
    if failed:
        for k in names:
            for f in (res.__dict__[k].future(), res.__dict__[k].is_known(), res.__dict__[k].is_secret()):
                got = await failure_of(f)
                ensure(got is e, f"{k} fails with the failure, not {got!r}")
        return
    got = await failure_of(res.__dict__["urn"].future())
    ensure(got == urn, f"the urn, not {got!r}")
    got = await failure_of(res.__dict__["id"].is_known())
    ensure(got is (how == "read" or ident != ""), f"the id is known, unless empty: {got!r}")
    await check_outputs(res, names, returned, inputs, dry, legacy, {w: {made[u] for u in us} for w, us in deps.items()})


def del_unknown(inputs, k):
    inputs[k] = None


async def settle():
    for _ in range(30):
        await asyncio.sleep(0)


if not SYMBOLIC:
    @pulumi.input_type
    class TypedArgs:
        def __init__(self, plain=None, camel_name=None, other=None, last_one=None):
            pass

        @property
        @pulumi.getter
        def plain(self):
            return pulumi.get(self, "plain")

        @property
        @pulumi.getter(name="camelName")
        def camel_name(self):
            return pulumi.get(self, "camel_name")

        @property
        @pulumi.getter
        def other(self):
            return pulumi.get(self, "other")

        @property
        @pulumi.getter(name="lastOne")
        def last_one(self):
            return pulumi.get(self, "last_one")


HARNESSES = [check_transfer, check_identity, check_exception, check_resolve_properties, check_resolve_outputs, check_register, check_read, check_lookup]
NATIVE = [check_resolve_native, check_register_native]
BOUNDS = {"check_resolve_native": "4 properties, wire values from a pool of 17", "check_register_native": "4 properties, wire values from a pool of 17"}
