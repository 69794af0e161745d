"""Contracts of serialize_property / serialize_properties, shared by C03 (markers), C04 (dependencies) and C05 (structure).

The recursion contract: serialize_property(value, deps, ...) returns ser(value, ...) and extends deps by the
dependencies D(value) of the value.  Each check below fixes one shape of the value, leaves everything in it
arbitrary, and proves that one unfolding of ser and D is what the property says."""
import asyncio
from collections import abc
from typing import Any, Dict, List, Mapping, Optional, Sequence
from google.protobuf import struct_pb2
import pulumi
from spec.common import *
if not SYMBOLIC:
    from pv import note
from pulumi import _types
from pulumi.runtime.rpc import serialize_property, serialize_properties
from pulumi.runtime.rpc import _special_sig_key as SIG, _special_secret_sig as SECRET, _special_asset_sig as ASSET
from pulumi.runtime.rpc import _special_archive_sig as ARCHIVE, _special_resource_sig as RESOURCE, _special_output_value_sig as OUTVAL
from pulumi.runtime.rpc import UNKNOWN as SENTINEL

ASSUMPTIONS = ["dictionary keys are strings; a user's sequence types other than list are not considered",
               "input classes: the metadata functions of _types are used by their contract (C20)",
               "known_types and the monitor's feature flags answer consistently during one call",
               "expansion of a set of resources to URNs: by the contract of _expand_dependencies (C17)"]

ASPECT = [None]


def use_aspect(name):
    ASPECT[0] = name


def on(name):
    return ASPECT[0] == name


class Elem:
    """A declared type the serialization passes along."""


class Decl:
    """A declared input type (symbolically: its metadata functions are given by contract)."""


class Table:
    """An arbitrary dictionary with string keys, as a function of the key (None: no entry)."""

    def __init__(self, name, result):
        self.name, self.result = name, result

    def get(self, k, default=None):
        v = ufn(self.name, k, result=self.result)
        return default if v is None else v

    def __contains__(self, k):
        return ufn(self.name, k, result=self.result) is not None

    def __getitem__(self, k):
        v = ufn(self.name, k, result=self.result)
        if v is None:
            raise KeyError(k)
        return v


# ------------------------------------------------------------------ the recursion contract
def ser(value, it, typ, kov):
    return ufn("ser", value, it, typ, bool(kov))


def dep_list(value):
    return ufn("serdeps", value, result=("list", ("obj", RES)))


def deps_of(value):
    return set(dep_list(value))


async def contract(value, deps, input_transformer=None, typ=None, keep_output_values=None):
    if not opaque(value) and kind_is(value, "fut"):
        value = await value          # by awaitable_case
    deps.extend(dep_list(value))
    return ser(value, input_transformer, typ, keep_output_values)


EXPANDED = []
SUPPORT = {}


def setup():
    for k in ("secrets", "outputValues", "resourceReferences"):
        SUPPORT[k] = sym(k, "bool")
    EXPANDED.clear()
    if not SYMBOLIC:
        import pulumi.runtime.settings as st
        st.configure(st.Settings("proj", "stack", dry_run=rand().random() < 0.5))
        st.SETTINGS.feature_support = dict(SUPPORT)
        return

    async def secrets():
        return SUPPORT["secrets"]

    async def output_values():
        return SUPPORT["outputValues"]

    async def references():
        return SUPPORT["resourceReferences"]

    async def expand(deps, from_resource):
        EXPANDED.append(set(deps))
        return ufn("expanded", len(EXPANDED), result=("set", "str"))
    use("pulumi.runtime.settings.monitor_supports_secrets", secrets)
    use("pulumi.runtime.settings.monitor_supports_output_values", output_values)
    use("pulumi.runtime.settings.monitor_supports_resource_references", references)
    use("pulumi.runtime.resource._expand_dependencies", expand)
    use("pulumi.runtime.rpc.serialize_property", contract)
    use_contains_unknowns()
    schema(RES, urn="any")
    use_types({}, {})


def use_types(names, types):
    """Contracts of the metadata functions for the declared type Decl (names: Python -> wire, types: wire -> type)."""
    def is_input_type(c):
        return c is Decl

    def py_to_pulumi(c):
        return names

    def type_map(c):
        return types
    use("pulumi._types.is_input_type", is_input_type)
    use("pulumi._types.input_type_py_to_pulumi_names", py_to_pulumi)
    use("pulumi._types.input_type_types", type_map)


def rename(k):
    if SYMBOLIC:
        return ufn("rename", k, result="str")
    return {"some_key": "someKey", "a": "A"}.get(k, k)


def translator():
    return choose("translator", [None, rename])


def kovs():
    return sym("keep_output_values", "bool") if choose("keep_output_values given", [True, False]) else None


def a_value(name):
    return sym(name, "any")


async def same_deps(deps, expected, what):
    if on("deps"):
        ensure_same(set(deps), expected, what + ": exactly the dependencies of what is inside are reported")


def structure(result, expected, what):
    if on("structure"):
        ensure_same(result, expected, what)


def some_deps():
    """The dependency list may already hold entries of the caller's."""
    return sym("deps", ("list", ("obj", RES)), native=lambda: [])


# ------------------------------------------------------------------ shapes
LIST_TYPES = ["none", "any", "list", "List", "Sequence", "Optional List", "bare List"]


def list_type(form):
    if form == "none" or form == "any":
        return (None if form == "none" else Any), None
    if form == "list":
        return list, Any
    if form == "List":
        return List[Elem], Elem
    if form == "Sequence":
        return Sequence[Elem], Elem
    if form == "Optional List":
        return Optional[List[Elem]], Elem
    return List, Any


async def list_case():
    """Lists keep length and order; every element is serialized with the element type."""
    setup()
    typ, elem = list_type(choose("type", LIST_TYPES))
    it, kov = translator(), kovs()
    if not SYMBOLIC:
        return
    v = sym("v", ("list", "any"))
    deps = some_deps()
    before = set(deps)
    r = await root(serialize_property, v, deps, it, typ, kov)
    structure(r, [ser(x, it, elem, kov) for x in v], "lists keep length and order")
    if on("marks"):
        ensure_same(r, [ser(x, it, elem, kov) for x in v], "every element is serialized under the same rules")
    await same_deps(deps, before | {d for x in v for d in dep_list(x)}, "a list")


async def list_mismatch_case():
    """A list where another type is declared is rejected, not altered."""
    setup()
    typ = choose("type", [str, Dict[str, Elem], dict])
    it, kov = translator(), kovs()
    v = sym("v", ("list", "str"))
    rejected = False
    try:
        await root(serialize_property, v, [], it, typ, kov)
    except AssertionError:
        rejected = True
    structure(rejected, True, "a list under another declared type is rejected")


DICT_TYPES = ["none", "any", "Decl", "dict", "Dict", "Mapping", "Dict int", "Optional Dict", "Optional Decl", "str"]


def dict_case_type(form):
    """(declared type, element type, which renaming)"""
    if form == "none":
        return None, None, "given"
    if form == "any":
        return Any, None, "given"
    if form == "Decl":
        return Decl, None, "declared"
    if form == "Optional Decl":
        return Optional[Decl], None, "declared"
    if form == "dict":
        return dict, None, "given"
    if form == "Dict":
        return Dict[str, Elem], Elem, "keep"
    if form == "Mapping":
        return Mapping[str, Elem], Elem, "keep"
    if form == "Optional Dict":
        return Optional[Dict[str, Elem]], Elem, "keep"
    if form == "Dict int":
        return Dict[int, Elem], None, "given"
    return str, None, "keep"


async def dict_case():
    """Dictionaries keep exactly their entries, under the translated key; declared types take precedence."""
    setup()
    typ, elem, naming = dict_case_type(choose("type", DICT_TYPES))
    it, kov = translator(), kovs()
    if not SYMBOLIC:
        return
    names, types = Table("wirename", ("opt", "str")), Table("wiretype", "any")
    use_types(names, types)
    v = sym("v", ("dict", "str", "any"))
    deps = some_deps()
    before = set(deps)
    r = await root(serialize_property, v, deps, it, typ, kov)
    if naming == "declared":
        expected = {declared(names, k): ser(x, it, types.get(declared(names, k)), kov) for k, x in v.items()}
    elif naming == "given" and it is not None:
        expected = {it(k): ser(x, it, elem, kov) for k, x in v.items()}
    else:
        expected = {k: ser(x, it, elem, kov) for k, x in v.items()}
    structure(r, expected, "dictionaries keep exactly their entries under the translated key")
    if on("marks"):
        ensure_same(r, expected, "every entry is serialized under the same rules")
    await same_deps(deps, before | {d for x in v.values() for d in dep_list(x)}, "a dictionary")


def declared(names, k):
    return names.get(k) or k


async def input_object_case():
    """Typed argument objects become the dictionary of their set properties under the wire names, which are not renamed again."""
    setup()
    it, kov = translator(), kovs()
    typ = choose("type", [None, Elem])
    if not SYMBOLIC:
        return
    types = Table("wiretype", "any")
    d = sym("properties", ("dict", "str", "any"))
    use_types({}, types)

    def to_dict(o):
        return d
    use("pulumi._types.input_type_to_dict", to_dict)
    v = make("spec.serlib.Decl")
    deps = some_deps()
    before = set(deps)
    r = await root(serialize_property, v, deps, it, typ, kov)
    expected = {k: ser(x, it, types.get(k), kov) for k, x in d.items()}
    structure(r, expected, "a typed argument object becomes one entry per set property under its wire name")
    if on("marks"):
        ensure_same(r, expected, "every property is serialized under the same rules")
    await same_deps(deps, before | {q for x in d.values() for q in dep_list(x)}, "a typed argument object")


async def unknown_case():
    setup()
    it, kov = translator(), kovs()
    deps = some_deps()
    before = set(deps)
    r = await root(serialize_property, UNKNOWN, deps, it, choose("type", [None, Any, str]), kov)
    if on("marks"):
        ensure_same(r, SENTINEL, "the unknown marker becomes the unknown sentinel")
    await same_deps(deps, before, "the unknown marker")


async def resource_case():
    """Resources become references, or their id or URN when the monitor does not support references."""
    setup()
    it, kov = translator(), kovs()
    custom = choose("custom", [False, True])
    if not SYMBOLIC:
        return
    urn = sym("urn", "any")
    ident = sym("id", "any")
    if custom:
        v = make(CUSTOM, urn=urn, id=ident)
    else:
        v = make("pulumi.resource.ComponentResource", urn=urn)
    deps = some_deps()
    before = set(deps)
    r = await root(serialize_property, v, deps, it, choose("type", [None, Elem]), kov)
    if SUPPORT["resourceReferences"]:
        ref = {SIG: RESOURCE, "urn": ser(urn, it, None, False)}
        if custom:
            ref["id"] = ser(ident, it, None, False)
        structure(r, ref, "a resource becomes a tagged reference with its URN, and its id if it is a custom resource")
        await same_deps(deps, before | deps_of(urn) | (deps_of(ident) if custom else set()), "a resource reference")
    else:
        structure(r, ser(ident if custom else urn, it, None, False), "a resource becomes its id, or its URN if it has none")
        await same_deps(deps, before | deps_of(ident if custom else urn), "a resource")


ASSETS = {"file asset": ("pulumi.asset.FileAsset", ASSET, "path"), "text asset": ("pulumi.asset.StringAsset", ASSET, "text"),
          "remote asset": ("pulumi.asset.RemoteAsset", ASSET, "uri"), "asset archive": ("pulumi.asset.AssetArchive", ARCHIVE, "assets"),
          "file archive": ("pulumi.asset.FileArchive", ARCHIVE, "path"), "remote archive": ("pulumi.asset.RemoteArchive", ARCHIVE, "uri")}


async def asset_case():
    """Assets and archives become the tagged object of their kind, carrying exactly their own payload."""
    setup()
    it, kov = translator(), kovs()
    cls, tag, field = ASSETS[choose("asset", list(ASSETS))]
    if not SYMBOLIC:
        return
    p = sym("payload", "any")
    fields = {field: p}
    v = make(cls, **fields)
    deps = some_deps()
    before = set(deps)
    r = await root(serialize_property, v, deps, it, choose("type", [None, Elem]), kov)
    expected = {SIG: tag, field: ser(p, it, None, False)}
    structure(r, expected, "an asset or archive becomes the tagged object of its kind with its own payload")
    if on("marks"):
        ensure_same(r, expected, "the payload of an asset is serialized under the same rules")
    await same_deps(deps, before | deps_of(p), "an asset")


async def asset_unknown_kind_case():
    """An asset or archive of no known kind is rejected."""
    setup()
    if not SYMBOLIC:
        return
    v = make("pulumi.asset.Asset" if choose("asset", [True, False]) else "pulumi.asset.Archive")
    rejected = False
    try:
        await root(serialize_property, v, [], translator(), None, kovs())
    except AssertionError:
        rejected = True
    structure(rejected, True, "an asset or archive of no known kind is rejected")


async def awaitable_case():
    """An awaitable is serialized as what it resolves to."""
    setup()
    it, kov = translator(), kovs()
    typ = choose("type", [None, Elem, List[Elem]])
    if not SYMBOLIC:
        return
    x = sym("x", "any")
    deps = some_deps()
    before = set(deps)
    r = await root(serialize_property, later(x), deps, it, typ, kov)
    structure(r, ser(x, it, typ, kov), "an awaitable is serialized as what it resolves to")
    if on("marks"):
        ensure_same(r, ser(x, it, typ, kov), "what an awaitable resolves to is serialized under the same rules")
    await same_deps(deps, before | deps_of(x), "an awaitable")


async def output_case():
    """Outputs: unknown sentinel, secret marker, output value; dependencies of the output and of its value."""
    setup()
    it, kov = translator(), kovs()
    typ = choose("type", [None, Elem])
    if not SYMBOLIC:
        return
    x, known, secret, own = sym("x", "any"), sym("known", "bool"), sym("secret", "bool"), dep_set("own")
    o = an_output("o", x, known, secret, own)
    given = set(own)
    deps = some_deps()
    before = set(deps)
    r = await root(serialize_property, o, deps, it, typ, kov)
    hidden = hasunk(x)
    inner = None if hidden else x           # the value future() exposes
    if kov and SUPPORT["outputValues"]:
        if on("marks"):
            ensure(isinstance(r, dict), "an output value object")
            ensure_same(r[SIG], OUTVAL, "tagged as an output value")
            ensure(iff("value" in r, known), "the value is carried exactly when it is known")
            if known:
                ensure_same(r["value"], ser_inner(x, it, typ), "the known value is carried")
            ensure(iff("secret" in r, secret), "the secret flag is carried")
            if secret:
                ensure(r["secret"] is True, "the secret flag is carried as true")
            urns = ufn("expanded", 1, result=("set", "str"))
            ensure(len(EXPANDED) == 1, "the dependencies are expanded once")
            ensure(iff("dependencies" in r, len(urns) > 0), "the dependency URNs are carried when there are any")
            if len(urns) > 0:
                ensure_same(r["dependencies"], sorted(urns), "the sorted dependency URNs are carried")
            both = own | deps_of(inner)
            ensure_same(EXPANDED[0], both | {d for q in both for d in dep_list(q.urn)}, "the URNs are those of the output's dependencies and of its value's")
            ensure(len(r) == 1 + (1 if known else 0) + (1 if secret else 0) + (1 if len(urns) > 0 else 0), "nothing else is carried")
    elif not known:
        if on("marks"):
            ensure_same(r, SENTINEL, "an output that is not known becomes the unknown sentinel")
    elif and_(secret, SUPPORT["secrets"]):
        if on("marks"):
            ensure_same(r, {SIG: SECRET, "value": ser_inner(x, it, typ)}, "a known secret output becomes a tagged secret around its serialized value")
    else:
        if on("marks"):
            ensure_same(r, ser_inner(x, it, typ), "a known output becomes its serialized value")
        structure(r, ser_inner(x, it, typ), "a known output becomes its serialized value")
    await same_deps(deps, before | given | deps_of(inner), "an output")
    if on("deps"):
        ensure_same(await o._resources, given, "serializing an output does not change it")


def ser_inner(x, it, typ):
    return ser(x, it, typ, False)


async def prompt_case():
    """Primitives are unchanged; what the wire cannot carry is rejected."""
    setup()
    it, kov = translator(), kovs()
    typ = choose("type", [None, Any, str, Elem])
    kind = choose("kind", ["none", "bool", "int", "float", "str", "tuple", "set", "bytes", "func"])
    v = sym("v", kind, native=lambda: {"none": None, "bool": True, "int": 3, "float": 1.5, "str": "s", "tuple": (1, "a"),
                                       "set": {1}, "bytes": b"x", "func": len}[kind])
    deps = some_deps()
    before = set(deps)
    rejected = False
    r = None
    try:
        r = await root(serialize_property, v, deps, it, typ, kov)
    except ValueError:
        rejected = True
    if kind in ("none", "bool", "int", "float", "str"):
        structure(rejected, False, "primitives are accepted")
        if not rejected:
            structure(r, v, "primitives are unchanged")
    else:
        structure(rejected, True, "values the wire cannot carry are rejected")
    await same_deps(deps, before, "a primitive")


# ------------------------------------------------------------------ property bags
async def bag_case():
    """A property bag: what serializes to nothing is omitted, everything else is under its translated name, with its own dependencies."""
    setup()
    it, kov = translator(), kovs()
    typ = choose("type", [None, Decl])
    if not SYMBOLIC:
        return
    use("pulumi.runtime.rpc.serialize_property", contract)
    names, types = Table("wirename", ("opt", "str")), Table("wiretype", "any")
    use_types(names, types)
    inputs = sym("inputs", ("dict", "str", "any"))
    assume(all(iff(ser(v, it, None if typ is None else types.get(declared(names, k)), kov) is None,
                   omitted(v)) for k, v in inputs.items()))
    prior = sym("property_deps", ("dict", "str", "any"))
    pd = dict(prior)
    r = await serialize_properties(inputs, pd, it, typ, kov)
    if typ is not None:
        sent = {declared(names, k): ser(v, it, types.get(declared(names, k)), kov) for k, v in inputs.items() if not omitted(v)}
        with_deps = {declared(names, k): dep_list(v) for k, v in inputs.items() if not omitted(v)}
    elif it is not None:
        sent = {it(k): ser(v, it, None, kov) for k, v in inputs.items() if not omitted(v)}
        with_deps = {it(k): dep_list(v) for k, v in inputs.items() if not omitted(v)}
    else:
        sent = {k: ser(v, it, None, kov) for k, v in inputs.items() if not omitted(v)}
        with_deps = {k: dep_list(v) for k, v in inputs.items() if not omitted(v)}
    s = struct_pb2.Struct()
    s.update(sent)
    structure(r, s, "every entry that serializes to something is sent under its translated name")
    if on("marks"):
        ensure_same(r, s, "every property is serialized under the same rules")
    if on("deps"):
        expected = dict(prior)
        expected.update(with_deps)
        ensure_same(pd, expected, "dependencies are recorded per sent property under the translated name")


def omitted(v):
    return ufb("nothing", v)


# ------------------------------------------------------------------ native: whole values, all the way down
@pulumi.input_type
class Inner:
    def __init__(self, *, deep_name=None, other=None):
        if deep_name is not None:
            pulumi.set(self, "deep_name", deep_name)
        if other is not None:
            pulumi.set(self, "other", other)

    @property
    @pulumi.getter(name="deepName")
    def deep_name(self) -> Optional[pulumi.Input[str]]:
        ...

    @property
    @pulumi.getter
    def other(self) -> Optional[pulumi.Input[Mapping[str, Any]]]:
        ...


@pulumi.input_type
class Outer:
    def __init__(self, *, first_arg, inner_arg=None, inner_list=None, inner_map=None, user_map=None):
        pulumi.set(self, "first_arg", first_arg)
        if inner_arg is not None:
            pulumi.set(self, "inner_arg", inner_arg)
        if inner_list is not None:
            pulumi.set(self, "inner_list", inner_list)
        if inner_map is not None:
            pulumi.set(self, "inner_map", inner_map)
        if user_map is not None:
            pulumi.set(self, "user_map", user_map)

    @property
    @pulumi.getter(name="firstArg")
    def first_arg(self) -> pulumi.Input[str]:
        ...

    @property
    @pulumi.getter(name="innerArg")
    def inner_arg(self) -> Optional[pulumi.Input[pulumi.InputType["Inner"]]]:
        ...

    @property
    @pulumi.getter(name="innerList")
    def inner_list(self) -> Optional[pulumi.Input[Sequence[pulumi.Input[pulumi.InputType["Inner"]]]]]:
        ...

    @property
    @pulumi.getter(name="innerMap")
    def inner_map(self) -> Optional[pulumi.Input[Mapping[str, pulumi.Input[pulumi.InputType["Inner"]]]]]:
        ...

    @property
    @pulumi.getter(name="userMap")
    def user_map(self) -> Optional[pulumi.Input[Mapping[str, Any]]]:
        ...


NAMES = {Inner: {"deep_name": ("deepName", "str"), "other": ("other", "map:None")},
         Outer: {"first_arg": ("firstArg", "str"), "inner_arg": ("innerArg", Inner), "inner_list": ("innerList", "list:Inner"),
                 "inner_map": ("innerMap", "map:Inner"), "user_map": ("userMap", "map:None")}}
ELEM = {"list:Inner": Inner, "map:Inner": Inner, "map:None": None, "str": None}
WIRETYPE = {c: {w: t for w, t in m.values()} for c, m in NAMES.items()}
DECLARED = {None: [None, Any], Inner: [Inner, Optional[Inner]], Outer: [Outer, Optional[Outer]], "str": [str, Optional[str]],
            "list:Inner": [List[Inner], Sequence[Inner], Optional[Sequence[Inner]]],
            "map:Inner": [Dict[str, Inner], Mapping[str, Inner]], "map:None": [Dict[str, Any], Mapping[str, Any]]}
RENAMED = {"some_key": "someKey", "a": "A", "deep_name": "renamedDeep", "deepName": "twice", "first_arg": "renamedFirst"}


def native_rename(k):
    return RENAMED.get(k, k)


class Native:
    """The resources of one native case."""

    def __init__(self):
        self.custom, self.comps = [], []
        for n in range(4):
            r = object.__new__(pulumi.CustomResource)
            r.__dict__["_childResources"] = set()
            r.__dict__["n"] = f"r{n}"
            r.__dict__["urn"] = settled_output(f"urn:r{n}", True, False, {r})
            known = rand().random() < 0.7
            r.__dict__["id"] = settled_output(f"id{n}" if known else None, known, rand().random() < 0.1, {r} | set(rand().sample(self.custom, min(len(self.custom), rand().randrange(2)))))
            self.custom.append(r)
        for n in range(3):
            c = object.__new__(pulumi.ComponentResource)
            c.__dict__["n"] = f"c{n}"
            c.__dict__["_remote"] = rand().random() < 0.3
            c.__dict__["_childResources"] = set(rand().sample(self.custom + self.comps, rand().randrange(4)))
            c.__dict__["urn"] = settled_output(f"urn:c{n}", True, False, {c})
            self.comps.append(c)
        self.all = self.custom + self.comps


def settled_output(v, known, secret, deps):
    return make(OUT, _future=resolved(v), _is_known=resolved(known), _is_secret=resolved(secret), _resources=resolved(set(deps)))


def expand_native(rs):
    urns = set()
    for r in rs:
        if isinstance(r, pulumi.ComponentResource) and not r._remote:
            urns |= expand_native(r._childResources)
        else:
            urns.add(f"urn:{r.n}")
    return urns


def native_any(w, typ=None, depth=0, illegal=0.0):
    """A random input that fits the declared type typ (None: anything)."""
    r = rand()
    if r.random() < illegal:
        return r.choice([(1, 2), {3}, b"x", object(), range(3)])
    if depth < 4 and r.random() < 0.3:
        v = native_any(w, typ, depth + 1, illegal)
        k = r.randrange(4)
        if k == 0:
            return later(v)
        known = r.random() < 0.75 and not hasunk(v)
        return settled_output(v, known, r.random() < 0.35, [x for x in w.all if r.random() < 0.25])
    if r.random() < 0.05:
        return UNKNOWN
    if typ == "str" and r.random() < 0.9:
        return r.choice(["", "s", "t", None, {"some_key": 1}])
    if typ is Inner:
        kw = {}
        if r.random() < 0.7:
            kw["deep_name"] = native_any(w, "str", 3, illegal)
        if r.random() < 0.6:
            kw["other"] = native_any(w, "map:None", depth + 1, illegal)
        return Inner(**kw) if r.random() < 0.6 else kw
    if typ is Outer:
        kw = {"first_arg": native_any(w, "str", 3, illegal)}
        for f in ("inner_arg", "inner_list", "inner_map", "user_map"):
            if r.random() < 0.5:
                kw[f] = native_any(w, NAMES[Outer][f][1], depth + 1, illegal)
        return Outer(**kw) if r.random() < 0.6 else kw
    if typ == "list:Inner":
        return [native_any(w, Inner, depth + 1, illegal) for _ in range(r.randrange(4))]
    if typ in ("map:Inner", "map:None"):
        return {q: native_any(w, ELEM[typ], depth + 1, illegal) for q in r.sample(["a", "b", "some_key", "deep_name", "first_arg"], r.randrange(4))}
    k = r.randrange(13 if depth < 4 else 4)
    if k < 4:
        return r.choice([None, True, False, 0, 3, 1.5, "", "s", "t"])
    if k < 6:
        return [native_any(w, None, depth + 1, illegal) for _ in range(r.randrange(4))]
    if k < 8:
        return {q: native_any(w, None, depth + 1, illegal) for q in r.sample(["a", "b", "some_key", "c"], r.randrange(4))}
    if k == 8:
        return native_any(w, Inner, depth, illegal)
    if k == 9:
        return native_any(w, Outer, depth, illegal)
    if k == 10:
        return r.choice(w.all)
    t = r.choice(["", "./f"])
    if k == 11:
        return r.choice([pulumi.FileAsset(t), pulumi.StringAsset(t), pulumi.RemoteAsset(t)])
    return r.choice([pulumi.FileArchive(t), pulumi.RemoteArchive(t), pulumi.AssetArchive({"some_key": pulumi.StringAsset(t)} if r.random() < 0.7 else {})])


class Refused(Exception):
    pass


async def nser(v, it, typ, kov, deps):
    """What serialization must produce, all the way down."""
    if isinstance(v, list):
        if isinstance(typ, type) or typ in ("map:Inner", "map:None", "str"):
            raise Refused()
        return [await nser(x, it, ELEM.get(typ), kov, deps) for x in v]
    if isinstance(v, Unknown):
        return SENTINEL
    if isinstance(v, pulumi.Resource):
        if SUPPORT["resourceReferences"]:
            ref = {SIG: RESOURCE, "urn": await nser(v.urn, it, None, False, deps)}
            if isinstance(v, pulumi.CustomResource):
                ref["id"] = await nser(v.id, it, None, False, deps)
            return ref
        return await nser(v.id if isinstance(v, pulumi.CustomResource) else v.urn, it, None, False, deps)
    for cls, tag, field in ASSETS.values():
        if type(v) is getattr(pulumi, cls.rsplit(".", 1)[1]):
            return {SIG: tag, field: await nser(getattr(v, field), it, None, False, deps)}
    if isinstance(v, asyncio.Future):
        return await nser(await v, it, typ, kov, deps)
    if isinstance(v, Output):
        own = set(v._resources.result())
        mine = set(own)
        x = v._future.result()
        value = await nser(None if hasunk(x) else x, it, typ, False, mine)
        deps |= mine
        known, secret = v._is_known.result(), v._is_secret.result()
        if kov and SUPPORT["outputValues"]:
            o = {SIG: OUTVAL}
            if known:
                o["value"] = value
            if secret:
                o["secret"] = True
            urns = expand_native(mine)
            if urns:
                o["dependencies"] = sorted(urns)
            return o
        if not known:
            return SENTINEL
        return {SIG: SECRET, "value": value} if secret and SUPPORT["secrets"] else value
    if type(v) in NAMES:
        return {w: await nser(getattr(v, p), it, t, kov, deps) for p, (w, t) in NAMES[type(v)].items() if getattr(v, p) is not None}
    if isinstance(v, dict):
        res = {}
        for k, x in v.items():
            if typ in NAMES:
                w = NAMES[typ].get(k, (k, None))[0]
                t = WIRETYPE[typ].get(w)
            elif typ in ("map:Inner", "map:None", "list:Inner", "str"):
                w, t = k, ELEM[typ] if typ != "list:Inner" else None
            else:
                w, t = (it(k) if it else k), None
            res[w] = await nser(x, it, t, kov, deps)
        return res
    if v is None or isinstance(v, (bool, int, float, str)):
        return v
    raise Refused()


async def whole_native():
    """Natively: whole values against a full-depth oracle."""
    for k in ("secrets", "outputValues", "resourceReferences"):
        SUPPORT[k] = choose(k, [False, True])
    import pulumi.runtime.settings as st
    st.configure(st.Settings("proj", "stack", dry_run=rand().random() < 0.5))
    st.SETTINGS.feature_support = dict(SUPPORT)
    w = Native()
    it, kov = choose("translator", [None, native_rename]), choose("keep_output_values", [None, False, True])
    typ = choose("type", [None, None, Inner, Outer, "list:Inner", "map:Inner", "map:None"])
    v = native_any(w, typ, 0, choose("illegal", [0.0, 0.0, 0.03]))
    if rand().random() < 0.1:
        typ = choose("other type", list(ELEM) + [Inner])
    declared_type = choose("declared", DECLARED[typ])
    note("value", v)
    want_deps, got, refused, want, want_refused = set(), [], False, None, False
    try:
        want = await nser(v, it, typ, kov, want_deps)
    except Refused:
        want_refused = True
    before = all_states(w)
    r = None
    try:
        r = await serialize_property(v, got, it, declared_type, kov)
    except (ValueError, AssertionError):
        refused = True
    if want_refused or refused:
        structure(refused, want_refused, "what the wire cannot carry is rejected, everything else is not")
        return
    if on("structure"):
        ensure_same(strip(r), strip(want), "the serialized structure")
    if on("marks"):
        ensure_same(r, want, "the serialized value with its markers")
    if on("deps"):
        ensure_same(set(got), want_deps, "the reported dependencies")
        ensure(all_states(w) == before, "serialization does not change the outputs")


def all_states(w):
    return [(set(r.urn._resources.result())) for r in w.all]


def strip(v):
    """Without the markers of outputs."""
    if isinstance(v, dict):
        if v.get(SIG) == SECRET:
            return strip(v["value"])
        if v.get(SIG) == OUTVAL:
            return strip(v.get("value", SENTINEL))
        return {k: strip(x) for k, x in v.items()}
    if isinstance(v, list):
        return [strip(x) for x in v]
    return v


async def bag_native():
    """Natively: whole property bags."""
    for k in ("secrets", "outputValues", "resourceReferences"):
        SUPPORT[k] = choose(k, [False, True])
    import pulumi.runtime.settings as st
    st.configure(st.Settings("proj", "stack", dry_run=False))
    st.SETTINGS.feature_support = dict(SUPPORT)
    w = Native()
    it, kov = choose("translator", [None, native_rename]), choose("keep_output_values", [None, False, True])
    typ = choose("type", [None, Outer])
    if typ is None:
        bag = {q: native_any(w, None, 1) for q in rand().sample(["a", "b", "some_key", "c"], rand().randrange(5))}
    else:
        bag = {p: native_any(w, t, 1) for p, (_, t) in NAMES[Outer].items() if rand().random() < 0.6}
        bag["unlisted"] = native_any(w, None, 2)
    sent, deps = {}, {}
    for k, x in bag.items():
        wire, t = (NAMES[Outer].get(k, (k, None)) if typ else (it(k) if it else k, None))
        d = set()
        try:
            v = await nser(x, it, t, kov, d)
        except Refused:
            return          # rejected values: whole_native
        if v is not None:
            sent[wire], deps[wire] = v, d
    pd = {}
    r = await serialize_properties(bag, pd, it, typ, kov)
    s = struct_pb2.Struct()
    s.update(sent)
    if on("structure") or on("marks"):
        ensure(r == s, f"the serialized bag: {r} is not {s}")
    if on("deps"):
        ensure_same({k: set(v) for k, v in pd.items()}, deps, "dependencies per sent property")
