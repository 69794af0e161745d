"""C06: deserialization of wire values: secrets hoisted, unknowns, internal keys, everything else preserved."""
from google.protobuf import struct_pb2
import pulumi
from spec.common import *
from pulumi.runtime import rpc
from pulumi.runtime.rpc import deserialize_property, deserialize_properties, deserialize_resource, deserialize_output_value
from pulumi.runtime.rpc import is_rpc_secret, wrap_rpc_secret, unwrap_rpc_secret
from pulumi.runtime.rpc import _special_sig_key as SIG, _special_secret_sig as SECRET, _special_asset_sig as ASSET
from pulumi.runtime.rpc import _special_archive_sig as ARCHIVE, _special_resource_sig as RESOURCE, _special_output_value_sig as OUTVAL
from pulumi.runtime.rpc import UNKNOWN as SENTINEL

ASSUMPTIONS = ["wire values are protobuf values: null, bool, number, string, list, struct",
               "the values inside signature-tagged objects have the documented kinds (path, text, uri, urn: strings)"]

WIRE = ("none", "bool", "float", "str", "struct", "listvalue")


def wrapped(d):
    """d is a secret marker: a dictionary tagged with the secret signature (contract of is_rpc_secret, check_secret_helpers)."""
    if opaque(d) and ABSTRACT[0]:
        return and_(kind_is(d, "dict"), ufb("wrapped", d))
    return isinstance(d, dict) and SIG in d and d[SIG] == SECRET


ABSTRACT = [False]


def use_secret_helpers():
    """From here on, is_rpc_secret is known by its contract only."""
    if SYMBOLIC:
        ABSTRACT[0] = True
    use("pulumi.runtime.rpc.is_rpc_secret", wrapped)


def use_deserialize_property():
    use_secret_helpers()
    use("pulumi.runtime.rpc.deserialize_property", contract)


# ------------------------------------------------------------------ what a wire value denotes
def keep(keep_unknowns):
    """Are unknown values kept (as the unknown marker)?"""
    return or_(dry_flag(), bool(keep_unknowns))


DRY = [False]


def dry_flag():
    return DRY[0]


def set_dry(flag):
    DRY[0] = flag
    set_dry_run(flag)


class Den:
    """The deserialized value: the raw value, and whether it is marked secret."""

    def __init__(self, raw, secret):
        self.raw, self.secret = raw, secret


def contract(value, keep_unknowns=None):
    """Contract of deserialize_property for the values inside value."""
    d = ufn("deser", value, keep(keep_unknowns))
    if wrapped(d):
        assume("value" in d)
        assume(len(d) == 2)
        assume(not_(wrapped(d["value"])))
        assume(ufb("clean", d["value"]))
        assume(ufb("hassecret", value))
    else:
        assume(ufb("clean", d))
        assume(not_(ufb("hassecret", value)))
    return d


def den(value, keep_unknowns):
    """One unfolding deep symbolically; natively all the way down."""
    if SYMBOLIC:
        d = contract(value, keep_unknowns)
        if wrapped(d):
            return Den(d["value"], True)
        return Den(d, False)
    return native_den(value, keep_unknowns)


def has_secret(v):
    if SYMBOLIC:
        return ufb("hassecret", v)
    return native_den(v, True).secret


def clean(v):
    """No secret marker anywhere inside the lists and dictionaries of v."""
    if opaque(v):
        return ufb("clean", v)
    if isinstance(v, list):
        return all(clean(x) for x in v)
    if isinstance(v, dict):
        return and_(not_(wrapped(v)), all(clean(x) for x in v.values()))
    return True


def internal(k):
    return k.startswith("__") and k != "__provider"


class Same:
    """Stands for the value exactly as it is (natively: an asset, reference or output, compared by its own contract)."""


def native_den(v, keep_unknowns, keep_internal=False):
    k = keep(keep_unknowns)
    if isinstance(v, str) and v == SENTINEL:
        return Den(UNKNOWN if k else None, False)
    if isinstance(v, struct_pb2.ListValue):
        ds = [native_den(x, keep_unknowns) for x in v]
        return Den([d.raw for d in ds], any(d.secret for d in ds))
    if isinstance(v, struct_pb2.Struct):
        if SIG in v:
            if v[SIG] == SECRET:
                return Den(native_den(v["value"], keep_unknowns).raw, True)
            return Den(native_special(v, keep_unknowns), False)
        ds = {q: native_den(x, keep_unknowns) for q, x in v.items() if keep_internal or not internal(q)}
        ds = {q: d for q, d in ds.items() if d.secret or d.raw is not None}
        return Den({q: d.raw for q, d in ds.items()}, any(d.secret for d in ds.values()))
    return Den(v, False)


def native_special(v, keep_unknowns):
    if v[SIG] == ASSET:
        if "path" in v:
            return pulumi.FileAsset(v["path"])
        return pulumi.StringAsset(v["text"]) if "text" in v else pulumi.RemoteAsset(v["uri"])
    if v[SIG] == ARCHIVE:
        if "assets" in v:
            return pulumi.AssetArchive(native_den(v["assets"], None).raw)
        return pulumi.FileArchive(v["path"]) if "path" in v else pulumi.RemoteArchive(v["uri"])
    if v[SIG] == RESOURCE:
        if "id" in v:
            return native_den(SENTINEL if v["id"] == "" else v["id"], keep_unknowns).raw
        return v["urn"]
    raise Reject()


# ------------------------------------------------------------------ native generators
KEYS = ["a", "b", "value", "__x", "__provider", "__defaults", "_y", "__", "c"]


def wire_json(depth=0):
    r = rand()
    if r.random() < 0.1:
        return SENTINEL
    k = r.randrange(14)
    if k < 3:
        return r.choice([None, True, False, 0.0, 1.5, -2.0])
    if k < 6 or depth > 3:
        return r.choice(["", "s", "t", SECRET, SIG, "__x"])
    if k < 8:
        return [wire_json(depth + 1) for _ in range(r.randrange(4))]
    if k < 11:
        return {q: wire_json(depth + 1) for q in r.sample(KEYS, r.randrange(5))}
    if k < 13:
        return {SIG: SECRET, "value": wire_json(depth + 1)}
    w = r.randrange(4)
    if w == 0:
        return {SIG: ASSET, r.choice(["path", "text", "uri"]): r.choice(["p", "q", ""])}
    if w == 1:
        return {SIG: ARCHIVE, r.choice(["path", "uri"]): r.choice(["p", "q"])}
    if w == 2:
        return {SIG: ARCHIVE, "assets": {q: {SIG: ASSET, "text": "x"} for q in r.sample("abc", r.randrange(3))}}
    d = {SIG: RESOURCE, "urn": "urn:pulumi:s::p::pkg:mod:T::n"}
    if r.random() < 0.5:
        d["id"] = r.choice(["", "i-1"])
    return d


def wire_of(j):
    s = struct_pb2.Struct()
    s.update({"v": j})
    return s["v"]


def struct_of(j):
    s = struct_pb2.Struct()
    s.update(j)
    return s


def wire(name):
    v = sym(name, "any", native=lambda: wire_of(wire_json()))
    assume(kind_is(v, *WIRE))
    return v


def a_struct(name):
    return sym(name, ("struct", "str", "any"), native=lambda: struct_of({q: wire_json(1) for q in rand().sample(KEYS, rand().randrange(6))}))


def keeps():
    return choose("keep_unknowns", [None, False, True])


# ------------------------------------------------------------------ obligations
async def check_secret_helpers():
    """is / wrap / unwrap of secret markers."""
    v = sym("v", "any", native=lambda: rand().choice([1, "x", None, {}, {SIG: SECRET, "value": 3}, {SIG: ASSET}, {"value": 1}, [], {SIG: SECRET}]))
    ensure(iff(is_rpc_secret(v), wrapped(v)), "exactly the tagged dictionaries are secret markers")
    w = wrap_rpc_secret(v)
    ensure(wrapped(w), "wrapping gives a secret marker")
    if wrapped(v):
        ensure(w is v, "an already wrapped value is not wrapped again")
        if "value" in v:
            ensure_same(unwrap_rpc_secret(v), v["value"], "unwrapping gives the value inside")
    else:
        ensure_same(unwrap_rpc_secret(w), v, "unwrapping a wrapped value gives it back")
        ensure_same(unwrap_rpc_secret(v), v, "unwrapping a plain value does nothing")


async def check_property():
    """deserialize_property on every wire value."""
    ku = keeps()
    set_dry(choose("preview", [False, True]))
    use_deserialize_property()
    v = wire("v")
    if not SYMBOLIC:
        r = deserialize_property(v, ku)
        d = native_den(v, ku)
        ensure_same(r, {SIG: SECRET, "value": d.raw} if d.secret else d.raw, "the deserialized value")
        return
    if kind_is(v, "struct"):
        assume(SIG not in v)              # signature-tagged objects: the checks below
    r = root(deserialize_property, v, ku)
    if kind_is(v, "listvalue"):
        ensure_hoisted(r, [den(x, ku).raw for x in v], any(has_secret(x) for x in v), "a list")
    elif kind_is(v, "struct"):
        kept = {k: den(x, ku) for k, x in v.items() if not internal(k) and not_none(x, ku)}
        ensure_hoisted(r, {k: d.raw for k, d in kept.items()}, any(d.secret for d in kept.values()), "a struct")
    elif kind_is(v, "str") and v == SENTINEL:
        if keep(ku):
            ensure(isinstance(r, Unknown), "an unknown sentinel becomes the unknown marker when unknowns are kept")
        else:
            ensure(r is None, "an unknown sentinel is dropped otherwise")
    else:
        ensure_same(r, v, "any other primitive is unchanged")


def not_none(x, ku):
    return contract(x, ku) is not None


def ensure_hoisted(r, raw, secret, what):
    if secret:
        ensure(wrapped(r), what + " holding a secret is marked secret")
        if wrapped(r):
            ensure_same(r["value"], raw, what + ": every entry in place, inner markers removed")
            ensure(len(r) == 2, what + ": a secret marker holds the signature and the value only")
            ensure(clean(r["value"]), what + ": no inner secret marker is left")
    else:
        ensure(not wrapped(r), what + " without secrets is not marked secret")
        ensure_same(r, raw, what + ": every entry in place")
        ensure(clean(r), what + ": no secret marker is left")


async def check_properties():
    """deserialize_properties on an untagged struct, with and without internal keys."""
    ku = keeps()
    ki = choose("keep_internal", [None, False, True])
    set_dry(choose("preview", [False, True]))
    use_deserialize_property()
    s = a_struct("s")
    assume(SIG not in s)
    r = root(deserialize_properties, s, ku, ki)
    if not SYMBOLIC:
        want = {}
        for k, x in s.items():
            d = native_den(x, ku)
            if (ki or not internal(k)) and (d.secret or d.raw is not None):
                want[k] = {SIG: SECRET, "value": d.raw} if d.secret else d.raw
        ensure_same(r, want, "the deserialized properties")
        return
    ensure_same(r, {k: contract(x, ku) for k, x in s.items() if (ki or not internal(k)) and not_none(x, ku)},
                "every kept property under its own key")


async def check_tagged():
    """Signature-tagged structs."""
    ku = keeps()
    set_dry(choose("preview", [False, True]))
    use_deserialize_property()
    what = choose("tag", ["secret", "file asset", "text asset", "remote asset", "file archive", "remote archive", "asset archive", "bad"])
    p = sym("p", "str", native=["", "x", "./f"])
    s = struct_pb2.Struct()
    if what == "secret":
        v = wire("v")
        s.update({SIG: SECRET, "value": v})
        r = deserialize_properties(s, ku)
        if SYMBOLIC:
            d = den(v, ku)
        else:
            d = native_den(v, ku)
        ensure(wrapped(r), "a secret stays a secret")
        if wrapped(r):
            ensure_same(r["value"], d.raw, "the secret's value, inner markers removed")
            ensure(len(r) == 2, "a secret marker holds the signature and the value only")
    elif what == "asset archive":
        v = sym("v", "struct", native=lambda: struct_of({q: {SIG: ASSET, "text": "x"} for q in rand().sample("abc", rand().randrange(3))}))
        if SYMBOLIC:
            assume(assets_only(contract(v, None)))
            assume(assets_only(contract(v, ku)))
        s.update({SIG: ARCHIVE, "assets": v})
        r = deserialize_properties(s, ku)
        ensure(isinstance(r, pulumi.AssetArchive), "an asset archive")
        if SYMBOLIC:
            ensure(or_(eqv(r.assets, contract(v, None)), eqv(r.assets, contract(v, ku))), "an asset archive's assets")
        else:
            ensure_same(r.assets, native_den(v, None).raw, "an asset archive's assets")
    elif what == "bad":
        s.update({SIG: p})
        assume(and_(p != SECRET, p != ASSET, p != ARCHIVE, p != RESOURCE, p != OUTVAL))
        rejected = False
        try:
            deserialize_properties(s, ku)
        except AssertionError:
            rejected = True
        ensure(rejected, "an unknown signature is rejected")
    else:
        cls, sig, field = {"file asset": (pulumi.FileAsset, ASSET, "path"), "text asset": (pulumi.StringAsset, ASSET, "text"),
                           "remote asset": (pulumi.RemoteAsset, ASSET, "uri"), "file archive": (pulumi.FileArchive, ARCHIVE, "path"),
                           "remote archive": (pulumi.RemoteArchive, ARCHIVE, "uri")}[what]
        s.update({SIG: sig, field: p})
        r = deserialize_properties(s, ku)
        ensure(isinstance(r, cls), "an asset or archive of its own kind")
        ensure_same(getattr(r, field), p, "an asset or archive keeps its payload")


def assets_only(d):
    if not isinstance(d, dict) or wrapped(d):
        return False
    return all(isinstance(x, (pulumi.Asset, pulumi.Archive)) for x in d.values()) and all(isinstance(k, str) for k in d)


class Registered:
    """A registered package or module: records what it is asked to construct."""

    def construct_provider(self, name, typ, urn):
        return ("provider", name, typ, urn)

    def construct(self, name, typ, urn):
        return ("resource", name, typ, urn)


async def check_resource_reference():
    """Resource references: constructed from the registered module or package, else the id, else the URN."""
    ku = keeps()
    set_dry(choose("preview", [False, True]))
    urn = sym("urn", "str", native=["u1", "u2"])
    pkg, mod, typn, typ, name = (sym("pkg", "str", native=["p", "pulumi"]), sym("mod", "str", native=["m", "providers"]),
                                 sym("tn", "str", native=["T"]), sym("typ", "str", native=["p:m:T"]), sym("name", "str", native=["n", ""]))
    parts = get("pulumi.urn._UrnParts")(urn_name=name, typ=typ, pkg_name=pkg, mod_name=mod, typ_name=typn)
    version = choose("version", [None, "1.0.0"])
    known = choose("registered", [True, False])
    idv = choose("id", ["none", "empty", "given"])
    ident = sym("ident", "str", native=["i-1", "i-2"])
    assume(and_(ident != "", ident != SENTINEL))
    asked = []

    def parse(u):
        asked.append(("parse", u))
        return parts

    def package(p, v):
        asked.append(("package", p, v))
        return Registered() if known else None

    def module(p, m, v):
        asked.append(("module", p, m, v))
        return Registered() if known else None
    setg("pulumi.urn._parse_urn", parse)
    setg("pulumi.runtime.rpc.get_resource_package", package)
    setg("pulumi.runtime.rpc.get_resource_module", module)
    s = struct_pb2.Struct()
    f = {SIG: RESOURCE, "urn": urn}
    if version is not None:
        f["packageVersion"] = version
    if idv != "none":
        f["id"] = "" if idv == "empty" else ident
    s.update(f)
    r = deserialize_property(s, ku)
    want_v = "" if version is None else version
    ensure_same(asked[0], ("parse", urn), "the reference's URN is parsed")
    provider = and_(pkg == "pulumi", mod == "providers")
    if provider:
        ensure_same(asked[1:], [("package", typn, want_v)], "a provider reference is looked up by package and version")
    else:
        ensure_same(asked[1:], [("module", pkg, mod, want_v)], "a resource reference is looked up by module and version")
    if known:
        ensure_same(r, ("provider" if provider else "resource", name, typ, urn), "the referenced resource is constructed")
    elif idv == "none":
        ensure_same(r, urn, "an unregistered reference without id is its URN")
    elif idv == "given":
        ensure_same(r, ident, "an unregistered reference is its id")
    elif keep(ku):
        ensure(isinstance(r, Unknown), "an unregistered reference with an empty id is unknown")
    else:
        ensure(r is None, "an unregistered reference with an empty id is dropped when unknowns are")


async def check_output_value():
    """Output values: value, knownness, secretness and dependencies."""
    ku = keeps()
    set_dry(choose("preview", [False, True]))
    use("pulumi.runtime.rpc.deserialize_property", contract_plain)
    use_contains_unknowns()
    s = struct_pb2.Struct()
    f = {SIG: OUTVAL}
    has = choose("has value", [True, False])
    v = wire("v")
    sec = choose("secret", ["absent", "true", "false"])
    if has:
        f["value"] = v
    if sec != "absent":
        f["secret"] = sec == "true"
    s.update(f)
    o = deserialize_properties(s, ku)
    ensure(isinstance(o, Output), "an output value becomes an output")
    if SYMBOLIC:
        known = has and not_(hasunk(contract_plain(v, ku)))
    else:
        known = has and not hasunk(native_den(v, ku).raw)
    ensure(iff(await o._is_known, known), "known exactly when the wire carries a known value")
    ensure((await o._is_secret) == (sec == "true"), "secret exactly when the wire says so")
    ensure_same(await o._resources, set(), "no dependencies when the wire lists none")
    if has:
        if SYMBOLIC:
            ensure_same(await o._future, contract_plain(v, ku), "the value")
        else:
            d = native_den(v, ku)
            assume(not d.secret)
            ensure_same(await o._future, d.raw, "the value")
    else:
        ensure((await o._future) is None, "no value")


def contract_plain(value, keep_unknowns=None):
    if kind_is(value, "bool"):
        return value
    return ufn("deser", value, keep(keep_unknowns))


async def check_output_dependencies():
    """The dependencies an output value lists, as dependency resources."""
    set_dry(choose("preview", [False, True]))
    urns = sym("urns", ("listvalue", "str"), native=lambda: wire_of([rand().choice(["u1", "u2", "u3"]) for _ in range(rand().randrange(4))]))
    assume(all(u != SENTINEL for u in urns))
    setg("pulumi.resource.DependencyResource", dep_resource)
    s = struct_pb2.Struct()
    s.update({SIG: OUTVAL, "value": 1.0, "dependencies": urns})
    o = deserialize_properties(s, None)
    ensure_same(await o._resources, set([("dep", u) for u in urns]), "depends on exactly the listed resources")


def dep_resource(urn):
    return ("dep", urn)


HARNESSES = [check_secret_helpers, check_property, check_properties, check_tagged, check_resource_reference, check_output_value,
             check_output_dependencies]
