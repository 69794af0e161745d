"""C12: URNs are built from their parts and parsed back."""
from spec.outlib import *
if not SYMBOLIC:
    from pv import note
from pulumi.urn import _parse_urn
from pulumi.resource import urn_type_and_name, create_urn, _parse_resource_reference, DependencyProviderResource

ASSUMPTIONS = ["well-formed parts: no '::' inside, stack and project and type do not begin or end with ':' (the engine's URN.IsValid)"]
POOL = ["a", "a:b", "my-stack", "org/proj", "x.y", "a$b", "été", "A_1"]
TYPES = ["pulumi:pulumi:Stack", "aws:s3/bucket:Bucket", "pulumi:providers:aws", "a:b:c", "my:comp:X"]
NAMES = ["n", "", "my-name", "a:b", ":", "x$y", "a::b", "::", "a:::b", "urn:pulumi:s::p::t::n", "été"]


def part(name, pool=None):
    s = sym(name, "str", native=pool or POOL)
    if SYMBOLIC:
        assume_text(s != "")
        assume_text("::" not in s)
        assume_text(not s.startswith(":"))
        assume_text(not s.endswith(":"))
    return s


def token(name):
    """Part of a type token."""
    s = sym(name, "str", native=["aws", "s3/bucket", "Bucket", "x"])
    if SYMBOLIC:
        assume_text(s != "")
        assume_text(":" not in s)
        assume_text("$" not in s)
    return s


def check_parse():
    """Parsing a URN returns exactly its components."""
    stack, project, name = part("stack"), part("project"), sym("name", "str", native=NAMES)
    shape = choose("type", ["pkg", "pkg:mod", "pkg:mod:name"])
    pkg = token("pkg")
    mod = token("mod") if shape != "pkg" else ""
    typ = token("typ") if shape == "pkg:mod:name" else ""
    t = pkg if shape == "pkg" else pkg + ":" + mod if shape == "pkg:mod" else pkg + ":" + mod + ":" + typ
    q = part("parent types") + "$" + t if choose("parent", [False, True]) else t
    urn = "urn:pulumi:" + stack + "::" + project + "::" + q
    named = choose("named", [True, False])
    r = _parse_urn(urn + "::" + name if named else urn)
    ensure_same(r.urn_name, name if named else "", "the name")
    ensure_same(r.typ, t, "the type without its parents")
    ensure_same(r.pkg_name, pkg, "the package")
    ensure_same(r.mod_name, mod, "the module")
    ensure_same(r.typ_name, typ, "the type name")
    if named:
        n2, t2 = urn_type_and_name(urn + "::" + name)
        ensure_same(n2, name, "urn_type_and_name: the name")
        ensure_same(t2, t, "urn_type_and_name: the type")


def check_malformed():
    """A URN with too few parts is rejected."""
    s = sym("urn", "str", native=["", "urn", ":", "::", "a::b", "urn:pulumi:stack", "urn:pulumi:stack::project", "a:b:c::", "::x", "::::"])
    n = 0
    if SYMBOLIC:
        before, sep, after = s.partition("::")
        assume("::" not in after)
    else:
        assume(len(s.split("::")) < 3)
    try:
        _parse_urn(s)
        ensure(False, "a URN with too few parts is rejected")
    except ValueError:
        ensure(True, "a URN with too few parts is rejected")


STACK = "pulumi:pulumi:Stack"


async def check_create():
    """A URN is built from stack, project, the parent's type, the type and the name, given in whatever form."""
    stack, project = part("stack"), part("project")
    name, typ = sym("name", "str", native=NAMES), token("pkg") + ":" + token("mod") + ":" + token("typ")
    kind = choose("parent", ["none", "defaults", "resource", "urn", "output"])
    use_values()
    setg("pulumi.resource.get_stack", lambda: stack)
    setg("pulumi.resource.get_project", lambda: project)
    if kind == "none":
        r = create_urn(form(name), typ, None, form(project), form(stack))
        prefix = "urn:pulumi:" + stack + "::" + project + "::"
    elif kind == "defaults":
        r = create_urn(name, form(typ))
        prefix = "urn:pulumi:" + stack + "::" + project + "::"
    else:
        q = part("parent type", TYPES) if choose("parent is the stack", [False, True]) is False else STACK
        if SYMBOLIC:
            if q is not STACK:
                assume_text(q != STACK)
        pname = part("parent name")
        base = "urn:pulumi:" + stack + "::" + project + "::"
        purn = base + q + "::" + pname
        prefix = base if q == STACK else base + q + "$"
        if kind == "resource":
            parent = make(CUSTOM, urn=a_known(purn))
        elif kind == "output":
            parent = a_known(purn)
        else:
            parent = purn
        r = create_urn(form(name), typ, parent)
    urn = await value(r)
    ensure_same(urn, prefix + typ + "::" + name, "the URN")
    p = _parse_urn(urn)
    ensure_same(p.urn_name, name, "parsing gives the name back")
    ensure_same(p.typ, typ, "parsing gives the type back")


def form(v):
    """A prompt value or an output of it."""
    return a_known(v) if choose("form", [False, True]) else v


async def check_mock_urn():
    """URNs made by the mock monitor."""
    stack, project, pname = part("stack"), part("project"), part("parent name")
    name, typ, pt = sym("name", "str", native=NAMES), token("pkg") + ":" + token("mod") + ":" + token("typ"), token("parent type")
    setg("pulumi.runtime.mocks.get_stack", lambda: stack)
    setg("pulumi.runtime.mocks.get_project", lambda: project)
    kind = choose("parent", ["none", "plain", "nested"])
    q = pt if kind == "plain" else part("outer types") + "$" + pt
    parent = "" if kind == "none" else "urn:pulumi:" + stack + "::" + project + "::" + q + "::" + pname
    urn = make("pulumi.runtime.mocks.MockMonitor").make_urn(parent, typ, name)
    ensure_same(urn, "urn:pulumi:" + stack + "::" + project + "::" + (typ if kind == "none" else pt + "$" + typ) + "::" + name, "the URN")
    p = _parse_urn(urn)
    ensure_same(p.urn_name, name, "parsing gives the name back")
    ensure_same(p.typ, typ, "parsing gives the type back")


IDS = ["04da6b54-80e4-46f7-96ec-b56ff0331ba9", "id", "", "a:b", "04:", "x y"]


def reference():
    """A provider reference: a provider's URN and id."""
    name, pkg = sym("name", "str", native=NAMES), token("pkg")
    urn = "urn:pulumi:" + part("stack") + "::" + part("project") + "::" + ("pulumi:providers:" if choose("parent", [False, True]) is False else part("parent types") + "$pulumi:providers:") + pkg + "::" + name
    rid = sym("id", "str", native=IDS)
    if SYMBOLIC:
        assume_text("::" not in rid)
        assume_text(not rid.startswith(":"))
    return urn, rid, pkg


def check_reference():
    """A provider reference is taken apart into exactly the provider's URN and id."""
    urn, rid, pkg = reference()
    u, i = _parse_resource_reference(urn + "::" + rid)
    ensure_same(u, urn, "the provider's URN")
    ensure_same(i, rid, "the provider's id")


async def check_reference_resource():
    """The provider made for a reference has the URN, id and package the reference names."""
    urn, rid, pkg = reference()
    if SYMBOLIC:
        use("pulumi.resource._parse_resource_reference", lambda ref: (urn, rid))
    r = DependencyProviderResource(urn + "::" + rid)
    ensure_same(await r.urn.future(), urn, "the provider's URN")
    ensure_same(await r.id.future(), rid, "the provider's id")
    ensure(await r.urn.is_known(), "the URN is known")
    ensure(await r.id.is_known(), "the id is known")
    ensure(not await r.urn.is_secret(), "the URN is not secret")
    ensure(not await r.id.is_secret(), "the id is not secret")
    ensure_same(r.package, pkg, "the provider's package")


HARNESSES = [check_parse, check_malformed, check_create, check_mock_urn, check_reference, check_reference_resource]
NATIVE = []
BOUNDS = {}
