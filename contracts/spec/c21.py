"""C21: provider lookup and inheritance."""
from spec.common import *
from pulumi.resource import Resource, ResourceOptions, CustomResource, ComponentResource
from pulumi.runtime.resource import convert_providers
from spec.preplib import prepared, reference, PREP
import pulumi.resource
if not SYMBOLIC:
    import warnings
    from pv import note

from spec.preplib import PROV
COMP = "pulumi.resource.ComponentResource"
PKGS = ["aws", "gcp", "my", "random"]

ASSUMPTIONS = ["user-defined resource classes keep get_provider and have no truth value of their own"]


def setup():
    schema(PROV, package="str")
    if not SYMBOLIC:
        warnings.simplefilter("ignore")
        setg("pulumi.log.warn", lambda *a, **k: None)


def a_provider(name):
    p = sym(name, ("obj", PROV), native=new_provider)
    if SYMBOLIC:
        assume(bool(p))
    return p


def new_provider():
    return make(PROV, package=rand().choice(PKGS))


def provider_list(name):
    return sym(name, ("list", ("obj", PROV)), native=lambda: [new_provider() for _ in range(rand().randrange(4))])


def provider_map(name):
    return sym(name, ("dict", "str", ("obj", PROV)), native=some_map)


def some_map():
    ps = [new_provider() for _ in range(rand().randrange(4))]
    return {(p.package if rand().random() < 0.8 else rand().choice(PKGS)): p for p in ps}


def a_package(name):
    return sym(name, "str", native=PKGS + [""])


def given_providers():
    """The providers option, and the same as a mapping."""
    k = choose("providers option", ["none", "list", "map"])
    if k == "none":
        return None, {}
    if k == "list":
        ps = provider_list("providers")
        if SYMBOLIC:
            assume(all(bool(p) for p in ps))
        if not SYMBOLIC and rand().random() < 0.3:
            return tuple(ps), {p.package: p for p in ps}
        return ps, {p.package: p for p in ps}
    ps = provider_map("providers")
    if SYMBOLIC:
        assume(all(bool(p) for p in ps.values()))
    return ps, dict(ps)


def parent_lookup(self, token):
    """Contract of get_provider (check_lookup)."""
    return ufn("lookup", self, token)


async def check_own_and_inherited():
    """The provider of a resource and the providers it passes on."""
    setup()
    pkg = a_package("package")
    if SYMBOLIC:
        assume_text(":" not in pkg)
    odd = choose("token", ["pkg:mod:type", "other"]) == "other"
    ps, given = given_providers()
    explicit = a_provider("explicit") if choose("explicit provider", [False, True]) else None
    inherited = provider_map("inherited")
    parent = make(RES, _providers=inherited) if choose("parent", [False, True]) else None
    if SYMBOLIC:
        use("pulumi.resource.Resource.get_provider", parent_lookup)
    opts = make("pulumi.resource.ResourceOptions", provider=explicit, providers=ps, parent=parent)
    self = make(RES, _providers=inherited if parent is not None else {})
    before_ps = None if ps is None else dict(given)
    before_inherited = dict(inherited)
    t = "odd" if odd else pkg + ":mod:type"
    own, passed = self._get_providers(t, None if odd else pkg, opts)
    if explicit is not None:
        ensure(own is explicit, "an explicit provider comes first")
    elif not odd and pkg != "" and pkg in given:
        ensure(own is given[pkg], "then the entry of the providers option")
    elif parent is not None:
        want = parent.get_provider(t)
        if want:
            ensure(own is want, "then the provider the parent passes on")
        else:
            ensure(not own, "no provider")
    else:
        ensure(own is None, "no provider")
    q = a_package("some package")
    if q in given:
        ok = passed[q] is given[q] if q in passed else False
        if explicit is not None and q == explicit.package:
            ok = or_(ok, passed[q] is explicit if q in passed else False)
        ensure(ok, "every entry of the providers option is passed on")
    elif explicit is not None and q == explicit.package:
        ensure(q in passed and passed[q] is explicit, "the explicit provider is passed on under its own package")
    elif parent is not None and q in inherited:
        ensure(q in passed and passed[q] is inherited[q], "the parent's providers are passed on")
    else:
        ensure(q not in passed, "no other provider")
    ensure_same(inherited, before_inherited, "the parent's providers are unchanged")
    ensure(opts.provider is explicit and opts.providers is ps, "the options are unchanged")
    if ps is not None:
        ensure_same(ps if not isinstance(ps, (list, tuple)) else {p.package: p for p in ps}, before_ps, "the providers option is unchanged")


async def check_lookup():
    """A provider is looked up by the package of the token."""
    setup()
    mine = provider_map("providers")
    r = make(RES, _providers=mine)
    pkg, mod, typ = a_package("package"), sym("module", "str", native=["m", "index", ""]), sym("type", "str", native=["T", ""])
    if SYMBOLIC:
        assume_text(":" not in pkg)
        assume_text(":" not in mod)
        assume_text(":" not in typ)
    form = choose("token", ["three parts", "two parts", "one part", "four parts"])
    if form == "three parts":
        got = r.get_provider(pkg + ":" + mod + ":" + typ)
        if pkg in mine:
            ensure(got is mine[pkg], "the provider of the package")
        else:
            ensure(got is None, "no provider of that package")
    else:
        t = {"two parts": pkg + ":" + typ, "one part": pkg, "four parts": pkg + ":" + mod + ":" + typ + ":x"}[form]
        ensure(r.get_provider(t) is None, "not the token of a resource type")


async def check_convert():
    """All providers of the options by package, the explicit one first."""
    setup()
    ps, given = given_providers()
    explicit = a_provider("explicit") if choose("explicit provider", [False, True]) else None
    got = convert_providers(explicit, ps)
    q = a_package("some package")
    if explicit is not None and q == explicit.package:
        ensure(q in got and got[q] is explicit, "the explicit provider of the package")
    elif q in given:
        ensure(q in got and got[q] is given[q], "the entry of the providers option")
    else:
        ensure(q not in got, "no other provider")


async def check_construct():
    """A resource is registered with its own provider and keeps the providers it passes on; foreign providers are rejected."""
    setup()
    events = []

    def reg(res, ty, name, custom, remote, new_dependency, props, opts, typ=None):
        events.append((res, ty, name, custom, remote, props, opts))

    def read(res, ty, name, props, opts, typ=None):
        events.append((res, ty, name, True, False, props, opts))

    def lookup(res, props, custom, urn, typ=None):
        events.append((res, None, None, custom, False, props, None))
    setg("pulumi.resource.register_resource", reg)
    setg("pulumi.resource.read_resource", read)
    setg("pulumi.resource.get_resource", lookup)
    setg("pulumi.resource.get_root_resource", lambda: None)
    setg("pulumi.resource.all_aliases", lambda *a: [])
    if SYMBOLIC:
        use("pulumi._types.is_input_type", lambda t: False)
    own = a_provider("own") if choose("own provider", [False, True]) else None
    passed = provider_map("passed on")
    asked = []

    def get_providers(self, t, pkg, opts):
        asked.append((t, pkg, opts, self._providers))
        return own, passed
    if SYMBOLIC:
        use("pulumi.resource.Resource._get_providers", get_providers)
    else:
        setg("pulumi.resource.Resource._get_providers", get_providers)
    custom = choose("custom", [False, True])
    remote = not custom and choose("remote", [False, True])
    pkg = a_package("package")
    if SYMBOLIC:
        assume_text(":" not in pkg)
    t = pkg + ":mod:type"
    name = "name"
    inherited = provider_map("inherited")
    protects = choose("protect", [None, False, True])
    parent_protect = sym("parent protect", "bool")
    parent = make(RES, _providers=inherited, _childResources=set(), _protect=parent_protect, _transformations=[]) if choose("parent", [False, True]) else None
    explicit = a_provider("explicit") if choose("explicit provider", [False, True]) else None
    how = choose("state", ["register", "read", "get"])
    urn = "urn:pulumi:s::p::t::n" if how == "get" else None
    id_ = "id" if how == "read" else None
    others = {"other": a_provider("other")} if choose("providers option", [False, True]) else None
    opts = ResourceOptions(provider=explicit, providers=others, parent=parent, protect=protects, urn=urn, id=id_)
    props = {}
    self = make(RES)
    try:
        Resource.__init__(self, t, name, custom, props, opts, remote)
        error = None
    except ValueError as e:
        error = "value"
    except Exception as e:
        error = "other"
    ensure(len(asked) == 1, "the provider is determined once")
    at, ap, ao, am = asked[0]
    ensure(at == t and ap == pkg, "for the type and package of the resource")
    if parent is not None:
        ensure_same(am, inherited, "the parent's providers are inherited")
        ensure_same(parent._childResources, {self}, "the parent knows its child")
    else:
        ensure_same(am, {}, "nothing is inherited")
    ensure(ao.providers is others, "with its own providers")
    ensure(opts.provider is explicit and opts.providers is others and opts.protect is protects, "the options given are unchanged")
    if custom and own is not None and own.package != pkg:
        ensure(error == "value", "a provider of another package is rejected")
        ensure(len(events) == 0, "and nothing is sent")
        return
    if how == "read" and not custom:
        ensure(error == "other" and len(events) == 0, "a component cannot be read")
        return
    ensure(error is None, "the resource is made")
    ensure_same(self._providers, passed, "the providers it passes on")
    ensure(self._provider is (own if custom else None), "its provider")
    want_protect = protects if protects is not None else parent_protect if parent is not None else False
    ensure(self._protect == want_protect, "its protection, the parent's unless given")
    ensure(len(events) == 1, "one request")
    res, ty, nm, cu, rem, pr, op = events[0]
    ensure(res is self and cu == custom, "for this resource")
    if how == "register":
        ensure(ty == t and nm == name and rem == remote, "of its type and name")
    if op is not None:
        ensure(op.provider is own, "the request uses its provider")
        ensure(op.parent is parent, "and its parent")
        if parent is not None:
            ensure(op.protect == want_protect, "and its protection")


async def check_wire():
    """The request refers to the provider of a custom resource, and to every provider of a remote component."""
    if not SYMBOLIC:
        return
    r, res, ty, custom, remote, opts, typed, aliases = await prepared("providers")
    if custom and opts is not None and opts.provider is not None:
        ensure_same(r.provider_ref, reference(opts.provider), "the reference of its provider")
    else:
        ensure(r.provider_ref is None, "no provider reference")
    if remote and opts is not None:
        ensure(len(PREP["converted"]) == 1, "the providers of the options")
        a, b = PREP["converted"][0]
        ensure(a is opts.provider and b is opts.providers, "both the explicit provider and the providers option")
        ensure_same(r.provider_refs, {k: reference(p) for k, p in PREP["all providers"].items()}, "the reference of every provider by package")
    else:
        ensure_same(r.provider_refs, {}, "no references")


HARNESSES = [check_own_and_inherited, check_lookup, check_convert, check_construct, check_wire]
NATIVE = []
BOUNDS = {}
