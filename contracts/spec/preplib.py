"""Preparing a request (prepare_resource) with all its callees by contract."""
from spec.common import *
from pulumi.runtime.resource import prepare_resource
from pulumi.resource import ResourceOptions

R = "pulumi.runtime.resource."
PROV = "pulumi.resource.ProviderResource"
UNKNOWN_ID = "04da6b54-80e4-46f7-96ec-b56ff0331ba9"
PREP = {}
GHOST = {}


def value_of(output):
    return ufn("value of", output)


def prep_future(self, with_unknowns=None):
    return later(value_of(self))


def expansion(deps):
    return ufn("expansion", deps, result=("set", "str"))


async def spec_expand(deps, from_resource):
    ensure(from_resource is GHOST["res"], "dependencies are declared by the resource being registered")
    return expansion(deps)


async def spec_explicit(opts, from_resource):
    PREP["explicit asked"].append((opts, from_resource))
    return PREP["explicit"]


async def spec_serialize(inputs, property_deps, input_transformer=None, typ=None, keep_output_values=None):
    PREP["serialized with"].append((inputs, input_transformer, typ, keep_output_values))
    property_deps.update(PREP["deps"])
    return "serialized"


def spec_convert(provider, providers):
    PREP["converted"].append((provider, providers))
    return PREP["all providers"]


def alias_output(alias):
    return make(OUT, tag=alias)


def alias_value(a):
    return ufn("alias value", a, result="str")


def aliases_inv(done, step, aliases):
    x = GHOST["x"]
    return iff(x in aliases, any(alias_value(a) is x for a in done))


def setup_prepare():
    schema(PROV, urn=("obj", OUT), id=("obj", OUT))
    schema(RES, urn=("obj", OUT), _aliases=("list", "any"))
    PREP["explicit asked"], PREP["serialized with"], PREP["converted"] = [], [], []
    PREP["explicit"] = sym("explicit dependencies", ("set", "str"))
    PREP["deps"] = sym("dependencies of the properties", ("dict", "str", ("list", ("obj", RES))))
    PREP["all providers"] = sym("providers of the options", ("dict", "str", ("obj", PROV)))
    PREP["root"] = None
    GHOST["x"] = sym("some alias", "str")
    use("pulumi.output.Output.future", prep_future)
    use(R + "_resolve_depends_on_urns", spec_explicit)
    use("pulumi.runtime.rpc.serialize_properties", spec_serialize)
    use(R + "_expand_dependencies", spec_expand)
    use(R + "convert_providers", spec_convert)
    use("pulumi.runtime.settings.get_root_resource", lambda: PREP["root"])
    use("pulumi.output.Output.from_input", from_alias)
    invariant("pulumi.runtime.resource.prepare_resource", aliases_inv, 2, aliases=("in", ("list", "str")))


def from_alias(v):
    return make("spec.preplib.AliasOutput", alias=v)


class AliasOutput:
    def future(self, with_unknowns=None):
        return later(alias_value(self.alias))


def reference(p):
    """The reference of a provider: its URN and its id, or the unknown marker."""
    return f"{value_of(p.urn)}::{value_of(p.id) or UNKNOWN_ID}"


class Res:
    """The resource being registered."""

    def translate_input_property(self, prop):
        return prop


async def prepared(focus):
    """Run prepare_resource on arbitrary arguments; the focus says which combinations are told apart."""
    setup_prepare()
    kinds = focus == "providers"
    places = focus == "parent"
    kind = choose("kind", ["custom", "component", "remote component"]) if kinds else choose("kind", ["custom", "remote component"]) if focus == "inputs" else "custom"
    custom, remote = kind == "custom", kind == "remote component"
    explicit = sym("provider", ("obj", PROV)) if kinds and choose("provider given", [False, True]) else None
    parent = sym("parent", ("obj", RES)) if places and choose("parent given", [False, True]) else None
    if places and choose("root resource", [False, True]):
        PREP["root"] = sym("root", ("obj", RES))
    ty = choose("type", ["aws:s3:Bucket", "pulumi:pulumi:Stack"]) if places else "aws:s3:Bucket"
    inputs = focus == "inputs"
    depends = sym("depends on", "any") if inputs and choose("depends on given", [False, True]) else None
    typed = inputs and choose("type metadata", [False, True])
    aliases = sym("aliases", ("list", "any")) if focus == "aliases" else []
    providers = sym("providers option", "any")
    opts = make("pulumi.resource.ResourceOptions", provider=explicit, providers=providers, parent=parent, depends_on=depends)
    given = choose("options given", [True, False])
    res = make("spec.preplib.Res", _aliases=aliases)
    GHOST["res"] = res
    r = await prepare_resource(res, ty, custom, remote, "props", opts if given else None, RES if typed else None)
    return r, res, ty, custom, remote, opts if given else None, typed, aliases
