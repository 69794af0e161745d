"""Registering, reading and looking up resources: the operations with all their callees by contract."""
from spec.common import *
from spec.outlib import use_values, known_output
from pulumi.runtime.resource import register_resource, read_resource, get_resource
from pulumi.resource import ResourceOptions

R = "pulumi.runtime.resource."
STATE = {}


def spec_future(self, with_unknowns=None):
    return later(self.val)


class Failure(Exception):
    pass


class PropertyDependencies:
    def __init__(self, urns=None):
        self.urns = urns


class Timeouts:
    def __init__(self):
        self.create = ""
        self.update = ""
        self.delete = ""


class Request:
    """A request message: its fields."""
    PropertyDependencies = PropertyDependencies
    CustomTimeouts = Timeouts

    def __init__(self, **fields):
        self.fields = fields


class Messages:
    RegisterResourceRequest = Request
    ReadResourceRequest = Request
    ResourceInvokeRequest = Request
    RegisterResourceOutputsRequest = Request


class Manager:
    def do_rpc(self, name, operation):
        STATE["operation"] = operation

        async def started():
            return (None, None)
        return started


class Failed:
    reason = "reason"
    property = "property"


class Monitor:
    """The engine: one answer, or a failure."""

    def answer(self, req):
        STATE["requests"].append(req)
        if fails_at("engine"):
            raise Failure("engine")
        return STATE["response"]

    def RegisterResource(self, req):
        return self.answer(req)

    def ReadResource(self, req):
        return self.answer(req)

    def Invoke(self, req):
        return self.answer(req)

    def RegisterResourceOutputs(self, req):
        return self.answer(req)


class Response:
    """The engine's answer to a registration or read."""


class Reply:
    """The engine's answer to a lookup (the field is called 'return')."""


def fails_at(where):
    return STATE["fails"] == where


def spec_output(res):
    log = []
    o = make(OUT, tag="identity")

    def resolve(value, known, secret, exn):
        log.append((value, known, secret, exn))
    STATE["identity"].append((o, log))
    return (resolve, o)


def log_of(res, name):
    o = res.__dict__[name]
    for p, log in STATE["identity"]:
        if p is o:
            return log
    return None


async def spec_prepare(res, ty, custom, remote, props, opts, typ=None):
    if fails_at("preparation"):
        raise Failure("preparation")
    STATE["prepared with"].append((res, ty, custom, remote, props, opts, typ))
    return STATE["prepared"]


def spec_resolve_outputs(res, serialized_props, outputs, deps, resolvers, transform_using_type_metadata=False):
    if fails_at("resolution"):
        raise Failure("resolution")
    STATE["events"].append(("resolved", resolvers, None, res, serialized_props, outputs, deps, transform_using_type_metadata))


def spec_resolve_failed(resolvers, exn):
    STATE["events"].append(("failed", resolvers, exn))


def new_dependency(urn):
    if fails_at("dependencies"):
        raise Failure("dependencies")
    return ufn("dependency", urn, result=("obj", RES))


def setup(fails):
    """All callees by contract; the operation fails at the given point."""
    STATE["fails"], STATE["operation"] = fails, None
    STATE["requests"], STATE["identity"], STATE["events"], STATE["prepared with"] = [], [], [], []
    schema("spec.reglib.PropertyDependencies", urns=("list", "str"))
    use_values()
    STATE["prepared"] = make(R + "ResourceResolverOperations", parent_urn=sym("parent urn", ("opt", "str")), serialized_props="serialized",
                             dependencies=sym("dependencies", ("set", "str")), provider_ref=sym("provider ref", ("opt", "str")),
                             provider_refs=sym("provider refs", ("dict", "str", "str")),
                             property_dependencies=sym("property dependencies", ("dict", "str", ("list", "str"))),
                             aliases=sym("aliases", ("list", "str")))
    use("pulumi.output.Output.future", spec_future)
    setg(R + "resource_pb2", Messages())
    setg(R + "RPC_MANAGER", Manager())
    use(R + "resource_output", spec_output)
    use(R + "prepare_resource", spec_prepare)
    use("pulumi.runtime.rpc.transfer_properties", lambda res, props: "resolvers")
    use("pulumi.runtime.rpc.resolve_outputs", spec_resolve_outputs)
    use("pulumi.runtime.rpc.resolve_outputs_due_to_exception", spec_resolve_failed)
    use("pulumi.resource.create_urn", lambda name, type_, parent=None, project=None, stack=None: known_output("mock urn"))
    use("pulumi.runtime.settings.get_monitor", lambda: STATE["monitor"])
    setg("os.environ", STATE.get("environ", {}))


async def run():
    """The outcome of the operation: None, or its failure."""
    try:
        await STATE["operation"]()
    except Exception as e:
        return e
    return None
