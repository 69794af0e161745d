"""C30: with mocks in place, programs see exactly what their mocks answer."""
import asyncio
from spec.common import *
from pulumi.runtime.mocks import MockMonitor, MockEngine, set_mocks
from pulumi.runtime import mocks as mocks_module
if not SYMBOLIC:
    import pulumi
    import time
    from google.protobuf import struct_pb2, json_format
    from pulumi.runtime.proto import provider_pb2, resource_pb2, engine_pb2
    from pv import note

M = "pulumi.runtime.mocks."
MON = M + "MockMonitor"
ASSUMPTIONS = ["protobuf messages keep the fields they are given",
               "serialize_properties, deserialize_properties and _sync_await by contract (C03, C06, C07)",
               "URNs have the engine's form urn:pulumi:STACK::PROJECT::TYPE::NAME, their parts holding no '::'"]
STATE = {}


class Failure(Exception):
    pass


class Message:
    """A message: its fields."""
    def __init__(self, **fields):
        self.fields = fields


class Messages:
    InvokeResponse = Message
    CheckFailure = Message
    ReadResourceResponse = Message
    RegisterResourceResponse = Message


class Request:
    """A request."""


class TheMocks:
    """Mocks that answer, or fail."""
    def call(self, args):
        STATE["asked"].append(args)
        if STATE["fails"]:
            raise Failure()
        return STATE["answer"]

    def new_resource(self, args):
        STATE["asked"].append(args)
        if STATE["fails"]:
            raise Failure()
        return STATE["id"], STATE["state"]


def spec_sync_await(awaitable):
    return awaitable


def spec_serialize(inputs, property_deps, input_transformer=None, typ=None, keep_output_values=None):
    STATE["serialized"].append(inputs)
    return "serialized"


def spec_deserialize(props_struct, keep_unknowns=None, keep_internal=None):
    ensure(props_struct is STATE["sent"], "what was sent")
    return STATE["inputs"]


def setup():
    STATE["asked"], STATE["serialized"] = [], []
    STATE["fails"] = False
    STATE["sent"], STATE["inputs"] = "sent", sym("inputs", ("dict", "str", "any"))
    STATE["stack"], STATE["project"] = sym("stack", "str"), sym("project", "str")
    use("pulumi.runtime.settings.get_stack", lambda: STATE["stack"])
    use("pulumi.runtime.settings.get_project", lambda: STATE["project"])
    use("pulumi.runtime.sync_await._sync_await", spec_sync_await)
    use("pulumi.runtime.sync_await._ensure_event_loop", lambda: None)
    use("pulumi.runtime.rpc.serialize_properties", spec_serialize)
    use("pulumi.runtime.rpc.deserialize_properties", spec_deserialize)
    setg(M + "provider_pb2", Messages())
    setg(M + "resource_pb2", Messages())
    STATE["registered"] = sym("registered", ("dict", "str", ("obj", MON + ".ResourceRegistration")))
    schema(M + "ResourceRegistration", urn="str", id="any", state="any")
    return make(MON, mocks=TheMocks(), resources=STATE["registered"])


def spec_urn(self, parent, type_, name):
    return ufn("urn", parent, type_, name, result="str")


def field(message, name, default=None):
    f = message.fields
    v = f[name] if name in f else None
    return default if v is None else v


async def check_urn():
    """A URN names the stack, the project, the type below the parent's type, and the name."""
    if not SYMBOLIC:
        return
    m = setup()
    t, n = sym("type", "str"), sym("name", "str")
    parent = choose("parent", ["none", "top", "below"])
    own = sym("type of the parent", "str")
    assume_text(not ("$" in own))
    chain = ""
    if parent == "below":
        above = sym("types above the parent", "str")
        assume_text(not (":" in above))
        chain = above + "$"
    ps, pp, pn = sym("stack of the parent", "str"), sym("project of the parent", "str"), sym("name of the parent", "str")
    assume_text(not (":" in ps))
    assume_text(ps != "")
    assume_text(not (":" in pp))
    assume_text(not (":" in own))
    urn = m.make_urn("" if parent == "none" else "urn:pulumi:" + ps + "::" + pp + "::" + chain + own + "::" + pn, t, n)
    want = t if parent == "none" else own + "$" + t
    ensure(urn == "urn:pulumi:" + STATE["stack"] + "::" + STATE["project"] + "::" + want + "::" + n, "the URN")


async def check_invoke():
    """An invoke asks the mocks once, with what was sent; the answer is theirs."""
    if not SYMBOLIC:
        return
    m = setup()
    STATE["fails"] = choose("the mock fails", [False, True])
    result = sym("result", ("dict", "str", "any"))
    form = choose("answer", ["result", "no failures", "failures", "empty"])
    failures = sym("failures", ("list", ("pair", "str"))) if form == "failures" else [] if form == "empty" else None
    STATE["answer"] = result if form == "result" else (result, failures)
    tok, prov = sym("token", "str"), sym("provider", "str")
    assume(tok != "pulumi:pulumi:getResource")
    before = dict(STATE["registered"])
    req = make("spec.c30.Request", tok=tok, provider=prov, args="sent")
    answer, failed = None, False
    try:
        answer = m.Invoke(req)
    except Failure:
        failed = True
    ensure(len(STATE["asked"]) == 1, "the mocks are asked once")
    a = STATE["asked"][0]
    ensure(a.token == tok and a.provider == prov and a.args is STATE["inputs"], "with the function, the arguments and the provider")
    ensure_same(m.resources, before, "no resource is registered")
    ensure(failed == STATE["fails"], "fails exactly if the mock does")
    if failed:
        return
    ensure(len(STATE["serialized"]) == 1 and STATE["serialized"][0] is result and field(answer, "return") == "serialized", "the mock's result")
    got = field(answer, "failures", [])
    want = failures or []
    ensure(len(got) == len(want), "the mock's failures")
    k = sym("some failure", "int")
    if 0 <= k and k < len(want):
        ensure(field(got[k], "property") == want[k][0] and field(got[k], "reason") == want[k][1], "their properties and reasons")


async def check_get_resource():
    """Resource references resolve to what was registered; the mocks are not asked."""
    if not SYMBOLIC:
        return
    m = setup()
    urn = sym("urn", "str")
    STATE["inputs"] = {"urn": urn}
    req = make("spec.c30.Request", tok="pulumi:pulumi:getResource", provider="", args="sent")
    answer, failed = None, False
    try:
        answer = m.Invoke(req)
    except Exception:
        failed = True
    ensure(len(STATE["asked"]) == 0, "the mocks are not asked")
    ensure(failed == (urn not in m.resources), "fails exactly if no such resource is registered")
    if not failed:
        r = m.resources[urn]
        ensure(len(STATE["serialized"]) == 1 and field(answer, "return") == "serialized", "an answer")
        s = STATE["serialized"][0]
        ensure(len(s) == 3 and s["urn"] == r.urn, "its URN")
        ensure(s["id"] is r.id and s["state"] is r.state, "its id and state")
        ensure(len(field(answer, "failures", [])) == 0, "no failures")


async def check_resource():
    """Registering or reading a resource asks the mocks once, with what was sent; the resource has their id and state."""
    if not SYMBOLIC:
        return
    m = setup()
    use(MON + ".make_urn", spec_urn)
    reading = choose("operation", ["register", "read"]) == "read"
    STATE["fails"] = choose("the mock fails", [False, True])
    STATE["id"], STATE["state"] = sym("id", ("opt", "str")), sym("state", ("dict", "str", "any"))
    t, n, parent, prov, given = sym("type", "str"), sym("name", "str"), sym("parent", "str"), sym("provider", "str"), sym("given id", "str")
    custom = sym("custom", "bool")
    assume(reading or t != "pulumi:pulumi:Stack")
    before = dict(STATE["registered"])
    if reading:
        req = make("spec.c30.Request", type=t, name=n, parent=parent, provider=prov, id=given, properties="sent")
    else:
        req = make("spec.c30.Request", type=t, name=n, parent=parent, provider=prov, importId=given, object="sent", custom=custom)
    answer, failed = None, False
    try:
        answer = m.ReadResource(req) if reading else m.RegisterResource(req)
    except Failure:
        failed = True
    ensure(len(STATE["asked"]) == 1, "the mocks are asked once")
    a = STATE["asked"][0]
    ensure(a.typ == t and a.name == n and a.inputs is STATE["inputs"], "with the type, name and inputs")
    ensure(a.provider == prov and a.resource_id == given, "with the provider and id given")
    if not reading:
        ensure(a.custom == custom, "and whether it is a custom resource")
    ensure(failed == STATE["fails"], "fails exactly if the mock does")
    if failed:
        ensure_same(m.resources, before, "nothing is registered")
        return
    urn = ufn("urn", parent, t, n, result="str")
    ensure(field(answer, "urn") == urn, "the URN")
    ensure(len(STATE["serialized"]) == 1 and STATE["serialized"][0] is STATE["state"], "the mock's state")
    ensure(field(answer, "properties" if reading else "object") == "serialized", "the mock's state is the answer")
    if not reading:
        ensure_same(field(answer, "id"), STATE["id"], "the mock's id")
    k = sym("some URN", "str")
    if k == urn:
        r = m.resources[k]
        ensure(r.urn == urn and r.state is STATE["state"], "the resource is registered under its URN")
        ensure_same(r.id, STATE["id"], "with its id")
    else:
        ensure(iff(k in m.resources, k in before), "no other resource is touched")
        if k in before:
            ensure(m.resources[k] is before[k], "other resources stay")


async def check_stack():
    """The stack is no resource of the mocks'."""
    if not SYMBOLIC:
        return
    m = setup()
    use(MON + ".make_urn", spec_urn)
    n = sym("name", "str")
    before = dict(STATE["registered"])
    answer = m.RegisterResource(make("spec.c30.Request", type="pulumi:pulumi:Stack", name=n, parent="", provider="", importId="", object="sent", custom=False))
    ensure(len(STATE["asked"]) == 0, "the mocks are not asked")
    ensure(field(answer, "urn") == ufn("urn", "", "pulumi:pulumi:Stack", n, result="str"), "its URN")
    ensure_same(m.resources, before, "nothing is registered")


async def check_features():
    """Secrets and resource references are supported, outputs are not passed to mocks."""
    m = MockMonitor(TheMocks())
    f = sym("feature", "str", native=lambda: rand().choice(["secrets", "resourceReferences", "outputValues", "other", ""]))
    ensure(iff(m.SupportsFeature(make("spec.c30.Request", id=f)).hasSupport, f == "secrets" or f == "resourceReferences"), "supported features")


class Logger:
    def debug(self, m):
        STATE["logged"].append(("debug", m))

    def info(self, m):
        STATE["logged"].append(("info", m))

    def warning(self, m):
        STATE["logged"].append(("warning", m))

    def error(self, m):
        STATE["logged"].append(("error", m))


class Severities:
    DEBUG = 0
    INFO = 1
    WARNING = 2
    ERROR = 3


async def check_log():
    """Messages are logged once, with their severity."""
    STATE["logged"] = []
    setg(M + "engine_pb2", Severities())
    level, text = choose("severity", [0, 1, 2, 3]), sym("message", "str")
    e = MockEngine(Logger())
    e.Log(make("spec.c30.Request", severity=level, message=text))
    ensure(len(STATE["logged"]) == 1, "logged once")
    ensure(STATE["logged"][0][0] == ["debug", "info", "warning", "error"][level] and STATE["logged"][0][1] == text, "with its severity")


async def check_set_mocks():
    """Setting mocks configures the program's engine, project, stack and whether it is a preview, and makes a root stack if there is none."""
    if not SYMBOLIC:
        return
    configured, stacks = [], []
    use("pulumi.runtime.settings.configure", lambda settings: configured.append(settings))
    there = sym("root stack there", "bool")
    use("pulumi.runtime.settings.get_root_resource", lambda: "root" if there else None)
    setg(M + "Stack", lambda func: stacks.append(func))
    project, stack, preview = sym("project", ("opt", "str")), sym("stack", ("opt", "str")), sym("preview", ("opt", "bool"))
    logger = sym("logger", ("obj", "spec.c30.Logger"))
    own = choose("monitor given", [False, True])
    the = TheMocks()
    monitor = make(MON, mocks="own") if own else None
    setg(M + "MockSettings", lambda **fields: fields)
    set_mocks(the, project, stack, preview, logger, monitor)
    ensure(len(configured) == 1, "configured once")
    s = configured[0]
    ensure(s["project"] == (project if project is not None else "project"), "the project")
    ensure(s["stack"] == (stack if stack is not None else "stack"), "the stack")
    ensure_same(s["dry_run"], preview, "whether it is a preview")
    ensure(s["engine"].logger is logger, "messages go to the logger")
    if own:
        ensure(s["monitor"] is monitor, "the monitor given")
    else:
        ensure(s["monitor"].mocks is the and len(s["monitor"].resources) == 0, "a monitor that asks the mocks")
    ensure(len(stacks) == (0 if there else 1), "a root stack")


async def check_test_decorator():
    """A test runs the function once with its arguments, waits for its result and for everything started, and leaves nothing behind."""
    if not SYMBOLIC:
        return
    STATE["ran"], STATE["cleared"], STATE["waited"] = [], 0, 0
    outcome = choose("outcome", ["returns", "raises", "output fails", "background failure"])
    a, b = sym("argument", "any"), sym("keyword argument", "any")
    result = sym("result", "any")

    def fn(x, y=None):
        STATE["ran"].append((x, y))
        if outcome == "raises":
            raise Failure()
        return result

    def from_input(v):
        ensure(v is result, "what the function returns")
        return make(OUT, val=v)

    def future(self, with_unknowns=None):
        if outcome == "output fails":
            raise Failure()
        STATE["awaited"] = True
        return later(self.val)

    async def run(func):
        try:
            func()
        finally:
            STATE["waited"] += 1
            ensure(STATE["cleared"] == 0, "what was started is waited for first")
            if outcome == "background failure":
                raise Failure()

    def sync_await(awaitable):
        drain()
        t = asyncio.ensure_future(awaitable)
        drain()
        return t.result()

    class Manager:
        def clear(self):
            STATE["cleared"] += 1
    use("pulumi.output.Output.from_input", from_input)
    use("pulumi.output.Output.future", future)
    setg(M + "run_pulumi_func", run)
    use("pulumi.runtime.sync_await._sync_await", sync_await)
    setg("pulumi.runtime.rpc_manager.RPC_MANAGER", Manager())
    failed = False
    STATE["awaited"] = False
    t = mocks_module.test(fn)
    ensure(len(STATE["ran"]) == 0, "nothing runs before the test does")
    try:
        t(a, y=b)
    except Failure:
        failed = True
    ensure(len(STATE["ran"]) == 1 and STATE["ran"][0][0] is a and STATE["ran"][0][1] is b, "the function runs once")
    ensure(STATE["waited"] == 1 and STATE["cleared"] == 1, "everything is waited for, and cleared")
    ensure(failed == (outcome != "returns"), "the test fails exactly if something does")
    ensure(iff(STATE["awaited"], outcome in ["returns", "background failure"]), "the result is waited for")


if not SYMBOLIC:
    class Answers(pulumi.runtime.Mocks):
        def __init__(self):
            self.asked, self.next = [], None

        def call(self, args):
            self.asked.append(args)
            if isinstance(self.next, Exception):
                raise self.next
            return self.next

        def new_resource(self, args):
            self.asked.append(args)
            if isinstance(self.next, Exception):
                raise self.next
            return self.next

    def some_values():
        r = rand()

        def value(d):
            k = r.randrange(8 if d < 3 else 5)
            if k == 5:
                return [value(d + 1) for _ in range(r.randrange(3))]
            if k > 5:
                return {n: value(d + 1) for n in r.sample(["a", "b", "c"], r.randrange(3))}
            return r.choice([True, False, 0, 1.5, 3, "", "s", "t"])
        return {n: value(0) for n in r.sample(["k", "l", "m", "urn"], r.randrange(4))}

    def struct(v):
        s = struct_pb2.Struct()
        s.update(v)
        return s

    def plain_dict(s):
        return json_format.MessageToDict(s)


async def check_native():
    """A history of requests to the real monitor."""
    if SYMBOLIC:
        return
    import pulumi.runtime.settings as st
    r = rand()
    the = Answers()
    mon = MockMonitor(the)
    stack, project = r.choice(["s", "dev"]), r.choice(["p", "proj"])
    st.configure(st.Settings(project, stack, monitor=mon, dry_run=r.random() < 0.5))
    st.SETTINGS.feature_support = {}
    registered, parents = {}, [""]
    for _ in range(r.randrange(1, 7)):
        op = r.choice(["invoke", "get", "register", "read", "stack"])
        the.asked = []
        v, state = some_values(), some_values()
        prov = r.choice(["", "urn:p::id"])
        before = dict(mon.resources)
        fails = r.random() < 0.15
        note("operation", (op, v, state, fails))
        if op == "get":
            urn = r.choice(list(registered) or ["x"]) if r.random() < 0.8 else "urn:other"
            try:
                a = mon.Invoke(resource_pb2.ResourceInvokeRequest(tok="pulumi:pulumi:getResource", args=struct({"urn": urn})))
            except Exception:
                ensure(urn not in registered, "registered resources can be looked up")
                continue
            ensure(urn in registered and not the.asked, "only registered resources, not asking the mocks")
            got = plain_dict(getattr(a, "return"))
            want = {"urn": urn, "id": registered[urn][0], "state": registered[urn][1]}
            ensure(got == {k: x for k, x in want.items() if x is not None}, f"the resource: {got} {want}")
            continue
        if op == "invoke":
            failures = r.choice([None, [], [("p", "r")], [("p", "r"), ("q", "")]])
            whole = r.random() < 0.4
            the.next = RuntimeError("mock") if fails else state if whole else (state, failures)
            try:
                a = mon.Invoke(resource_pb2.ResourceInvokeRequest(tok="m:f", provider=prov, args=struct(v)))
            except RuntimeError:
                ensure(fails, "the invoke works")
                continue
            ensure(not fails and len(the.asked) == 1, "asked once")
            q = the.asked[0]
            ensure((q.token, q.args, q.provider) == ("m:f", v, prov), f"function, arguments and provider: {q.args} {v}")
            ensure(plain_dict(getattr(a, "return")) == state, "the result")
            ensure([(f.property, f.reason) for f in a.failures] == ([] if whole else list(failures or [])), "the failures")
            ensure(mon.resources == before, "no resource")
            continue
        parent, t, n = r.choice(parents), r.choice(["a:b:C", "d:e:F"]), r.choice(["x", "y", "a::b"])
        if op == "stack":
            parent, t = "", "pulumi:pulumi:Stack"
        ident = r.choice([None, "", "i1", "i2"])
        if op == "read" and ident is None:
            ident = "i3"
        the.next = RuntimeError("mock") if fails and op != "stack" else (ident, state)
        given, custom = r.choice(["", "given"]), r.random() < 0.5
        want_urn = f"urn:pulumi:{stack}::{project}::" + (parent.split("::")[2].split("$")[-1] + "$" if parent else "") + t + "::" + n
        try:
            if op == "read":
                a = mon.ReadResource(resource_pb2.ReadResourceRequest(type=t, name=n, parent=parent, provider=prov, id=given, properties=struct(v)))
            else:
                a = mon.RegisterResource(resource_pb2.RegisterResourceRequest(type=t, name=n, parent=parent, provider=prov, importId=given, custom=custom, object=struct(v)))
        except RuntimeError:
            ensure(fails, "the registration works")
            ensure(mon.resources == before, "nothing is registered")
            continue
        ensure(a.urn == want_urn, f"URN {a.urn} {want_urn}")
        if op == "stack":
            ensure(not the.asked and mon.resources == before, "the stack is no resource of the mocks'")
            continue
        ensure(not fails and len(the.asked) == 1, "asked once")
        q = the.asked[0]
        ensure((q.typ, q.name, q.inputs, q.provider, q.resource_id) == (t, n, v, prov, given), f"type, name, inputs, provider, id: {vars(q)}")
        ensure(plain_dict(a.properties if op == "read" else a.object) == state, "the state")
        if op == "register":
            ensure(q.custom is custom and a.id == (ident or ""), "whether custom; the id")
        registered[a.urn] = (ident, state)
        parents.append(a.urn)
        ensure(set(mon.resources) == set(registered), "exactly the resources registered")


async def check_program_native():
    """A test of a program: what the program sees of its resources and functions, and that failures make the test fail."""
    if SYMBOLIC:
        return
    await in_thread(rand(), False)


async def check_references_native():
    """The same, with resources that refer to other resources of a known class, and an engine that may be slow to look these up."""
    if SYMBOLIC:
        return
    await in_thread(rand(), True)


async def check_lookup_native():
    """The mocks' thread is still looking up a resource that another one refers to when the program waits for what it started."""
    if SYMBOLIC or rand().random() < 0.8:
        return
    await in_thread(rand(), None)


async def in_thread(r, with_references):
    import threading
    problem = []

    def thread():
        try:
            loop = asyncio.new_event_loop()
            asyncio.set_event_loop(loop)
            try:
                waiting_program() if with_references is None else program(r, with_references)
            finally:
                left = asyncio.all_tasks(loop)
                for x in left:
                    x.cancel()
                loop.run_until_complete(asyncio.gather(*left, return_exceptions=True))
                loop.run_until_complete(loop.shutdown_default_executor())
                loop.close()
        except BaseException as e:
            problem.append(e)
    t = threading.Thread(target=thread, daemon=True)
    t.start()
    for _ in range(2000):
        if not t.is_alive():
            break
        await asyncio.sleep(0.002 if _ < 1000 else 0.01)
    ensure(not t.is_alive(), "the test ends")
    if problem:
        raise problem[0]


if not SYMBOLIC:
    class Thing(pulumi.CustomResource):
        def __init__(self, name, k=None, ref=None, opts=None):
            super().__init__("my:mod:Thing", name, {"k": k, "ref": ref, "extra": None}, opts)

    class SlowMonitor(MockMonitor):
        delay = 0.02

        def Invoke(self, request):
            if request.tok == "pulumi:pulumi:getResource":
                time.sleep(self.delay)
            return super().Invoke(request)

    class ThingModule(pulumi.runtime.ResourceModule):
        def version(self):
            return None

        def construct(self, name, typ, urn):
            return Thing(name, opts=pulumi.ResourceOptions(urn=urn))

    MODULES = []

    class Messages_:
        def __init__(self):
            self.seen = []

        def debug(self, m):
            pass

        def info(self, m):
            self.seen.append(("info", m))

        def warning(self, m):
            self.seen.append(("warning", m))

        def error(self, m):
            self.seen.append(("error", m))


def set_up(the, **settings):
    import pulumi.runtime.settings as st
    from pulumi.runtime.rpc_manager import RPC_MANAGER
    if not MODULES:
        MODULES.append(ThingModule())
        pulumi.runtime.register_resource_module("my", "mod", MODULES[0])
    RPC_MANAGER.clear()
    pulumi.runtime.set_mocks(the, **settings)
    st.SETTINGS.feature_support = {}


def waiting_program():
    from pulumi.runtime.mocks import test

    class Slow(pulumi.runtime.Mocks):
        def call(self, args):
            return {}

        def new_resource(self, args):
            if args.name == "slow":
                time.sleep(0.1)
            return args.name + "_id", dict(args.inputs)

    the = Slow()
    monitor = SlowMonitor(the)
    monitor.delay = 0.25
    set_up(the, monitor=monitor)

    @test
    def body():
        base = Thing("base")
        Thing("user", None, base)
        Thing("slow")

    failed = None
    try:
        body()
    except Exception as e:
        failed = e
    ensure(failed is None, f"nothing fails: {failed!r}")


def program(r, with_references):
    import pulumi.runtime.settings as st
    from pulumi.runtime.rpc_manager import RPC_MANAGER
    from pulumi.runtime.mocks import test
    seen = {}

    class Program(pulumi.runtime.Mocks):
        def call(self, args):
            seen[args.token] = args.args
            return {"answer": args.args.get("q")} if r.random() < 0.5 else ({"answer": args.args.get("q")}, r.choice([None, []]))

        def new_resource(self, args):
            seen[args.name] = args
            if args.name == failing:
                raise RuntimeError("mock fails")
            return args.name + "_id", dict(args.inputs, extra=args.name)

    preview, project, stack = r.random() < 0.3, r.choice([None, "pp"]), r.choice([None, "ss"])
    messages = Messages_()
    the = Program()
    set_up(the, project=project, stack=stack, preview=preview, logger=messages, monitor=SlowMonitor(the) if with_references else None)
    ensure((pulumi.get_project(), pulumi.get_stack()) == (project or "project", stack or "stack"), "project and stack")
    ensure(st.is_dry_run() == preview, "preview")
    ensure(st.get_root_resource() is not None, "a root stack")
    n = r.randrange(1, 4)
    failing = r.choice([None, None, f"r{n - 1}"])
    outcome = r.choice(["returns", "returns", "raises", "output fails"])
    finished = []

    def check(args):
        u, i, k, extra, ref = args
        ensure(i == extra + "_id" and u.endswith("::" + extra) and k == want[extra], f"what the mocks answered: {args}")
        ensure((ref is None) == (refs[extra] is None) and isinstance(seen[extra].inputs.get("ref"), (Thing, type(None))), "references are resources, for mocks and program")
        if ref is not None:
            ensure(isinstance(ref, Thing), "of their class")
            return pulumi.Output.all(ref.urn, ref.id, ref.__dict__["extra"]).apply(lambda x: same_ref(extra, x))
        finished.append(extra)

    def same_ref(extra, x):
        n = refs[extra]._name
        ensure(x[0].endswith("::" + n) and x[1] == n + "_id" and x[2] == n, f"the resource referred to: {x}")
        finished.append(extra)

    refs = {}
    want = {f"r{j}": some_values() for j in range(n)}

    @test
    def body(arg, kw=None):
        ensure((arg, kw) == (1, 2), "arguments")
        outs = []
        last = None
        for j in range(n):
            k = want[f"r{j}"]
            refs[f"r{j}"] = ref = r.choice([None, last]) if with_references else None
            last = Thing(f"r{j}", r.choice([k, pulumi.Output.from_input(k), pulumi.Output.secret(k)]), ref,
                         pulumi.ResourceOptions(parent=r.choice([None, last])))
            outs.append(pulumi.Output.all(last.urn, last.id, pulumi.Output.from_input(last.__dict__["k"]), last.__dict__["extra"], last.__dict__["ref"] if ref is not None else None).apply(check))
        pulumi.log.warn("w")
        pulumi.log.error("e", last)
        ensure(pulumi.runtime.invoke("my:mod:fn", {"q": "z"}).value == {"answer": "z"} and seen["my:mod:fn"] == {"q": "z"}, "function")
        if outcome == "raises":
            raise KeyError("test")
        if outcome == "output fails":
            return pulumi.Output.all(*outs).apply(lambda _: 1 / 0)
        return pulumi.Output.all(*outs)

    failed = None
    try:
        body(1, kw=2)
    except Violation:
        raise
    except Exception as e:
        failed = e
    note("program", (n, failing, outcome, preview, failed))
    ensure((failed is not None) == (outcome != "returns" or failing is not None), f"the test fails exactly if something does: {failed!r}")
    if failing is None and outcome == "returns":
        ensure(sorted(finished) == sorted(want), "all callbacks ran")
        ensure(sorted(messages.seen) == [("error", "e"), ("warning", "w")], f"messages: {messages.seen}")
    ensure(len(RPC_MANAGER.rpcs) == 0 and RPC_MANAGER.unhandled_exception is None, "nothing is left behind")


HARNESSES = [check_urn, check_invoke, check_get_resource, check_resource, check_stack, check_features, check_log, check_set_mocks, check_test_decorator]
NATIVE = [check_native, check_program_native, check_references_native, check_lookup_native]
BOUNDS = {"check_native": "histories of up to 6 requests", "check_program_native": "programs of up to 3 resources and one function", "check_references_native": "programs of up to 3 resources", "check_lookup_native": "one program"}
