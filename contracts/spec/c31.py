"""C31: the provider process relays every request to the dynamic provider, and its answer to the engine."""
import asyncio
from spec.common import *
if not SYMBOLIC:
    import grpc
    import importlib.util
    import pulumi.dynamic as dyn
    from google.protobuf import struct_pb2
    from pulumi.dynamic.dynamic import serialize_provider
    from pulumi.runtime import proto
    from pv import note

M = "pulumi.dynamic.__main__."
SERVICER = M + "DynamicResourceProviderServicer"
UNKNOWN_TEXT = "04da6b54-80e4-46f7-96ec-b56ff0331ba9"
ASSUMPTIONS = ["protobuf messages keep the fields they are given",
               "a new event loop runs a coroutine to its end (asyncio)",
               "deserialize_properties and serialize_properties by contract (C06, C03/C04/C05)",
               "get_provider by contract (C24)"]
STATE = {}
ANSWERS = "pulumi.dynamic.dynamic."


class Failure(Exception):
    pass


class Message:
    def __init__(self, **fields):
        self.fields = fields


class Messages:
    UpdateResponse = Message
    CreateResponse = Message
    CheckResponse = Message
    ReadResponse = Message
    ConfigureResponse = Message
    PluginInfo = Message

    class DiffResponse(Message):
        DIFF_UNKNOWN = "unknown"
        DIFF_NONE = "none"
        DIFF_SOME = "some"

    def CheckFailure(self, property=None, reason=None):
        return (property, reason)


class Request:
    def __init__(self, **fields):
        for k in fields:
            setattr(self, k, fields[k])


class Provider:
    """The dynamic provider of a property map: it answers anything, or fails."""

    def __init__(self, of):
        self.of = of

    def answer(self, *asked):
        STATE["asked"].append((self.of,) + asked)
        if STATE["fails"]:
            raise Failure()
        return STATE["answer"]

    def check(self, olds, news):
        return self.answer("check", olds, news)

    def diff(self, ident, olds, news):
        return self.answer("diff", ident, olds, news)

    def create(self, props):
        return self.answer("create", props)

    def read(self, ident, props):
        return self.answer("read", ident, props)

    def update(self, ident, olds, news):
        return self.answer("update", ident, olds, news)

    def delete(self, ident, props):
        return self.answer("delete", ident, props)


def spec_deserialize(props, keep_unknowns=None, keep_internal=None):
    STATE["deserialized"].append((props, keep_unknowns, keep_internal))
    return STATE["values"][props]


async def spec_serialize(inputs, property_deps, input_transformer=None, typ=None, keep_output_values=None):
    ensure(input_transformer is None and typ is None and not keep_output_values, "under their own names")
    STATE["sent"].append(dict(inputs))
    return "serialized"


def spec_get_provider(props):
    return Provider(props)


def a_map(name):
    v = sym(name, ("dict", "str", "any"))
    assume("__provider" in v)
    return v


class EmptyModule:
    def Empty(self):
        return "empty"


def setup():
    setg(M + "proto", Messages())
    setg(M + "empty_pb2", EmptyModule())
    schema(ANSWERS + "CheckFailure", property="str", reason="str")
    use(M + "get_provider", spec_get_provider)
    use("pulumi.runtime.rpc.deserialize_properties", spec_deserialize)
    use("pulumi.runtime.rpc.serialize_properties", spec_serialize)
    STATE["asked"], STATE["deserialized"], STATE["sent"] = [], [], []
    STATE["fails"] = choose("fails", [False, True])
    STATE["values"] = {"olds": a_map("olds"), "news": a_map("news"), "properties": a_map("properties")}
    return Request(id=sym("id", "str"), olds="olds", news="news", properties="properties")


def outcome(f, request):
    """The answer of the servicer; nothing where the provider's failure is passed on."""
    failed = False
    got = None
    try:
        got = f(request, None)
    except Failure:
        failed = True
    ensure(failed == STATE["fails"], "fails exactly if the provider fails")
    ensure(len(STATE["asked"]) == 1, "the provider is asked once")
    if failed:
        ensure(len(STATE["sent"]) == 0, "nothing is answered")
    return got


def sent_is(answered, key):
    """The state sent is what the provider answered together with the serialized provider itself."""
    ensure(len(STATE["sent"]) == 1, "sent once")
    got = STATE["sent"][0]
    k = sym("some property", "str")
    if k == "__provider":
        ensure_same(got[k], key, "with the provider")
    else:
        ensure(iff(k in got, k in answered), "exactly the properties answered")
        if k in answered:
            ensure_same(got[k], answered[k], "each as answered")


def provider_choice(olds, news):
    return olds if isinstance(news["__provider"], Unknown) else news


async def check_check():
    """Checking gives the provider both states and sends its inputs and its failures back."""
    if not SYMBOLIC:
        return
    request = setup()
    olds, news = STATE["values"]["olds"], STATE["values"]["news"]
    key = news["__provider"]
    expected = provider_choice(olds, news)
    failures = sym("failures", ("list", ("obj", ANSWERS + "CheckFailure")))
    inputs = news if choose("inputs", ["same", "own"]) == "same" else sym("inputs", ("dict", "str", "any"))
    answered = dict(inputs)
    STATE["answer"] = make(ANSWERS + "CheckResult", inputs=inputs, failures=failures)
    got = outcome(make(SERVICER).Check, request)
    of, what, o, n = STATE["asked"][0]
    ensure(of is expected and what == "check" and o is olds and n is news, "the provider of the new state, or of the old one where that is unknown")
    ensure(all(d[1] is True for d in STATE["deserialized"]), "unknowns are kept")
    if got is None:
        return
    sent_is(answered, key)
    ensure(got.fields["inputs"] == "serialized", "the inputs")
    ensure_same(got.fields["failures"], [(f.property, f.reason) for f in failures], "every failure")


async def check_diff():
    """Diffing gives the provider both states and sends its answer back."""
    if not SYMBOLIC:
        return
    request = setup()
    olds, news = STATE["values"]["olds"], STATE["values"]["news"]
    expected = provider_choice(olds, news)
    changes = choose("changes", [None, True, False])
    replaces = sym("replaces", ("opt", ("list", "str")))
    stables = sym("stables", ("opt", ("list", "str")))
    delete_first = sym("delete before replace", ("opt", "bool"))
    STATE["answer"] = make(ANSWERS + "DiffResult", changes=changes, replaces=replaces, stables=stables, delete_before_replace=delete_first)
    got = outcome(make(SERVICER).Diff, request)
    of, what, i, o, n = STATE["asked"][0]
    ensure(of is expected and what == "diff" and o is olds and n is news, "the provider of the new state, or of the old one where that is unknown")
    ensure(i == request.id, "the id")
    ensure(all(d[1] is True for d in STATE["deserialized"]), "unknowns are kept")
    if got is None:
        return
    ensure(got.fields.get("changes") == ("unknown" if changes is None else "some" if changes else "none"), "whether there are changes")
    as_given(got.fields.get("replaces"), replaces, "the properties that need a replacement")
    as_given(got.fields.get("stables"), stables, "the properties that never change")
    f = got.fields.get("deleteBeforeReplace")
    ensure(not f if delete_first is None else f == delete_first, "whether to delete first")


def as_given(got, given, what):
    if given is None:
        ensure(got is None or len(got) == 0, what)
    else:
        ensure_same(got, given, what)


async def check_create_update_read():
    """Creating, updating and reading give the provider the state, and send its state and id back."""
    if not SYMBOLIC:
        return
    request = setup()
    olds, news, props = STATE["values"]["olds"], STATE["values"]["news"], STATE["values"]["properties"]
    k = choose("request", ["create", "update", "read"])
    given = news if k == "update" else props
    key = given["__provider"]
    shape = choose("state", ["none", "same", "own"])
    outs = None if shape == "none" else given if shape == "same" else sym("outs", ("dict", "str", "any"))
    answered = {} if shape == "none" else dict(outs)
    ident = sym("its id", "str")
    s = make(SERVICER)
    if k == "create":
        STATE["answer"] = make(ANSWERS + "CreateResult", id=ident, outs=outs)
        got = outcome(s.Create, request)
        ensure(STATE["asked"][0][1] == "create" and STATE["asked"][0][2] is props, "the properties")
    elif k == "update":
        STATE["answer"] = make(ANSWERS + "UpdateResult", outs=outs)
        got = outcome(s.Update, request)
        ensure(STATE["asked"][0][1] == "update" and STATE["asked"][0][2] == request.id, "the id")
        ensure(STATE["asked"][0][3] is olds and STATE["asked"][0][4] is news, "both states")
    else:
        STATE["answer"] = make(ANSWERS + "ReadResult", id=ident, outs=outs)
        got = outcome(s.Read, request)
        ensure(STATE["asked"][0][1] == "read" and STATE["asked"][0][2] == request.id and STATE["asked"][0][3] is props, "the id and the properties")
    ensure(STATE["asked"][0][0] is given, "the provider of the properties")
    if got is None:
        return
    sent_is(answered, key)
    ensure(got.fields["properties"] == "serialized", "its state")
    if k != "update":
        ensure(got.fields["id"] == ident, "its id")


async def check_delete():
    """Deleting asks the provider, and succeeds exactly if the provider does."""
    if not SYMBOLIC:
        return
    request = setup()
    props = STATE["values"]["properties"]
    STATE["answer"] = None
    outcome(make(SERVICER).Delete, request)
    of, what, i, p = STATE["asked"][0]
    ensure(of is props and what == "delete" and i == request.id and p is props, "the provider, the id and the properties")


class Context:
    def __init__(self):
        self.codes = []
        self.details = []

    def set_code(self, c):
        self.codes.append(c)

    def set_details(self, d):
        self.details.append(d)


async def check_others():
    """What a dynamic provider cannot do is refused, and it accepts no secrets."""
    s = make(SERVICER) if SYMBOLIC else MAIN.DynamicResourceProviderServicer()
    if SYMBOLIC:
        setg(M + "proto", Messages())
    k = choose("request", ["CheckConfig", "DiffConfig", "Invoke", "GetSchema", "Configure", "GetPluginInfo"])
    c = Context()
    r = Request(token="t", tok="t") if SYMBOLIC else proto.InvokeRequest(tok="t")
    refused = False
    got = None
    try:
        got = s.CheckConfig(r, c) if k == "CheckConfig" else s.DiffConfig(r, c) if k == "DiffConfig" else s.Invoke(r, c) if k == "Invoke" else \
            s.GetSchema(r, c) if k == "GetSchema" else s.Configure(r, c) if k == "Configure" else s.GetPluginInfo(r, c)
    except Exception:
        refused = True
    ensure(refused == (k in ["CheckConfig", "DiffConfig", "Invoke", "GetSchema"]), "refused exactly if it cannot be done")
    ensure(len(c.codes) == (1 if refused else 0), "with a status")
    if k == "Configure":
        ensure((got.fields["acceptSecrets"] if SYMBOLIC else got.acceptSecrets) is False, "no secrets")


# ------------------------------------------------------------------ native
if not SYMBOLIC:
    class Stop(BaseException):
        pass

    def load_main():
        """The module of the provider process, without its server."""
        spec = importlib.util.find_spec("pulumi.dynamic.__main__")
        m = importlib.util.module_from_spec(spec)

        def server(*a, **k):
            raise Stop()
        old, grpc.server = grpc.server, server
        try:
            spec.loader.exec_module(m)
        except Stop:
            pass
        finally:
            grpc.server = old
        return m
    MAIN = load_main()

    class Mine(dyn.ResourceProvider):
        def __init__(self, tag):
            self.tag = tag

        def _answer(self, *asked):
            STATE["asked"].append((self.tag,) + asked)
            if STATE["fails"]:
                raise Failure()
            a = STATE["answer"]
            return a(*asked) if callable(a) else a

        def check(self, olds, news):
            return self._answer("check", olds, news)

        def diff(self, ident, olds, news):
            return self._answer("diff", ident, olds, news)

        def create(self, props):
            return self._answer("create", props)

        def read(self, ident, props):
            return self._answer("read", ident, props)

        def update(self, ident, olds, news):
            return self._answer("update", ident, olds, news)

        def delete(self, ident, props):
            return self._answer("delete", ident, props)

    class Defaults(dyn.ResourceProvider):
        pass


def plain_value(r, depth=0, unknowns=False):
    k = r.randrange(8)
    if k == 0 and depth < 3:
        return {x: plain_value(r, depth + 1, unknowns) for x in r.sample(["a", "b", "my_key", "__x"], r.randrange(4))}
    if k == 1 and depth < 3:
        return [plain_value(r, depth + 1, unknowns) for _ in range(r.randrange(3))]
    if k == 2 and unknowns:
        return UNKNOWN_TEXT
    return r.choice([None, True, False, 0, 1, 2.5, "", "text", "é"])


def struct_of(d):
    s = struct_pb2.Struct()
    s.update(d)
    return s


def dict_of(s):
    from google.protobuf import json_format
    return json_format.MessageToDict(s)


def state(r, p, unknowns):
    d = {k: plain_value(r, 1, unknowns) for k in r.sample(["a", "b", "c_d", "eF"], r.randrange(4))}
    d["__provider"] = p
    return d


async def check_relay_native():
    """Random requests to random dynamic providers, in the encoding of the protocol."""
    if SYMBOLIC:
        return
    r = rand()
    s = MAIN.DynamicResourceProviderServicer()
    STATE["asked"] = []
    STATE["fails"] = r.random() < 0.15
    p_old, p_new = serialize_provider(Mine("old")), serialize_provider(Mine("new"))
    k = r.choice(["check", "diff", "create", "read", "update", "delete"])
    unknowns = k in ("check", "diff") and r.random() < 0.4
    olds, news = state(r, p_old, False), state(r, p_new, unknowns)
    if unknowns and r.random() < 0.5:
        news["__provider"] = UNKNOWN_TEXT
    note("request", (k, olds, news))
    tag = "old" if news["__provider"] == UNKNOWN_TEXT else "new"
    ident, new_id = r.choice(["", "id-1"]), r.choice(["", "id-2"])
    own = {x: plain_value(r, 1) for x in r.sample(["a", "b", "z_z"], r.randrange(3))}
    shape = r.choice(["none", "same", "own"])
    note("answer", (shape, own, STATE["fails"]))

    def outs(given):
        return None if shape == "none" else given if shape == "same" else dict(own)
    failed, got = False, None
    try:
        got = await asyncio.get_running_loop().run_in_executor(None, call_native, s, k, r, ident, new_id, olds, news, outs, own, shape)
    except Failure:
        failed = True
    ensure(failed == STATE["fails"], "fails exactly if the provider fails")
    ensure(len(STATE["asked"]) == 1, "the provider is asked once")
    asked = STATE["asked"][0]
    ensure(asked[0] == tag, "the provider of the new state, or of the old one where that is unknown")
    ensure(asked[1] == k, "is asked the same")
    want = [olds, news] if k in ("check", "diff", "update") else [news]
    if k in ("diff", "read", "update", "delete"):
        ensure(asked[2] == ident, "the id")
    snaps = STATE["snapshots"]
    ensure(len(snaps) == len(want) and all(without_none(a) == without_none(b) for a, b in zip(snaps, want)), "the properties of the request")
    if failed or k == "delete":
        return
    if k == "diff":
        ch, rep, st, dbr = STATE["diff"]
        ensure(got.changes == (proto.DiffResponse.DIFF_UNKNOWN if ch is None else proto.DiffResponse.DIFF_SOME if ch else proto.DiffResponse.DIFF_NONE), "whether there are changes")
        ensure(list(got.replaces) == (rep or []), "the properties that need a replacement")
        ensure(list(got.stables) == (st or []), "the properties that never change")
        ensure(got.deleteBeforeReplace == bool(dbr), "whether to delete first")
        return
    answered = dict(news if shape == "same" else own if shape == "own" or k == "check" else {})
    answered["__provider"] = news["__provider"]
    sent = dict_of(got.inputs if k == "check" else got.properties)
    ensure(without_none(sent) == without_none(answered), "the state answered, with the provider")
    if k == "check":
        ensure([(f.property, f.reason) for f in got.failures] == STATE["failures"], "every failure")
    elif k != "update":
        ensure(got.id == new_id, "the id answered")


def without_none(v):
    if isinstance(v, dict):
        return {k: without_none(x) for k, x in v.items() if x is not None and k != "__x"}
    if isinstance(v, list):
        return [without_none(x) for x in v]
    return UNKNOWN_TEXT if isinstance(v, Unknown) else v


def call_native(s, k, r, ident, new_id, olds, news, outs, own, shape):
    import copy
    if k == "check":
        STATE["failures"] = [(r.choice(["a", "b"]), r.choice(["bad", ""])) for _ in range(r.randrange(3))]

        def answer(what, o, n):
            STATE["snapshots"] = [copy.deepcopy(o), copy.deepcopy(n)]
            return dyn.CheckResult(n if shape == "same" else dict(own), [dyn.CheckFailure(a, b) for a, b in STATE["failures"]])
        req = proto.CheckRequest(olds=struct_of(olds), news=struct_of(news))
        f = s.Check
    elif k == "diff":
        STATE["diff"] = (r.choice([None, True, False]), r.choice([None, [], ["a"], ["a", "b.c"]]), r.choice([None, [], ["s"], ["s", "t"]]), r.choice([None, True, False]))

        def answer(what, i, o, n):
            STATE["snapshots"] = [copy.deepcopy(o), copy.deepcopy(n)]
            ch, rep, st, dbr = STATE["diff"]
            return dyn.DiffResult(changes=ch, replaces=rep, stables=st, delete_before_replace=dbr)
        req = proto.DiffRequest(id=ident, olds=struct_of(olds), news=struct_of(news))
        f = s.Diff
    elif k == "update":
        def answer(what, i, o, n):
            STATE["snapshots"] = [copy.deepcopy(o), copy.deepcopy(n)]
            return dyn.UpdateResult(outs(n))
        req = proto.UpdateRequest(id=ident, olds=struct_of(olds), news=struct_of(news))
        f = s.Update
    elif k == "create":
        def answer(what, n):
            STATE["snapshots"] = [copy.deepcopy(n)]
            return dyn.CreateResult(new_id, outs(n))
        req = proto.CreateRequest(properties=struct_of(news))
        f = s.Create
    elif k == "read":
        def answer(what, i, n):
            STATE["snapshots"] = [copy.deepcopy(n)]
            return dyn.ReadResult(new_id, outs(n))
        req = proto.ReadRequest(id=ident, properties=struct_of(news))
        f = s.Read
    else:
        def answer(what, i, n):
            STATE["snapshots"] = [copy.deepcopy(n)]
        req = proto.DeleteRequest(id=ident, properties=struct_of(news))
        f = s.Delete
    if STATE["fails"]:
        STATE["fails"] = False
        inner = answer

        def answer(*a):
            inner(*a)
            raise Failure()
        try:
            STATE["answer"] = answer
            return f(req, Context())
        finally:
            STATE["fails"] = True
    STATE["answer"] = answer
    return f(req, Context())


async def check_defaults_native():
    """A provider that defines nothing checks its inputs as they are, reports nothing of a difference, and cannot create."""
    if SYMBOLIC:
        return
    r = rand()
    s = MAIN.DynamicResourceProviderServicer()
    p = serialize_provider(Defaults())
    news = state(r, p, False)
    k = r.choice(["check", "diff", "create", "read", "update", "delete"])
    note("request", (k, news))

    def call():
        if k == "check":
            return s.Check(proto.CheckRequest(olds=struct_of(news), news=struct_of(news)), Context())
        if k == "diff":
            return s.Diff(proto.DiffRequest(id="i", olds=struct_of(news), news=struct_of(news)), Context())
        if k == "create":
            return s.Create(proto.CreateRequest(properties=struct_of(news)), Context())
        if k == "read":
            return s.Read(proto.ReadRequest(id="i", properties=struct_of(news)), Context())
        if k == "update":
            return s.Update(proto.UpdateRequest(id="i", olds=struct_of(news), news=struct_of(news)), Context())
        return s.Delete(proto.DeleteRequest(id="i", properties=struct_of(news)), Context())
    refused, got = False, None
    try:
        got = await asyncio.get_running_loop().run_in_executor(None, call)
    except Exception:
        refused = True
    ensure(refused == (k == "create"), "only creating needs the provider's own code")
    if refused:
        return
    if k == "check":
        ensure(without_none(dict_of(got.inputs)) == without_none(news) and len(got.failures) == 0, "the inputs as they are")
    elif k == "diff":
        ensure(got.changes == proto.DiffResponse.DIFF_UNKNOWN and not got.replaces and not got.deleteBeforeReplace, "nothing known of the difference")
    elif k == "read":
        ensure(got.id == "i" and without_none(dict_of(got.properties)) == without_none(news), "the state as it is")
    elif k == "update":
        ensure(dict_of(got.properties) == {"__provider": p}, "no state of its own")


HARNESSES = [check_check, check_diff, check_create_update_read, check_delete, check_others]
NATIVE = [check_relay_native, check_defaults_native]
BOUNDS = {"check_relay_native": "states of up to 4 properties, 3 levels deep", "check_defaults_native": "states of up to 4 properties"}
