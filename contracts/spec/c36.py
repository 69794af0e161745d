"""C36: a program's settings, the engine's features, its errors, and assets are what the program was given."""
import asyncio
from spec.common import *
from pulumi import asset, metadata
from pulumi.errors import RunError
from pulumi.runtime import settings as st
if not SYMBOLIC:
    import pathlib
    import grpc
    from pulumi.runtime.proto import resource_pb2
    from pv import note

S = "pulumi.runtime.settings."
A = "pulumi.asset."
ASSUMPTIONS = ["a setting is an attribute of the settings in force (that it is one per context is checked natively, bounded)",
               "protobuf messages keep the fields they are given"]
ASKED = []
GHOST = {}


class RpcFailure(Exception):
    def __init__(self, code, text):
        self.reason = code
        self.text = text

    def code(self):
        return self.reason

    def details(self):
        return self.text


class StatusCode:
    UNAVAILABLE = "UNAVAILABLE"
    UNIMPLEMENTED = "UNIMPLEMENTED"


class Grpc:
    RpcError = RpcFailure
    StatusCode = StatusCode


class SupportsFeatureRequest:
    def __init__(self, id=None):
        self.id = id


class SupportsFeatureResponse:
    def __init__(self, hasSupport):
        self.hasSupport = hasSupport


class Messages:
    SupportsFeatureRequest = SupportsFeatureRequest


class Monitor:
    def __init__(self, answer, code, text):
        self.answer = answer
        self.failure = code
        self.text = text

    def SupportsFeature(self, req):
        ASKED.append(req.id)
        if self.failure is not None:
            raise RpcFailure(self.failure, self.text)
        return SupportsFeatureResponse(self.answer)


def in_force(**fields):
    """Settings in force, everything not said is absent."""
    s = make(S + "Settings", **fields)
    setg(S + "SETTINGS", s)
    return s


async def check_features():
    """The engine is asked once for each feature; what it answers is what the program sees, from then on."""
    if not SYMBOLIC:
        return
    ASKED.clear()
    setg(S + "grpc", Grpc())
    setg(S + "resource_pb2", Messages())
    feature = symstr("feature")
    answer = sym("answer", "bool")
    known = sym("features asked for before", ("dict", "str", "bool"))
    was_known = feature in known
    before = known[feature] if was_known else None
    code = choose("the engine", [None, "UNIMPLEMENTED", "UNAVAILABLE", "INTERNAL"])
    text = symstr("details")
    monitor = choose("monitor", [Monitor(answer, code, text), None])
    s = in_force(monitor=monitor, feature_support=known)
    outcome = "ok"
    got = None
    try:
        got = await root(st.monitor_supports_feature, feature)
    except RunError as e:
        outcome = "run error"
    except Exception as e:
        outcome = "error"
        ensure(e.args[0] is text, "an error of the engine has its own details")
    if was_known:
        ensure(outcome == "ok" and len(ASKED) == 0, "a feature is asked for once")
        ensure(iff(got, before), "the answer stays what it was")
        return
    if monitor is None:
        ensure(outcome == "ok" and got is False and len(ASKED) == 0, "without an engine no feature is supported")
        ensure(feature not in s.feature_support, "an engine that comes later is asked")
        return
    ensure(len(ASKED) == 1 and ASKED[0] is feature, "the engine is asked for this feature, once")
    if code == "UNAVAILABLE":
        ensure(outcome == "run error", "an engine that has gone away ends the program")
    elif code == "INTERNAL":
        ensure(outcome == "error", "the engine's error is raised")
    else:
        ensure(outcome == "ok", "an answer is not an error")
        ensure(iff(got, code is None and answer), "what the engine answers; an engine that does not know the question supports nothing")
        again = await root(st.monitor_supports_feature, feature)
        ensure(iff(again, got) and len(ASKED) == 1, "a feature is asked for once")
    if outcome != "ok":
        ensure(feature not in s.feature_support, "no answer is remembered where there was none")


async def spec_supports(feature):
    GHOST.setdefault("features", []).append(feature)
    return ufn("supported", feature, result="bool")


async def check_feature_names():
    """Secrets, resource references and output values are the engine's features of that name."""
    if not SYMBOLIC:
        return
    GHOST.clear()
    use(S + "monitor_supports_feature", spec_supports)
    f, name = choose("feature", [(st.monitor_supports_secrets, "secrets"), (st.monitor_supports_resource_references, "resourceReferences"),
                                 (st.monitor_supports_output_values, "outputValues")])
    got = await root(f)
    ensure(GHOST["features"] == [name], "exactly that feature is asked for")
    ensure(iff(got, ufn("supported", name, result="bool")), "the engine's answer")


async def check_errors():
    """An error of the engine reaches the program as one: with its details, or as the engine's end."""
    if not SYMBOLIC:
        return
    setg(S + "grpc", Grpc())
    code = choose("code", ["UNAVAILABLE", "UNIMPLEMENTED", "INTERNAL"])
    text = symstr("details")
    e = root(st.grpc_error_to_exception, RpcFailure(code, text))
    ensure(iff(isinstance(e, RunError), code == "UNAVAILABLE"), "an engine that has gone away ends the program, nothing else does")
    if code != "UNAVAILABLE":
        ensure(e.args[0] is text, "an error of the engine has its own details")
    raised = False
    try:
        root(st.handle_grpc_error, RpcFailure(code, text))
    except Exception as e:
        raised = True
        ensure(iff(isinstance(e, RunError), code == "UNAVAILABLE"), "the same error is raised")
        if code != "UNAVAILABLE":
            ensure(e.args[0] is text, "the same error is raised")
    ensure(raised, "an error is always raised")


async def check_getters():
    """Every question about the settings is answered by the settings in force."""
    if not SYMBOLIC:
        return
    project, stack = sym("project", "any"), sym("stack", "any")
    org = choose("organization", [None, symstr("org")])
    dry = choose("dry run", [None, True, False])
    legacy = choose("legacy", [None, True, False])
    monitor, engine = sym("monitor", "any"), sym("engine", "any")
    in_force(project=project, stack=stack, organization=org, dry_run=dry, legacy_apply_enabled=legacy, monitor=monitor, engine=engine)
    ensure(root(metadata.get_project) is project, "the project")
    ensure(root(metadata.get_stack) is stack, "the stack")
    ensure(root(st.get_monitor) is monitor, "the resource monitor")
    ensure(root(st.get_engine) is engine, "the engine")
    ensure(root(st.is_dry_run) is (dry is True), "a preview, exactly if the settings say so")
    ensure(bool(root(st.is_legacy_apply_enabled)) == (legacy is True), "the legacy behaviour, exactly if the settings say so")
    raised = False
    got = None
    try:
        got = root(metadata.get_organization)
    except Exception as e:
        raised = True
    ensure(iff(raised, org is None), "an unknown organization is an error")
    if not raised:
        ensure(got is org, "the organization")


class Not:
    """Not settings."""


async def check_configure():
    """Settings put in force are in force; nothing else is accepted."""
    if not SYMBOLIC:
        return
    old = in_force()
    new = choose("settings", [make(S + "Settings", project="p"), None, Not(), {}])
    raised = False
    try:
        root(st.configure, new)
    except TypeError:
        raised = True
    good = isinstance(new, st.Settings)
    ensure(iff(raised, not good), "only settings are accepted")
    ensure(st.SETTINGS is (new if good else old), "settings are in force once accepted, and only then")


class Stub:
    def __init__(self, kind, channel):
        self.kind = kind
        self.channel = channel


class Channels:
    def insecure_channel(self, address, options=None):
        return ("channel", address)


class ResourceGrpc:
    def ResourceMonitorStub(self, channel):
        return Stub("monitor", channel)


class EngineGrpc:
    def EngineStub(self, channel):
        return Stub("engine", channel)


async def check_settings():
    """New settings are exactly those asked for: addresses are connected to, clients are used as they are."""
    if not SYMBOLIC:
        return
    setg(S + "grpc", Channels())
    setg(S + "resource_pb2_grpc", ResourceGrpc())
    setg(S + "engine_pb2_grpc", EngineGrpc())
    env = choose("environment", [{}, {"PULUMI_ENABLE_LEGACY_APPLY": "true"}, {"PULUMI_ENABLE_LEGACY_APPLY": "false"}])
    setg("os.environ", env)
    address = symstr("address")
    assume(address != "")
    client = Not()
    monitor = choose("monitor", [None, address, client])
    engine = choose("engine", [None, "", address, client])
    project, stack, org = symstr("project"), symstr("stack"), symstr("organization")
    parallel = sym("parallel", "int")
    dry = choose("dry run", [None, True, False])
    legacy = choose("legacy", [None, True, False])
    s = make(S + "Settings")
    root(s.__init__, project, stack, monitor, engine, parallel, dry, legacy, org)
    ensure(s.project is project and s.stack is stack and s.organization is org, "the names are those given")
    ensure(s.parallel is parallel and s.dry_run is dry, "the options are those given")
    want = (env.get("PULUMI_ENABLE_LEGACY_APPLY") == "true") if legacy is None else legacy
    ensure(s.legacy_apply_enabled is want, "the legacy behaviour is asked for by the program, else by its environment")
    ensure(len(s.feature_support) == 0, "no features are assumed")
    if monitor is address:
        ensure(s.monitor.kind == "monitor" and s.monitor.channel[1] is address, "a client of the resource monitor at that address")
    else:
        ensure(s.monitor is monitor, "the resource monitor given")
    if engine is address:
        ensure(s.engine.kind == "engine" and s.engine.channel[1] is address, "a client of the engine at that address")
    elif engine == "":
        ensure(s.engine is None, "no engine at no address")
    else:
        ensure(s.engine is engine, "the engine given")


def is_archive(x):
    return isinstance(x, asset.Archive)


async def check_assets():
    """An asset or archive of a text, a path or an address is one, unchanged; anything else is refused."""
    cls, field = choose("kind", [("StringAsset", "text"), ("RemoteAsset", "uri"), ("FileAsset", "path"), ("FileArchive", "path"), ("RemoteArchive", "uri")])
    value = choose("value", [symstr("given"), None, 3, b"bytes", ["a"], {"a": "b"}])
    a = make(A + cls)
    raised = False
    try:
        root(a.__init__, value)
    except TypeError:
        raised = True
    ensure(iff(raised, not isinstance(value, str)), "exactly texts are accepted")
    if not raised:
        ensure(getattr(a, field) == value, "the text given, unchanged")
    ensure(isinstance(a, asset.Archive) == cls.endswith("Archive") and isinstance(a, asset.Asset) != cls.endswith("Archive"), "assets are assets, archives are archives")


async def check_archive():
    """An archive of assets and archives by name holds exactly them; anything else is refused."""
    members = {}
    good = True
    for name in ["a", "b"]:
        m = choose(name, ["absent", make(A + "StringAsset", text="t"), make(A + "FileArchive", path="p"), "a text", None])
        if m != "absent":
            members[name] = m
            good = good and (isinstance(m, asset.Asset) or isinstance(m, asset.Archive))
    if choose("a name that is none", [False, True]):
        members[3] = make(A + "StringAsset", text="t")
        good = False
    given = choose("given", [members, None, [], "text"])
    a = make(A + "AssetArchive")
    raised = False
    try:
        root(a.__init__, given)
    except TypeError:
        raised = True
    ensure(iff(raised, given is not members or not good), "only assets and archives by name are accepted")
    if not raised:
        ensure(list(a.assets) == list(members) and all([a.assets[k] is members[k] for k in members]), "exactly those given")


async def check_features_native():
    """The real monitor_supports_feature against an engine that answers, fails, or does not know the question."""
    if SYMBOLIC:
        return
    r = rand()

    class Problem(grpc.RpcError):
        def __init__(self, code, text):
            self.c, self.t = code, text

        def code(self):
            return self.c

        def details(self):
            return self.t

    script = {f: [r.choice([True, False, "UNIMPLEMENTED", "UNAVAILABLE", "INTERNAL", "UNKNOWN"]) for _ in range(9)] for f in ["secrets", "resourceReferences", "outputValues", "other"]}
    asked = []

    class Engine:
        def SupportsFeature(self, req):
            asked.append(req.id)
            a = script[req.id].pop(0)
            if isinstance(a, bool):
                return resource_pb2.SupportsFeatureResponse(hasSupport=a)
            raise Problem(getattr(grpc.StatusCode, a), "details of " + a)
    note("script", {k: list(v) for k, v in script.items()})
    org = r.choice([None, "org", ""])
    given = dict(project=r.choice([None, "p"]), stack=r.choice([None, "s"]), dry_run=r.choice([None, True, False]), organization=org,
                 legacy_apply_enabled=r.choice([None, True, False]), engine=r.choice([None, object()]), parallel=r.choice([None, 0, 7]))

    async def run():
        st.configure(st.Settings(monitor=None, **given))
        ensure(await st.monitor_supports_feature("other") is False, "without an engine no feature is supported")
        ensure(metadata.get_project() == given["project"] and metadata.get_stack() == given["stack"], "the project and stack")
        ensure(st.is_dry_run() is (given["dry_run"] is True), "a preview, exactly if the settings say so")
        ensure(st.is_legacy_apply_enabled() is (given["legacy_apply_enabled"] is True), "the legacy behaviour, exactly if the settings say so")
        ensure(st.get_engine() is given["engine"] and st.get_monitor() is None and st.SETTINGS.parallel == given["parallel"], "the engine")
        try:
            ensure(metadata.get_organization() == org and org is not None, "the organization")
        except Exception as e:
            ensure(org is None, "an unknown organization is an error")
        engine = Engine()
        st.SETTINGS.monitor = engine
        ensure(st.get_monitor() is engine, "the monitor in force")
        answers = {}
        for _ in range(8):
            f = r.choice(list(script))
            n = len(asked)
            expected = None if f in answers else script[f][0]
            try:
                got = await {"secrets": st.monitor_supports_secrets, "resourceReferences": st.monitor_supports_resource_references,
                             "outputValues": st.monitor_supports_output_values}.get(f, lambda: st.monitor_supports_feature(f))()
            except RunError:
                ensure(expected == "UNAVAILABLE", "only an engine that has gone away ends the program")
                continue
            except Exception as e:
                ensure(expected in ("INTERNAL", "UNKNOWN"), "an answer is not an error")
                ensure(str(e) == "details of " + expected, "an error of the engine has its own details")
                continue
            if f in answers:
                ensure(got is answers[f] and len(asked) == n, "a feature is asked for once")
                continue
            ensure(asked[n:] == [f], "the engine is asked for this feature, once")
            ensure(expected in (True, False, "UNIMPLEMENTED"), "an error of the engine is one")
            ensure(got is (expected is True), "what the engine answers; an engine that does not know the question supports nothing")
            answers[f] = got
        bad = r.choice([None, {}, "settings", object()])
        try:
            st.configure(bad)
            ensure(False, "only settings are accepted")
        except TypeError:
            pass
        old = st.SETTINGS
        st.set_root_resource("root")
        ensure(st.get_root_resource() == "root", "the root resource")
        mon, eng = r.choice([None, "127.0.0.1:9"]), r.choice([None, "", "127.0.0.1:8"])
        st.reset_options(project="np", stack="ns", parallel=3, engine_address=eng, monitor_address=mon, preview=given["dry_run"], organization="no")
        ensure(st.get_root_resource() is None, "a new run has no root resource")
        ensure(st.SETTINGS is not old and (st.get_project(), st.get_stack(), st.get_organization(), st.SETTINGS.parallel) == ("np", "ns", "no", 3), "a new run's settings")
        ensure(st.is_dry_run() is (given["dry_run"] is True), "a new run's settings")
        ensure(type(st.get_monitor()).__name__ == ("ResourceMonitorStub" if mon else "NoneType"), "a new run's monitor")
        ensure(type(st.get_engine()).__name__ == ("EngineStub" if eng else "NoneType"), "a new run's engine")
        ensure(list(st.SETTINGS.feature_support.fget() if hasattr(st.SETTINGS.feature_support, "fget") else st.SETTINGS.feature_support) == [], "a new run assumes no features")
    await run()


async def check_settings_native():
    """Settings from clients, addresses and the environment."""
    if SYMBOLIC:
        return
    import os
    r = rand()
    addresses = []
    setg(S + "grpc.insecure_channel", lambda address, options=None: addresses.append((address, dict(options or []))) or type("Channel", (), {"unary_unary": lambda self, *a, **k: None, "unary_stream": lambda self, *a, **k: None, "stream_stream": lambda self, *a, **k: None, "stream_unary": lambda self, *a, **k: None})())
    env = r.choice([None, "true", "false", "1"])
    legacy = r.choice([None, True, False])
    client, engine_client = object(), object()
    monitor, engine = r.choice([None, "m:1", client]), r.choice([None, "", "e:2", engine_client])
    note("settings", (env, legacy, str(monitor), str(engine)))
    saved = os.environ.pop("PULUMI_ENABLE_LEGACY_APPLY", None)
    try:
        if env is not None:
            os.environ["PULUMI_ENABLE_LEGACY_APPLY"] = env
        s = st.Settings("p", "s", monitor, engine, 4, True, legacy, "o")
    finally:
        os.environ.pop("PULUMI_ENABLE_LEGACY_APPLY", None)
        if saved is not None:
            os.environ["PULUMI_ENABLE_LEGACY_APPLY"] = saved
    st.configure(s)
    ensure((s.project, s.stack, s.parallel, s.dry_run, s.organization) == ("p", "s", 4, True, "o"), "the settings given")
    ensure(s.legacy_apply_enabled is (env == "true" if legacy is None else legacy), "the legacy behaviour")
    ensure([a for a, _ in addresses] == [x for x in (monitor, engine) if isinstance(x, str) and x], "exactly the addresses given are connected to")
    ensure(all([o.get("grpc.max_receive_message_length", 0) >= 400 * 1024 * 1024 for _, o in addresses]), "large messages are received")
    ensure(type(s.monitor).__name__ == "ResourceMonitorStub" if isinstance(monitor, str) else s.monitor is monitor, "the monitor")
    ensure(type(s.engine).__name__ == "EngineStub" if engine == "e:2" else s.engine is (engine or None), "the engine")


async def check_contexts_native():
    """Programs running concurrently in contexts of their own, each with its own settings and configuration, see their own only."""
    if SYMBOLIC:
        return
    from pulumi.runtime import config as rc
    r = rand()
    # The first settings of a process are the default everywhere: give them, as starting the first program does.
    st.configure(st.Settings("first", "first", monitor=object(), engine=object(), parallel=1, dry_run=False, legacy_apply_enabled=False, organization="first"))
    shared = st.SETTINGS

    async def program(n):
        mine = {"project": f"p{n}", "stack": f"s{n}", "dry_run": r.random() < 0.5, "organization": f"o{n}", "parallel": n + 1, "monitor": object(), "engine": object()}
        order = list(mine)
        r.shuffle(order)
        for k in order:
            setattr(shared, k, mine[k])
            await asyncio.sleep(0)
        rc.set_all_config({"p:k": f"v{n}"}, [f"p:secret{n}"])
        st.set_root_resource(f"root{n}")
        shared.feature_support = {}
        for _ in range(4):
            await asyncio.sleep(0)
            for k in order:
                ensure(getattr(shared, k) is mine[k], "a program sees its own settings")
            ensure((st.get_project(), st.get_stack(), st.is_dry_run(), st.get_monitor()) == (mine["project"], mine["stack"], mine["dry_run"], mine["monitor"]), "a program sees its own settings")
            ensure(st.get_root_resource() == f"root{n}", "a program sees its own root resource")
            ensure(rc.CONFIG.get() == {"p:k": f"v{n}"} and rc._SECRET_KEYS.get() == {f"p:secret{n}"}, "a program sees its own configuration")
            if r.random() < 0.3:
                k = r.choice(["project", "stack", "dry_run"])
                mine[k] = True if k == "dry_run" else mine[k] + "'"
                setattr(shared, k, mine[k])
                if k == "dry_run":
                    ensure(st.is_dry_run(), "a setting that is changed has changed")
            shared.feature_support[f"f{n}"] = True
            ensure([f"f{m}" in shared.feature_support for m in range(4)] == [m == n for m in range(4)], "a program sees its own engine's features")
    await asyncio.gather(*[asyncio.ensure_future(program(n)) for n in range(4)])


async def check_assets_native():
    """Every constructor of assets and archives with texts, paths and other things."""
    if SYMBOLIC:
        return
    r = rand()
    cls = r.choice([asset.StringAsset, asset.RemoteAsset, asset.FileAsset, asset.FileArchive, asset.RemoteArchive])
    value = r.choice(["", "t", "./a b", pathlib.Path("a/b"), None, 3, b"b", ["a"], {}, asset.StringAsset("x")])
    note("asset", (cls.__name__, repr(value)))
    accepted = isinstance(value, str) or (cls is asset.FileAsset and isinstance(value, pathlib.Path))
    try:
        a = cls(value)
        ensure(accepted, "anything else is refused")
        ensure(list(a.__dict__.values()) == [str(value)], "exactly what is given")
    except TypeError:
        ensure(not accepted, "a text or path is accepted")
    pool = [asset.StringAsset("s"), asset.FileAsset("f"), asset.FileArchive("fa"), asset.AssetArchive({}), None, "s", 3]
    members = {r.choice(["a", "b", "c", "d", "", 1 if r.random() < 0.1 else "e"]): r.choice(pool if r.random() < 0.2 else pool[:4]) for _ in range(r.randrange(4))}
    given = r.choice([members, members, members, list(members), None, "s"])
    good = given is members and all(isinstance(k, str) and v in pool[:4] for k, v in members.items())
    note("members", repr(given))
    try:
        a = asset.AssetArchive(given)
        ensure(good, "only assets and archives by name are accepted")
        ensure(list(a.assets.items()) == list(members.items()), "exactly those given")
    except TypeError:
        ensure(not good, "assets and archives by name are accepted")


HARNESSES = [check_features, check_feature_names, check_errors, check_getters, check_configure, check_settings, check_assets, check_archive]
NATIVE = [check_assets, check_archive, check_features_native, check_settings_native, check_contexts_native, check_assets_native]
BOUNDS = {"check_features_native": "random scripts of an engine's answers and failures",
          "check_settings_native": "random settings",
          "check_contexts_native": "four programs at once, random settings",
          "check_assets_native": "random values and members"}
