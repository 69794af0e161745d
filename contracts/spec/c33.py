"""C33: an inline program runs with the settings and configuration of its request, and its outcome is the response."""
import asyncio
from spec.common import *
from pulumi.automation._server import LanguageServer
if not SYMBOLIC:
    import contextlib
    import grpc
    import io
    import pulumi
    from pulumi.errors import RunError
    from pulumi.runtime import settings
    from pulumi.runtime.proto import language_pb2
    from pulumi.runtime.rpc_manager import RPC_MANAGER
    from pv import note
from pulumi.errors import RunError as RUN_ERROR

A = "pulumi.automation._server."
ASSUMPTIONS = ["protobuf messages keep the fields they are given",
               "an event loop runs a coroutine to its end, and knows its unfinished tasks (asyncio)",
               "run_in_stack, reset_options, set_all_config and RPC_MANAGER.clear by contract (C23, C14, C22)"]
STATE = {}
EVENTS = []


def times(what):
    return len([e for e in EVENTS if e == what])


class Failure(Exception):
    pass


class RpcFailure(Exception):
    def __init__(self, unavailable):
        self.unavailable = unavailable

    def code(self):
        return "UNAVAILABLE" if self.unavailable else "OTHER"

    def details(self):
        return STATE["details"]


class StatusCode:
    UNAVAILABLE = "UNAVAILABLE"


class Grpc:
    RpcError = RpcFailure
    StatusCode = StatusCode


class Task:
    def __init__(self, n):
        self.n = n

    def cancel(self):
        EVENTS.append("cancel " + self.n)


class Loop:
    def run_until_complete(self, what):
        if isinstance(what, Task):
            EVENTS.append("end " + what.n)
            if STATE["cancelled"]:
                raise asyncio.CancelledError()
            return None
        EVENTS.append("run")
        ensure(what is STATE["coroutine"], "the program's own run")
        k = STATE["outcome"]
        if k == "run error":
            raise STATE["error"]
        if k == "unavailable" or k == "rpc error":
            raise RpcFailure(k == "unavailable")
        if k == "error":
            raise STATE["error"]
        return None

    def close(self):
        EVENTS.append("close")


class Asyncio:
    CancelledError = asyncio.CancelledError

    def new_event_loop(self):
        return STATE["loop"]

    def all_tasks(self, loop=None):
        ensure(loop is STATE["loop"], "the tasks of this run")
        return STATE["tasks"]


class Response:
    def __init__(self):
        self.error = ""


class Messages:
    RunResponse = Response


class Manager:
    def clear(self):
        EVENTS.append("clear")


class Stream:
    def flush(self):
        pass


class Sys:
    def __init__(self):
        self.stdout = Stream()
        self.stderr = Stream()
        self.version_info = (3, 12, 0)


class Traceback:
    def format_exc(self):
        return sym("traceback", "str")


class Request:
    def __init__(self, **fields):
        for k in fields:
            setattr(self, k, fields[k])


def spec_reset(project=None, stack=None, parallel=None, engine_address=None, monitor_address=None, preview=None, organization=None):
    STATE["settings"].append((project, stack, parallel, engine_address, monitor_address, preview, organization))
    EVENTS.append("settings")


def spec_config(config, secret_keys=None):
    STATE["config"].append((config, secret_keys))
    EVENTS.append("config")


def setup(outcome):
    EVENTS.clear()
    STATE["settings"], STATE["config"], STATE["logged"] = [], [], []
    STATE["outcome"] = outcome
    STATE["details"] = sym("details", "str")
    STATE["tasks"] = []
    STATE["loop"] = Loop()
    STATE["message"] = sym("message", "str")
    STATE["error"] = RUN_ERROR(STATE["message"]) if STATE["outcome"] == "run error" else Failure(STATE["message"])
    STATE["coroutine"] = "coroutine"
    setg(A + "asyncio", Asyncio())
    setg(A + "grpc", Grpc())
    setg(A + "language_pb2", Messages())
    setg(A + "RPC_MANAGER", Manager())
    setg(A + "sys", Sys())
    setg(A + "traceback", Traceback())
    use("pulumi.runtime.settings.reset_options", spec_reset)
    use("pulumi.runtime.config.set_all_config", spec_config)
    use(A + "_suppress_unobserved_task_logging", lambda: None)
    use("pulumi.log.error", lambda msg, resource=None, stream_id=None, ephemeral=None: STATE["logged"].append(msg))
    program = sym("program", "any")

    def run_in_stack(p):
        ensure(p is program, "the program")
        ensure(len(STATE["settings"]) == 1, "after the settings")
        return STATE["coroutine"]
    setg(A + "run_in_stack", run_in_stack)
    return make(A + "LanguageServer", program=program)


async def check_run():
    """The program runs once, with the settings and configuration of the request."""
    if not SYMBOLIC:
        return
    server = setup("ok")
    request = Request(args=sym("args", ("list", "str")), project=sym("project", "str"), stack=sym("stack", "str"), monitor_address=sym("monitor", "str"),
                      parallel=sym("parallel", "int"), dryRun=sym("dry run", "bool"), organization=sym("organization", "str"),
                      config=sym("config", ("dict", "str", "str")), configSecretKeys=sym("secret keys", ("list", "str")))
    got = server.Run(request, None)
    ensure(got.error == "", "no error")
    ensure(len(STATE["settings"]) == 1, "configured once")
    project, stack, parallel, engine, monitor, preview, organization = STATE["settings"][0]
    ensure(project == request.project and stack == request.stack and organization == request.organization, "project, stack and organization")
    ensure(parallel == request.parallel and iff(preview, request.dryRun), "parallelism and mode")
    ensure(monitor == request.monitor_address, "the monitor")
    ensure(engine == (request.args[0] if len(request.args) > 0 else ""), "the engine")
    if len(request.config) == 0:
        ensure(len(STATE["config"]) == 0 or len(STATE["config"][0][0]) == 0, "no configuration")
    else:
        ensure(len(STATE["config"]) == 1, "the configuration is set once")
        c, secret_keys = STATE["config"][0]
        ensure_same(c, request.config, "the configuration")
        if len(request.configSecretKeys) == 0:
            ensure(secret_keys is None or len(secret_keys) == 0, "no secret keys")
        else:
            ensure_same(secret_keys, request.configSecretKeys, "the secret keys")
    i = EVENTS.index("run")
    ensure(times("run") == 1 and times("settings") == 1 and "settings" in EVENTS[:i], "the program runs once, configured")
    ensure("config" not in EVENTS[i:], "nothing is configured afterwards")
    ensure("clear" in EVENTS[i:] and times("close") == 1, "nothing is left of it")


async def check_outcome():
    """The failure of a program is logged and is the response's error; nothing is left of it, however it ends."""
    if not SYMBOLIC:
        return
    k = choose("outcome", ["ok", "run error", "unavailable", "rpc error", "error"])
    server = setup(k)
    STATE["cancelled"] = choose("tasks end cancelled", [True, False])
    STATE["tasks"] = [Task("a"), Task("b")] if choose("tasks", [False, True]) else []
    request = Request(args=["engine"], project="p", stack="s", monitor_address="m", parallel=1, dryRun=False, organization="o", config={}, configSecretKeys=[])
    got = server.Run(request, None)
    if k == "ok" or k == "unavailable":
        ensure(got.error == "", "no error")
        ensure(len(STATE["logged"]) == 0, "none is logged")
    else:
        ensure(len(STATE["logged"]) == 1 and STATE["logged"][0] == got.error, "the error is logged")
        if k == "run error":
            ensure(got.error == str(STATE["error"]), "the program's own message")
        elif k == "rpc error":
            ensure(got.error == "RPC error: " + STATE["details"], "the details of the failed RPC")
        else:
            ensure(str(STATE["error"]) in got.error, "the failure")
    i = EVENTS.index("run")
    ensure(times("run") == 1, "the program runs once")
    ensure("clear" in EVENTS[i:], "the outstanding operations are forgotten")
    ensure(times("close") == 1, "the loop is closed")
    if len(STATE["tasks"]) > 0:
        for t in ["a", "b"]:
            ensure("cancel " + t in EVENTS and "end " + t in EVENTS, "every task left is cancelled and ended")
            ensure(EVENTS.index("cancel " + t) < EVENTS.index("end " + t) < EVENTS.index("close"), "before the loop is closed")


# ------------------------------------------------------------------ native
if not SYMBOLIC:
    class RpcProblem(grpc.RpcError):
        def __init__(self, code, details):
            self._c, self._d = code, details

        def code(self):
            return self._c

        def details(self):
            return self._d

    class OwnError(ValueError):
        pass

    class Channel:
        def __init__(self, address):
            self.address = address

        def _method(self, *a, **k):
            f = lambda *x, **y: None
            f.address = self.address
            return f
        unary_unary = unary_stream = stream_unary = stream_stream = _method

    def no_network():
        """Channels to the engine that lead nowhere, but know their address."""
        setg("pulumi.runtime.settings.grpc.insecure_channel", lambda address, options=None: Channel(address))


async def check_run_native():
    """Programs that succeed, fail in several ways and leave tasks behind, run one after the other through the server in one process."""
    if SYMBOLIC:
        return
    r = rand()
    no_network()
    logged = []
    setg("pulumi.log.error", lambda msg, *a, **k: logged.append(msg))

    async def run_in_stack(f):
        try:
            f()
        finally:
            await asyncio.sleep(0)
    setg(A + "run_in_stack", run_in_stack)
    await asyncio.get_running_loop().run_in_executor(None, several, r, logged)


def address(stub):
    for f in vars(stub).values() if stub is not None else []:
        return f.address
    return None


def several(r, logged):
    for n in range(r.randrange(1, 4)):
        one_run(r, logged)


def one_run(r, logged):
    logged.clear()
    left = []
    seen = []
    outcome = r.choice(["ok", "run error", "unavailable", "rpc error", "error"])
    text = r.choice(["it failed", "", "two\nlines", "é {x} %s"])
    tasks = r.randrange(5)
    stubborn = r.random() < 0.5
    req = language_pb2.RunRequest(project=r.choice(["p", "q", ""]), stack=r.choice(["s", "dev"]), args=r.choice([[], ["e:1"], ["e:2", "more"]]), monitor_address=r.choice(["m:1", "m:2"]), dryRun=r.random() < 0.5,
                                  parallel=r.choice([0, 1, 7]), organization=r.choice(["", "org"]),
                                  config=r.choice([{}, {"p:a": "1"}, {"p:a": "1", "q:b": "x"}]))
    if req.config and r.random() < 0.5:
        req.configSecretKeys.append("p:a")
    note("run", (outcome, text, tasks, stubborn, str(req)))

    async def late(delay):
        try:
            await asyncio.sleep(1000)
        except asyncio.CancelledError:
            for _ in range(delay):
                await asyncio.sleep(0.0005)
            left.append("cancelled")
            if not stubborn:
                raise

    def program():
        from pulumi.runtime.config import CONFIG, _SECRET_KEYS
        seen.append((settings.get_project() if req.project else "", settings.get_stack(), settings.is_dry_run(), settings.SETTINGS.parallel,
                     settings.SETTINGS.organization, address(settings.SETTINGS.engine), address(settings.SETTINGS.monitor), dict(CONFIG.get() or {}), sorted(_SECRET_KEYS.get() or [])))
        for _ in range(tasks):
            asyncio.ensure_future(late(r.choice([0, 0, 1, 8])))
        RPC_MANAGER.rpcs.append("x")
        if outcome == "run error":
            raise RunError(text)
        if outcome == "error":
            raise OwnError(text)
        if outcome in ("unavailable", "rpc error"):
            raise RpcProblem(grpc.StatusCode.UNAVAILABLE if outcome == "unavailable" else r.choice([grpc.StatusCode.UNKNOWN, grpc.StatusCode.CANCELLED]), text)
    own = asyncio.new_event_loop()
    closed = []
    real_new = asyncio.new_event_loop

    def new():
        loop = real_new()
        closed.append(loop)
        return loop
    asyncio.new_event_loop = new
    try:
        with contextlib.redirect_stderr(io.StringIO()):
            got = LanguageServer(program).Run(req, None)
    finally:
        asyncio.new_event_loop = real_new
        own.close()
    ensure(len(seen) == 1, "the program runs once")
    project, stack, dry, parallel, organization, engine, monitor, config, secret = seen[0]
    ensure(monitor == req.monitor_address, "the monitor")
    ensure(engine == (req.args[0] if req.args else None), "the engine")
    ensure(project == req.project and stack == req.stack and organization == req.organization, "project, stack and organization")
    ensure(dry == req.dryRun and parallel == req.parallel, "mode and parallelism")
    if req.config:
        ensure(config == dict(req.config), "the configuration")
        if req.configSecretKeys:
            ensure(secret == sorted(req.configSecretKeys), "the secret keys")
    if outcome in ("ok", "unavailable"):
        ensure(got.error == "" and logged == [], "no error")
    else:
        ensure(logged == [got.error], "the error is logged")
        if outcome == "run error":
            ensure(got.error == text, "the program's own message")
        elif outcome == "rpc error":
            ensure(got.error == "RPC error: " + text, "the details of the failed RPC")
        else:
            ensure(text in got.error and "OwnError" in got.error, "the failure, with its traceback")
    ensure(all(x.is_closed() for x in closed) and len(closed) >= 1, "the loop is closed")
    ensure(RPC_MANAGER.rpcs == [] and RPC_MANAGER.unhandled_exception is None, "no operations are left")
    ensure(len(left) == tasks, "every task left is cancelled and ended")
    ensure(not any(not t.done() for x in closed for t in asyncio.all_tasks(x)), "no tasks are left")


async def check_exit_native():
    """Once the program's server has ended, the settings are those of no program."""
    if SYMBOLIC:
        return
    r = rand()
    no_network()
    settings.reset_options(project="p", stack=r.choice(["s", "t"]), preview=True, parallel=3)
    LanguageServer.on_pulumi_exit()
    ensure(settings.SETTINGS.project is None and settings.SETTINGS.stack is None, "no project and stack")
    ensure(not settings.is_dry_run() and settings.SETTINGS.monitor is None, "no preview, no monitor")


HARNESSES = [check_run, check_outcome]
NATIVE = [check_run_native, check_exit_native]
BOUNDS = {"check_run_native": "up to 3 runs in one process, 4 tasks left behind each", "check_exit_native": "one program"}
