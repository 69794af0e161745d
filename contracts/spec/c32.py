"""C32: messages are logged once, under their severity, stream and resource."""
import asyncio
from spec.common import *
from pulumi import log
if not SYMBOLIC:
    import contextlib
    import io
    import pulumi
    from pulumi.runtime.proto import engine_pb2
    from pv import note

L = "pulumi.log."
ASSUMPTIONS = ["protobuf messages keep the fields they are given", "a resource's URN by contract (C08)"]
SENT = []
WRITTEN = []
NAMES = ["debug", "info", "warn", "error"]


class LogRequest:
    def __init__(self, severity=None, message=None, urn=None, streamId=None, ephemeral=None):
        self.severity = severity
        self.message = message
        self.urn = urn
        self.streamId = streamId
        self.ephemeral = ephemeral


class Messages:
    DEBUG = "DEBUG"
    INFO = "INFO"
    WARNING = "WARNING"
    ERROR = "ERROR"
    LogRequest = LogRequest


class Engine:
    def Log(self, request):
        SENT.append(request)


def severity(name):
    if SYMBOLIC:
        return {"debug": "DEBUG", "info": "INFO", "warn": "WARNING", "error": "ERROR"}[name]
    return {"debug": engine_pb2.DEBUG, "info": engine_pb2.INFO, "warn": engine_pb2.WARNING, "error": engine_pb2.ERROR}[name]


def send(name, *a, **k):
    if name == "debug":
        return log.debug(*a, **k)
    if name == "info":
        return log.info(*a, **k)
    if name == "warn":
        return log.warn(*a, **k)
    return log.error(*a, **k)


def spec_future(self, with_unknowns=None):
    return later(ufn("URN of", self, result="str"))


async def check_log():
    """With an engine, a message is sent to it once, as it is; the resource's URN comes with it."""
    SENT.clear()
    engine = Engine()
    if SYMBOLIC:
        setg(L + "engine_pb2", Messages())
        use("pulumi.runtime.settings.get_engine", lambda: engine)
        for n in NAMES:
            use(L + n, None)
        use("pulumi.output.Output.future", spec_future)
        schema(RES, urn=("obj", OUT))
    else:
        setg(L + "get_engine", lambda: engine)
    name = choose("severity", NAMES)
    text = sym("message", "str", native=["", "text", "two\nlines", "é {x} %s"])
    how = choose("arguments", ["all", "message only", "resource only"])
    with_resource = choose("resource", [False, True]) if how == "all" else how == "resource only"
    urn = sym("urn", "str", native=["urn:pulumi:s::p::t::n", ""])
    r = None
    if with_resource:
        o = make(OUT, tag="urn") if SYMBOLIC else pulumi.Output.from_input(urn)
        r = make(RES, urn=o) if SYMBOLIC else WithUrn(o)
        if SYMBOLIC:
            urn = ufn("URN of", o, result="str")
    stream = sym("stream", ("opt", "int"), native=[None, 0, 1, 77])
    ephemeral = sym("ephemeral", ("opt", "bool"), native=[None, True, False])
    if how == "all":
        send(name, text, r, stream, ephemeral)
    elif how == "message only":
        stream, ephemeral = None, None
        send(name, text)
    else:
        stream, ephemeral = None, None
        send(name, text, resource=r)
    if SYMBOLIC:
        drain()
    else:
        for _ in range(20):
            await asyncio.sleep(0)
    ensure(len(SENT) == 1, "sent once")
    q = SENT[0]
    ensure(q.severity == severity(name), "under its severity")
    ensure(q.message == text, "the message")
    ensure(q.urn == (urn if with_resource else ""), "for the resource")
    ensure(q.streamId == (0 if stream is None else stream), "in the stream")
    ensure(iff(q.ephemeral, False if ephemeral is None else ephemeral), "ephemeral as asked")


if not SYMBOLIC:
    class WithUrn:
        def __init__(self, o):
            self.urn = o


async def check_without_engine():
    """Without an engine, messages other than debug ones are shown on the standard error stream."""
    if SYMBOLIC:
        return
    setg(L + "get_engine", lambda: None)
    name = choose("severity", NAMES)
    text = sym("message", "str", native=["", "text", "two\nlines", "é {x} %s"])
    out, err = io.StringIO(), io.StringIO()
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
        send(name, text, choose("resource", [None, WithUrn(None)]))
    ensure(out.getvalue() == "", "nothing is printed")
    want = "" if name == "debug" else {"info": "info: ", "warn": "warning: ", "error": "error: "}[name] + text + "\n"
    ensure(err.getvalue() == want, "the message with its severity")


async def check_many_native():
    """Many messages, some of them for resources whose URN comes late: each is sent once, and those of one resource in order."""
    if SYMBOLIC:
        return
    SENT.clear()
    setg(L + "get_engine", lambda: Engine())
    r = rand()
    futures = [asyncio.get_running_loop().create_future() for _ in range(3)]
    urns = [f"urn:pulumi:s::p::t::n{k}" for k in range(3)]
    resources = [WithUrn(pulumi.Output.from_input(f)) for f in futures]
    want = []
    for n in range(r.randrange(1, 9)):
        k = r.randrange(4)
        name = r.choice(NAMES)
        stream, ephemeral = r.choice([None, n]), r.choice([None, True, False])
        send(name, f"m{n}", resources[k] if k < 3 else None, stream_id=stream, ephemeral=ephemeral)
        want.append((severity(name), f"m{n}", urns[k] if k < 3 else "", stream or 0, bool(ephemeral)))
        if r.random() < 0.3:
            await asyncio.sleep(0)
        j = r.randrange(3)
        if r.random() < 0.3 and not futures[j].done():
            futures[j].set_result(urns[j])
    note("messages", want)
    now = [w for w in want if w[2] == ""]
    got = [(q.severity, q.message, q.urn, q.streamId, q.ephemeral) for q in SENT]
    ensure([g for g in got if g[2] == ""] == now, "messages for no resource are sent at once, in order")
    for j in range(3):
        if not futures[j].done():
            futures[j].set_result(urns[j])
    for _ in range(30):
        await asyncio.sleep(0)
    got = [(q.severity, q.message, q.urn, q.streamId, q.ephemeral) for q in SENT]
    ensure(sorted(got) == sorted(want), "every message is sent once")


HARNESSES = [check_log]
NATIVE = [check_without_engine, check_many_native]
BOUNDS = {"check_without_engine": "four messages", "check_many_native": "up to 8 messages for 3 resources"}
