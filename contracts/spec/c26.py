"""C26: automation operations hand every option to the engine, and clean up."""
from spec.common import *
from pulumi.automation._stack import Stack, StackInitMode, UpdateSummary, _parse_extra_args
from pulumi.automation._cmd import CommandResult, _run_pulumi_cmd
from pulumi.automation._local_workspace import LocalWorkspace
from pulumi.automation.errors import CommandError, StackAlreadyExistsError

T = "pulumi.automation._stack."
L = "pulumi.automation._local_workspace."
ASSUMPTIONS = ["option values do not start with '-'", "the event watcher's thread runs while the command does",
               "grpc, threading, tempfile and subprocess do what they are documented to"]
GHOST = {}


def stub(q, f):
    if SYMBOLIC:
        use(q, f)
    else:
        setg(q, f)


def option(args, name):
    """The values given to an option on a command line."""
    return [args[n + 1] for n in range(len(args) - 1) if args[n] == name]


def text(name):
    s = sym(name, "str", native=["x", "y", "some text", "a=b"])
    assume(s != "")
    assume(not s.startswith("-"))
    return s


# ------------------------------------------------------------------------------------------ options
VALUES = [("message", "--message"), ("color", "--color"), ("tracing", "--tracing")]
FLAGS = [("expect_no_changes", "--expect-no-changes"), ("diff", "--diff"), ("target_dependents", "--target-dependents"),
         ("log_flow", "--logflow"), ("log_to_std_err", "--logtostderr"), ("debug", "--debug")]
LISTS = [("replace", "--replace"), ("target", "--target"), ("policy_packs", "--policy-pack"), ("policy_pack_configs", "--policy-pack-config")]
NUMBERS = [("parallel", "--parallel"), ("log_verbosity", "--verbose")]


async def check_value_options():
    """Each option with a value is handed on with it, exactly if it is given."""
    given = {o: (text(o) if choose(o + " given", [True, False]) else choose_absent(o)) for o, f in VALUES}
    args = root(_parse_extra_args, **given)
    for o, f in VALUES:
        ensure_same(option(args, f), [given[o]] if given[o] else [], "an option is handed on exactly if it is given")
    ensure(len(args) == 2 * len([1 for o, f in VALUES if given[o]]), "and nothing else is")


def choose_absent(o):
    return choose("how " + o + " is absent", [None, ""])


async def check_number_options():
    """Each number is handed on as text, exactly if it is given."""
    given = {}
    for o, f in NUMBERS:
        n = sym(o, "int", native=[1, 2, 7, 100])
        assume(n > 0)
        given[o] = n if choose(o + " given", [True, False]) else None
    args = root(_parse_extra_args, **given)
    for o, f in NUMBERS:
        ensure_same(option(args, f), [str(given[o])] if given[o] is not None else [], "a number is handed on as text, exactly if it is given")
    ensure(len(args) == 2 * len([1 for o, f in NUMBERS if given[o]]), "and nothing else is")


async def check_flags():
    """Each flag is handed on exactly if it is set."""
    given = {o: choose(o, [True, False] if n % 2 == 0 else [True, None]) for n, (o, f) in enumerate(FLAGS)}
    args = root(_parse_extra_args, **given)
    for o, f in FLAGS:
        ensure(iff(f in args, given[o] is True), "a flag is handed on exactly if it is set")
    ensure(len(args) == len([1 for o, f in FLAGS if given[o]]), "and nothing else is")


async def check_list_options():
    """Each element of a list of values is handed on, in order, each with the option."""
    o, f = choose("option", LISTS)
    values = sym("values", ("list", "str"))
    args = root(_parse_extra_args, **{o: values})
    ensure_same(args, [x for v in values for x in [f, v]], "each of the values, in order")


async def check_all_options_native():
    """Any combination of options."""
    r = rand()
    given = {}
    for o, f in VALUES:
        given[o] = r.choice([None, "", "x y", "z"])
    for o, f in NUMBERS:
        given[o] = r.choice([None, 1, 9, 2147483647])
    for o, f in FLAGS:
        given[o] = r.choice([None, False, True])
    for o, f in LISTS:
        given[o] = r.choice([None, [], ["a"], ["a", "b", "a"]])
    note("options", given)
    args = _parse_extra_args(**given)
    ensure(all(type(a) is str for a in args), "a command line is text")
    expected = 0
    for o, f in VALUES + NUMBERS:
        want = [str(given[o])] if given[o] else []
        ensure(option(args, f) == want, f"{o}: {args}")
        expected += 2 * len(want)
    for o, f in FLAGS:
        ensure((f in args) == bool(given[o]), f"{o}: {args}")
        expected += 1 if given[o] else 0
    for o, f in LISTS:
        ensure(option(args, f) == (given[o] or []), f"{o}: {args}")
        expected += 2 * len(given[o] or [])
    ensure(len(args) == expected, f"nothing else: {args}")


# ------------------------------------------------------------------------------------------ operations
class Thread:
    """threading.Thread"""

    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, daemon=None):
        self.target = target
        self.args = args
        self.kwargs = kwargs or {}
        self.events = []
        GHOST["threads"].append(self)

    def start(self):
        self.events.append("start")
        self.target(*self.args, **self.kwargs)

    def join(self, timeout=None):
        self.events.append("join")


class Threading:
    Thread = Thread


class Server:
    """A gRPC server."""

    def __init__(self):
        self.events = []
        GHOST["servers"].append(self)

    def add_insecure_port(self, address):
        ensure(address == "127.0.0.1:0", "a local server")
        self.events.append("port")
        return GHOST["port"]

    def start(self):
        self.events.append("start")

    def stop(self, grace):
        self.events.append("stop")


class Grpc:
    def server(self, pool, options=None):
        return Server()


class Futures:
    def ThreadPoolExecutor(self, max_workers=None):
        return "pool"


class Program:
    """The language server of an inline program."""

    def __init__(self, program):
        self.program = program
        self.exited = 0
        GHOST["programs"].append(self)

    def on_pulumi_exit(self):
        self.exited += 1


class Services:
    def add_LanguageRuntimeServicer_to_server(self, servicer, server):
        GHOST["served"].append((servicer, server))


class Directory:
    def __init__(self):
        self.cleaned = 0

    def cleanup(self):
        self.cleaned += 1


class Event:
    def __init__(self, summary):
        self.summary_event = summary
        self.cancel_event = None


class Summary:
    def __init__(self, changes):
        self.resource_changes = changes


class Failure(Exception):
    pass


def log_file(command):
    GHOST["logs"].append((command, Directory()))
    return "the log", GHOST["logs"][-1][1]


def watch(filename, callback):
    """The watcher: it reports the events of the log while the command runs."""
    GHOST["watched"].append((filename, callback))


def extra_args(**kwargs):
    GHOST["options"] = kwargs
    return ["--an-option", GHOST["extra"]]


def run(self, args, on_output=None):
    """The command: while it runs, the watcher reports the events."""
    GHOST["commands"].append((args, on_output))
    for s in GHOST["servers"]:
        ensure_same(s.events, ["port", "start"], "the program is served while the command runs")
    for t in GHOST["threads"]:
        ensure_same(t.events, ["start"], "the events are watched while the command runs")
    for filename, callback in GHOST["watched"]:
        for e in GHOST["events"]:
            callback(e)
    if GHOST["fails"]:
        raise Failure()
    return CommandResult("out", "err", 0)


def spec_outputs(self):
    ensure(len(GHOST["commands"]) == 1, "the outputs are those after the operation")
    return "the outputs"


def spec_info(self, show_secrets):
    ensure(len(GHOST["commands"]) == 1, "the summary is that of the operation")
    GHOST["shown"] = show_secrets
    return GHOST["info"]


def native_info(self, show_secrets=True):
    return spec_info(self, show_secrets)


def setup(workspace_program):
    for k in ["threads", "watched", "servers", "programs", "served", "logs", "commands", "events"]:
        GHOST[k] = []
    GHOST["options"] = None
    GHOST["port"] = 4711
    GHOST["extra"] = text("an option's value")
    GHOST["fails"] = choose("the command fails", [False, True])
    GHOST["info"] = "the summary"
    setg(T + "threading", Threading)
    setg(T + "grpc", Grpc())
    setg(T + "futures", Futures())
    setg(T + "LanguageServer", Program)
    setg(T + "language_pb2_grpc", Services())
    setg(T + "_create_log_file", log_file)
    setg(T + "_watch_logs", watch)
    setg(T + "_parse_extra_args", extra_args)
    stub(T + "Stack._run_pulumi_cmd_sync", run)
    stub(T + "Stack.outputs", spec_outputs)
    if SYMBOLIC:
        use(T + "Stack.info", spec_info)
    else:
        setg(T + "Stack.info", native_info)
    ws = make(L + "LocalWorkspace", program=workspace_program)
    return make(T + "Stack", name="stack", workspace=ws)


COMMON = ["parallel", "message", "target", "color", "log_flow", "log_verbosity", "log_to_std_err", "tracing", "debug"]
UP = COMMON + ["policy_packs", "policy_pack_configs", "expect_no_changes", "diff", "target_dependents", "replace"]
REFRESH = COMMON + ["expect_no_changes"]
DESTROY = COMMON + ["target_dependents"]


def the_program():
    return None


def other_program():
    return None


def on_output(line):
    return None


def on_event(event):
    GHOST["seen"].append(event)


def operation(op, names, plan_option, with_program):
    """Runs an operation with arbitrary options; checks the command line, the outcome and the cleaning up."""
    default = choose("the workspace's program", [None, the_program])
    stack = setup(default)
    GHOST["seen"] = []
    GHOST["events"] = [Event(None), Event(Summary("first changes")), Event(Summary("second changes"))][:choose("events", [0, 3])]
    given = {n: sym(n, "any") for n in names}
    kwargs = dict(given)
    kwargs["on_output"] = choose("on_output", [None, on_output])
    kwargs["on_event"] = choose("on_event", [None, on_event])
    plan = None
    program = default
    if plan_option is not None:
        plan = kwargs["plan"] = text("plan") if choose("plan given", [True, False]) else None
    if with_program:
        kwargs["program"] = choose("program", [None, other_program])
        program = kwargs["program"] or default
    shown = True
    if op != "preview":
        shown = kwargs["show_secrets"] = sym("show secrets", "bool")
    failed = False
    result = None
    try:
        result = root(getattr(stack, op), **kwargs)
    except Failure:
        failed = True
    except RuntimeError:
        ensure(op == "preview" and len(GHOST["events"]) == 0, "a preview without a summary fails")
        ensure(GHOST["fails"] is False, "a failing command is reported as such")
        failed = True
    ensure(implies(GHOST["fails"], failed), "a failing command makes the operation fail")
    ensure(len(GHOST["commands"]) == 1, "one command")
    args, output = GHOST["commands"][0]
    ensure(args[0] == op, "the operation")
    if op != "preview":
        ensure("--yes" in args and "--skip-preview" in args, "without asking")
    ensure(output is kwargs["on_output"], "output is passed on")
    for n in names:
        ensure(n in GHOST["options"] and GHOST["options"][n] is given[n], "every option is handed on as given")
    ensure_same(option(args, "--an-option"), [GHOST["extra"]], "the options are on the command line")
    if plan_option is not None:
        ensure_same(option(args, plan_option), [plan] if plan is not None else [], "the plan")
    ensure_same(option(args, "--exec-kind"), ["auto.inline" if program else "auto.local"], "the kind of program")
    clients = [a for a in args if a.startswith("--client=")]
    if with_program and program:
        ensure_same(clients, ["--client=127.0.0.1:4711"], "the program's server")
        ensure(len(GHOST["programs"]) == 1 and GHOST["programs"][0].program is program, "the program is the given one")
        ensure(len(GHOST["servers"]) == 1 and len(GHOST["served"]) == 1, "one server")
        ensure(GHOST["served"][0][0] is GHOST["programs"][0] and GHOST["served"][0][1] is GHOST["servers"][0], "which serves the program")
        ensure_same(GHOST["servers"][0].events, ["port", "start", "stop"], "and is stopped")
        ensure(GHOST["programs"][0].exited == 1, "the program's settings are reset")
    else:
        ensure_same(clients, [], "no server")
        ensure(len(GHOST["servers"]) == 0 and len(GHOST["programs"]) == 0, "no server is started")
    if kwargs["on_event"] is not None or op == "preview":
        ensure_same(option(args, "--event-log"), ["the log"], "the events are logged")
        ensure(len(GHOST["threads"]) == 1 and len(GHOST["watched"]) == 1 and GHOST["watched"][0][0] == "the log", "and watched")
        ensure_same(GHOST["threads"][0].events, ["start", "join"], "the watcher is waited for")
        ensure(GHOST["logs"][0][1].cleaned == 1, "the log is removed")
    else:
        ensure_same(option(args, "--event-log"), [], "no events are logged")
        ensure(len(GHOST["threads"]) == 0 and len(GHOST["logs"]) == 0, "nothing is watched")
    if kwargs["on_event"] is not None:
        ensure(len(GHOST["seen"]) == len(GHOST["events"]) and all(a is b for a, b in zip(GHOST["seen"], GHOST["events"])), "every event is reported, in order")
    if not failed:
        ensure(result.stdout == "out" and result.stderr == "err", "the command's output")
        if op == "preview":
            ensure(result.change_summary == "first changes", "the planned changes")
        else:
            ensure(result.summary == "the summary" and GHOST["shown"] is shown, "the summary")
        if op == "up":
            ensure(result.outputs == "the outputs", "the outputs")


async def check_up():
    """up hands every option to the engine, serves the program and cleans up."""
    operation("up", UP, "--plan", True)


async def check_preview():
    """preview hands every option to the engine, serves the program and cleans up."""
    operation("preview", UP, "--save-plan", True)


async def check_refresh():
    """refresh hands every option to the engine and cleans up."""
    operation("refresh", REFRESH, None, False)


async def check_destroy():
    """destroy hands every option to the engine and cleans up."""
    operation("destroy", DESTROY, None, False)


# ------------------------------------------------------------------------------------------ commands
def command(args, cwd, additional_env, on_output=None):
    GHOST["commands"].append((list(args), cwd, additional_env, on_output))
    return GHOST["result"]


def home(env):
    return env["PULUMI_HOME"] if "PULUMI_HOME" in env else None


class OtherWorkspace:
    """A workspace of the user's."""

    def serialize_args_for_op(self, stack_name):
        GHOST["calls"].append(("serialize", stack_name))
        return ["--config-file", "file"]

    def post_command_callback(self, stack_name):
        GHOST["calls"].append(("post", stack_name, len(GHOST["commands"])))


async def check_stack_command():
    """A stack's commands are about the stack, and run in the workspace's directory with its environment."""
    GHOST["commands"], GHOST["calls"], GHOST["result"] = [], [], CommandResult("", "", 0)
    setg(T + "_run_pulumi_cmd", command)
    ws = OtherWorkspace()
    ws.pulumi_home = sym("home", ("opt", "str"))
    ws.env_vars = sym("environment", ("dict", "str", "str"))
    ws.work_dir = sym("directory", "str")
    name = text("name")
    stack = make(T + "Stack", name=name, workspace=ws)
    before = dict(ws.env_vars)
    r = root(stack._run_pulumi_cmd_sync, ["op", "--flag"], on_output)
    ensure(r is GHOST["result"], "the command's result")
    args, cwd, env, output = GHOST["commands"][0]
    ensure(len(GHOST["commands"]) == 1 and cwd is ws.work_dir and output is on_output, "in the workspace's directory")
    ensure(args[0] == "op" and args[1] == "--flag", "the command")
    ensure_same(option(args, "--stack"), [name], "about the stack")
    ensure_same(option(args, "--config-file"), ["file"], "with the workspace's arguments")
    ensure_same(GHOST["calls"], [("serialize", name), ("post", name, 1)], "the workspace is told afterwards")
    check_env(ws, env, before)


def check_env(ws, env, before):
    v = sym("variable", "str", native=list(ws.env_vars) + ["PULUMI_HOME", "PATH"])
    ensure_same(ws.env_vars, before, "the workspace's environment is not changed")
    if v in ws.env_vars:
        ensure(v in env and env[v] is ws.env_vars[v], "the workspace's environment")
    elif v == "PULUMI_HOME":
        ensure_same(env[v] if v in env else "", ws.pulumi_home or "", "the workspace's home")
    else:
        ensure(implies(v in env, v == "PULUMI_DEBUG_COMMANDS"), "nothing else")


async def check_workspace_command():
    """A workspace's commands run in its directory with its environment."""
    GHOST["commands"], GHOST["result"] = [], CommandResult("", "", 0)
    setg(L + "_run_pulumi_cmd", command)
    ws = make(L + "LocalWorkspace", pulumi_home=sym("home", ("opt", "str")), env_vars=sym("environment", ("dict", "str", "str")),
              work_dir=sym("directory", "str"))
    before = dict(ws.env_vars)
    r = root(ws._run_pulumi_cmd_sync, ["op", "--flag"], on_output)
    ensure(r is GHOST["result"], "the command's result")
    args, cwd, env, output = GHOST["commands"][0]
    ensure(len(GHOST["commands"]) == 1 and cwd is ws.work_dir and output is on_output, "in the workspace's directory")
    ensure_same(args, ["op", "--flag"], "the command")
    check_env(ws, env, before)



async def check_command_native():
    """A command runs the CLI with the arguments, in the directory, with the environment; its output is passed on line by line."""
    import os
    import tempfile
    from pulumi.automation.errors import ConcurrentUpdateError, StackNotFoundError
    r = rand()
    with tempfile.TemporaryDirectory() as d:
        work = os.path.join(d, "work")
        os.mkdir(work)
        out = [r.choice(["line", "", "  indented", "é", "-- x", "failed"]) for _ in range(r.randrange(4))]
        err = r.choice(["", "warning\n", "no stack named 'x' found", "stack 'x' already exists", "[409] Conflict: Another update is currently in progress."])
        code = r.choice([0, 0, 0, 1, 255])
        with open(os.path.join(d, "out"), "w") as f:
            content = "\n".join(out) + ("\n" if out and r.random() < 0.7 else "")
            f.write(content)
        with open(os.path.join(d, "err"), "w") as f:
            f.write(err)
        exe = os.path.join(d, "pulumi")
        with open(exe, "w") as f:
            f.write(f'#!/bin/sh\nprintf "%s\\n" "$#" "$@" > {d}/args\npwd > {d}/cwd\nprintf "%s" "$SOME_VAR" > {d}/var\ncat {d}/out\ncat {d}/err >&2\nexit {code}\n')
        os.chmod(exe, 0o755)
        args = [r.choice(["up", "--x", "with space", "é", "*", ""]) for _ in range(r.randrange(1, 4))] + (["--non-interactive"] if r.random() < 0.3 else [])
        note("case", (args, out, err, code))
        want = args + ([] if "--non-interactive" in args else ["--non-interactive"])
        seen = []
        path = os.environ["PATH"]
        result = failure = None
        try:
            os.environ["PATH"] = d + ":/usr/bin:/bin"
            os.environ["SOME_VAR"] = "overridden"
            result = _run_pulumi_cmd(args, work, {"SOME_VAR": "value"}, seen.append if r.random() < 0.7 else None)
        except CommandError as e:
            failure = e
        finally:
            os.environ["PATH"] = path
            del os.environ["SOME_VAR"]
        with open(os.path.join(d, "args")) as f:
            ensure(f.read() == "".join(f"{a}\n" for a in [len(want)] + want), "the arguments, and no questions asked")
        with open(os.path.join(d, "cwd")) as f:
            ensure(os.path.realpath(f.read().strip()) == os.path.realpath(work), "in the directory")
        with open(os.path.join(d, "var")) as f:
            ensure(f.read() == "value", "with the environment")
        lines = [x.rstrip() for x in (content[:-1] if content.endswith("\n") else content).split("\n")] if content else []
        ensure((failure is not None) == (code != 0), "a failing command is reported")
        if failure is None:
            ensure(result.stdout == "\n".join(lines) and result.stderr == err and result.code == 0, f"the command's output {result}")
            ensure(seen in ([], lines), "line by line")
        else:
            ensure(isinstance(failure, StackAlreadyExistsError) == ("already exists" in err), "a stack that exists is told apart")
            ensure(isinstance(failure, StackNotFoundError) == ("no stack named" in err), "a stack that does not exist is told apart")
            ensure(isinstance(failure, ConcurrentUpdateError) == ("409" in err), "a conflict is told apart")


async def check_watch_logs_native():
    """Every event of the log is reported once, in order, also while the log is being written, up to the last one."""
    import json
    import os
    import tempfile
    import threading
    import time
    from pulumi.automation._stack import _watch_logs
    r = rand()
    with tempfile.TemporaryDirectory() as d:
        path = os.path.join(d, "log")
        n = r.randrange(6)
        lines = [json.dumps({"sequence": k, "timestamp": 1, "stdoutEvent": {"message": f"m{k}\u00e9", "color": "never"}}) for k in range(n)]
        lines.append(json.dumps({"sequence": n, "timestamp": 1, "cancelEvent": {}}))
        note("events", n)
        before = r.randrange(n + 2)
        with open(path, "w") as f:
            f.write("".join(x + "\n" for x in lines[:before]))
        seen = []
        t = threading.Thread(target=_watch_logs, args=(path, seen.append), daemon=True)
        t.start()
        rest = "".join(x + "\n" for x in lines[before:]).encode("utf-8")
        with open(path, "ab", buffering=0) as f:
            if r.random() < 0.3 and rest:
                cut = r.randrange(len(rest))
                f.write(rest[:cut])              # the engine is half way through a line
                rest = rest[cut:]
                time.sleep(0.03)
            f.write(rest)
        t.join(5)
        ensure(not t.is_alive(), "the watcher ends with the last event")
        ensure([e.sequence for e in seen] == list(range(n + 1)), f"every event once, in order: {[e.sequence for e in seen]}")
        for k, e in enumerate(seen[:-1]):
            ensure(e.stdout_event is not None and e.stdout_event.message == f"m{k}\u00e9", "the event")


# ------------------------------------------------------------------------------------------ history
class Json:
    def loads(self, text):
        ensure(text == "history", "what the engine reports")
        return GHOST["history"]


class Datetime:
    def strptime(self, text, form):
        return ("time", text)


def history_command(self, args, on_output=None):
    GHOST["commands"].append(args)
    return CommandResult("history", "", 0)


async def check_history():
    """Each update is reported as the engine recorded it."""
    setg(T + "json", Json())
    setg(T + "datetime", Datetime())
    stub(T + "Stack._run_pulumi_cmd_sync", history_command)
    GHOST["commands"] = []
    recorded = {"kind": sym("kind", "str"), "startTime": sym("start", "str"), "message": sym("message", "str"),
                "environment": sym("environment", ("dict", "str", "str")), "config": {}, "result": sym("result", "str")}
    if choose("the update is finished", [True, False]):
        recorded["endTime"] = sym("end", "str")
        recorded["resourceChanges"] = sym("changes", "any")
    for k in ["version", "Deployment"]:
        if choose(k + " recorded", [True, False]):
            recorded[k] = sym(k, "any")
    other = dict(recorded)
    other["kind"] = sym("another kind", "str")
    GHOST["history"] = [recorded, other][:choose("updates", [0, 1, 2])]
    stack = make(T + "Stack", name="stack")
    n, m = sym("size", "int", native=[0, 1, 10]), sym("number", "int", native=[1, 2, 3])
    assume(n >= 0 and m >= 0)
    size = choose("page size given", [None, n])
    page = choose("page given", [None, m])
    shown = sym("show secrets", "bool")
    got = root(stack.history, page_size=size, page=page, show_secrets=shown)
    args = GHOST["commands"][0]
    ensure(len(GHOST["commands"]) == 1 and args[0] == "stack" and args[1] == "history" and "--json" in args, "one command")
    ensure(iff("--show-secrets" in args, shown), "secrets are shown if asked for")
    if size is not None:
        ensure_same(option(args, "--page-size"), [str(size)], "the page size")
        ensure_same(option(args, "--page"), [str(page) if page is not None else "1"], "the page")
    ensure(len(got) == len(GHOST["history"]), "every update")
    for u, rec in zip(got, GHOST["history"]):
        ensure(isinstance(u, UpdateSummary), "a summary")
        ensure(u.kind is rec["kind"] and u.message is rec["message"] and u.result is rec["result"], "as recorded")
        ensure_same(u.start_time, ("time", rec["startTime"]), "its start")
        ensure_same(u.end_time, ("time", rec["endTime"]) if "endTime" in rec else None, "its end, once it has ended")
        ensure_same(u.environment, rec["environment"], "its environment")
        ensure(u.version is (rec["version"] if "version" in rec else None), "its version")
        ensure(u.Deployment is (rec["Deployment"] if "Deployment" in rec else None), "its deployment")
        ensure(u.resource_changes is (rec["resourceChanges"] if "resourceChanges" in rec else None), "its changes")


def spec_history(self, page_size, page, show_secrets):
    ensure(page_size == 1 and page in (None, 1), "the latest update")
    GHOST["shown"] = show_secrets
    return GHOST["history"]


async def check_info():
    """The latest update is the first of the history."""
    if not SYMBOLIC:
        return
    use(T + "Stack.history", spec_history)
    GHOST["history"] = ["latest", "previous"][:choose("updates", [0, 1, 2])]
    shown = sym("show secrets", "bool")
    r = root(make(T + "Stack", name="stack").info, shown)
    ensure(GHOST["shown"] is shown, "secrets are shown if asked for")
    ensure_same(r, "latest" if GHOST["history"] else None, "the latest update")


# ------------------------------------------------------------------------------------------ stacks
def create(self, name):
    GHOST["calls"].append(("create", name))
    if GHOST["exists"]:
        raise GHOST["error"]


def select(self, name):
    GHOST["calls"].append(("select", name))


async def check_stack_init():
    """A stack is created, selected, or created unless it exists; other failures are reported."""
    result = CommandResult("", "", 1)
    GHOST["calls"], GHOST["exists"] = [], choose("creating fails", [True, False])
    GHOST["error"] = choose("failure", [StackAlreadyExistsError, CommandError])(result)
    stub(L + "LocalWorkspace.create_stack", create)
    stub(L + "LocalWorkspace.select_stack", select)
    ws = make(L + "LocalWorkspace")
    name = text("name")
    mode = choose("mode", ["create", "select", "create_or_select"])
    failed = None
    try:
        s = root(getattr(Stack, mode), name, ws)
        ensure(isinstance(s, Stack) and s.name is name and s.workspace is ws, "the stack")
    except CommandError as e:
        failed = e
    if mode == "select":
        ensure_same(GHOST["calls"], [("select", name)], "the stack is selected")
        ensure(failed is None, "no failure")
    elif mode == "create_or_select" and GHOST["exists"] and isinstance(GHOST["error"], StackAlreadyExistsError):
        ensure_same(GHOST["calls"], [("create", name), ("select", name)], "a stack that exists is selected")
        ensure(failed is None, "no failure")
    else:
        ensure_same(GHOST["calls"], [("create", name)], "the stack is created")
        ensure(failed is (GHOST["error"] if GHOST["exists"] else None), "a failure is reported")


def workspace_command(self, args, on_output=None):
    GHOST["commands"].append(args)
    return CommandResult("", "", 0)


async def check_stack_commands():
    """The workspace's operations on stacks name the stack; a stack is created with the workspace's secrets provider."""
    GHOST["commands"] = []
    stub(L + "LocalWorkspace._run_pulumi_cmd_sync", workspace_command)
    provider = choose("secrets provider", [None, text("provider")])
    ws = make(L + "LocalWorkspace", secrets_provider=provider)
    name = text("name")
    key = text("key")
    op = choose("operation", ["create_stack", "select_stack", "remove_stack", "remove_config"])
    if op == "remove_config":
        root(ws.remove_config, name, key)
    else:
        root(getattr(ws, op), name)
    args = GHOST["commands"][0]
    ensure(len(GHOST["commands"]) == 1, "one command")
    if op == "remove_config":
        ensure_same(args[:3], ["config", "rm", key], "the key")
        ensure_same(option(args, "--stack"), [name], "of the stack")
    else:
        ensure_same(args[:2], ["stack", {"create_stack": "init", "select_stack": "select", "remove_stack": "rm"}[op]], "the operation")
        ensure(name in args, "on the stack")
        ensure_same(option(args, "--secrets-provider"), [provider] if op == "create_stack" and provider is not None else [], "with the secrets provider")
        ensure(iff("--yes" in args, op == "remove_stack"), "without asking")


async def check_cli_native():
    """A stack's commands through a real command line: their environment, result and history."""
    import os
    from spec.clilib import Cli
    r = rand()
    with Cli() as cli:
        env = r.choice([{}, {"SOME_VAR": "mine"}, {"PULUMI_HOME": "/other/home"}, {"PULUMI_DEBUG_COMMANDS": "false", "SOME_VAR": ""}])
        home = r.choice([None, "/a/home"])
        ws = LocalWorkspace(work_dir=cli.work, env_vars=env, pulumi_home=home)
        stack = Stack("dev", ws, StackInitMode.SELECT)
        op = r.choice(["run", "info", "history", "fail"])
        updates = r.randrange(3)
        note("case", (op, env, home, updates))
        report = [{"version": n, "kind": "update", "startTime": "2021-01-02T03:04:05.678Z", "endTime": "2021-01-02T03:04:05.678Z", "message": "m",
                   "environment": {}, "config": {}, "result": "succeeded", "resourceChanges": {}} for n in range(updates, 0, -1)]
        if op == "fail":
            cli.answer("", "", 3)
            try:
                stack._run_pulumi_cmd_sync(["op"])
                fails("a failing command makes the operation fail")
            except CommandError as e:
                ensure("code: 3" in str(e) and "a warning" in str(e), f"with its output: {e}")
        elif op == "run":
            cli.answer("")
            got = stack._run_pulumi_cmd_sync(["op", "-x"])
            ensure(got.code == 0 and got.stdout == "done" and got.stderr == "a warning\n", f"the command's result {got}")
            ensure(cli.calls() == [["op", "-x", "--stack", "dev", "--non-interactive"]], f"the command {cli.calls()}")
        elif op == "history":
            cli.answer("[]", report)
            got = stack.history(page_size=r.choice([None, 5]))
            ensure([u.version for u in got] == [u["version"] for u in report], f"every update {got}")
        else:
            cli.answer("[]", report)
            got = stack.info()
            ensure((got is None) == (updates == 0) and (got is None or got.version == updates), f"the latest update {got}")
        d, debug, h, some = cli.environment()
        ensure(os.path.realpath(d) == os.path.realpath(cli.work), "in the workspace's directory")
        ensure(debug == env.get("PULUMI_DEBUG_COMMANDS", "true") and h == env.get("PULUMI_HOME", home or os.environ.get("PULUMI_HOME", ""))
               and some == env.get("SOME_VAR", ""), f"with its environment {debug} {h} {some}")


HARNESSES = [check_value_options, check_number_options, check_flags, check_list_options, check_up, check_preview, check_refresh,
             check_destroy, check_stack_command, check_workspace_command, check_history, check_info, check_stack_init, check_stack_commands]
NATIVE = [check_all_options_native, check_command_native, check_watch_logs_native, check_cli_native]
BOUNDS = {"check_cli_native": "one operation, up to 2 updates", "check_all_options_native": "lists of up to 3 values", "check_command_native": "up to 3 lines of output",
          "check_watch_logs_native": "up to 6 events"}
