"""C35: workspaces report what the engine reports, and change what they are asked to."""
from spec.common import *
from pulumi.automation._cmd import CommandResult
from pulumi.automation._local_workspace import (LocalWorkspace, LocalWorkspaceOptions, create_stack, create_or_select_stack, select_stack,
                                                get_stack_settings_name)
from pulumi.automation._project_settings import ProjectSettings
from pulumi.automation._stack import Stack
from pulumi.automation.errors import InvalidVersionError
from pulumi.automation._workspace import Deployment, PluginInfo, StackSummary, WhoAmIResult

L = "pulumi.automation._local_workspace."
ASSUMPTIONS = ["json, tempfile, os and datetime do what they are documented to"]
GHOST = {}


def stub(q, f):
    if SYMBOLIC:
        use(q, f)
    else:
        setg(q, f)


class Json:
    """The json module, whose loads gives what the engine reported."""

    def loads(self, text):
        ensure(text == "report", "what the engine reports")
        return GHOST["report"]

    def dump(self, data, file, indent=None):
        ensure(file.closed == 0, "written while the file is open")
        file.content = dict(data)


class Datetime:
    def strptime(self, text, form):
        return ("time", text)


def command(self, args, on_output=None):
    GHOST["commands"].append(args)
    if GHOST["file"] is not None:
        f = GHOST["file"]
        ensure(f.closed == 1 and f.removed == 0, "the file is complete, and there, while it is imported")
    if GHOST["fails"]:
        raise GHOST["failure"]
    return CommandResult(GHOST["text"], "", 0)


class Failure(Exception):
    pass


def workspace(text="report", fails=False):
    GHOST["commands"], GHOST["text"], GHOST["fails"], GHOST["failure"], GHOST["file"] = [], text, fails, Failure(), None
    stub(L + "LocalWorkspace._run_pulumi_cmd_sync", command)
    setg(L + "json", Json())
    setg(L + "datetime", Datetime())
    return make(L + "LocalWorkspace", work_dir="/nowhere")


def one(args):
    ensure(len(GHOST["commands"]) == 1, "one command")
    ensure_same(GHOST["commands"][0], args, "the command, about what was asked")


# ------------------------------------------------------------------------------------------ queries
def fact(what, name):
    """What the engine knows of something."""
    return ufn(what, name) if SYMBOLIC else [0, "", what + " of " + name][sum(map(ord, what + name)) % 3]


def flag(what, name):
    return ufb(what, name) if SYMBOLIC else sum(map(ord, what + name)) % 2 == 1


def some_names():
    return rand().sample(["dev", "org/project/prod", "", "a", "b"], rand().randrange(4))


def stack_record(n):
    r = {"name": n, "current": flag("current", n), "updateInProgress": flag("in progress", n)}
    for k in GHOST["reported"]:
        r[k] = fact(k, n)
    return r


def check_summary(s, n):
    ensure(isinstance(s, StackSummary) and s.name is n, "the stack's name")
    ensure(s.current is flag("current", n), "whether it is selected")
    ensure(s.update_in_progress is flag("in progress", n), "whether it is being updated")
    ensure_same(s.last_update, ("time", fact("lastUpdate", n)) if "lastUpdate" in GHOST["reported"] else None, "its last update, if any")
    ensure_same(s.resource_count, fact("resourceCount", n) if "resourceCount" in GHOST["reported"] else None, "its number of resources, if reported")
    ensure_same(s.url, fact("url", n) if "url" in GHOST["reported"] else None, "its address, if reported")


async def check_list_stacks():
    """Every stack is listed, in order, as the engine reports it."""
    names = sym("names", ("list", "str"), native=some_names)
    ws = workspace()
    GHOST["reported"] = [k for k in ["lastUpdate", "resourceCount", "url"] if choose(k + " reported", [True, False])]
    GHOST["report"] = [stack_record(n) for n in names]
    got = root(ws.list_stacks)
    one(["stack", "ls", "--json"])
    ensure(len(got) == len(names), "every stack")
    k = sym("k", "int", native=list(range(len(names))) + [0])
    assume(k >= 0 and k < len(names))
    check_summary(got[k], names[k])


def plugin_record(n):
    r = {"name": n, "kind": fact("kind", n), "size": fact("size", n)}
    for k in GHOST["reported"]:
        r[k] = fact(k, n)
    return r


async def check_list_plugins():
    """Every plugin is listed, in order, as the engine reports it, also one that was never used."""
    names = sym("names", ("list", "str"), native=some_names)
    ws = workspace()
    reported = [k for k in ["version", "installTime", "lastUsedTime"] if choose(k + " reported", [True, False])]
    GHOST["reported"] = reported
    GHOST["report"] = [plugin_record(n) for n in names]
    got = root(ws.list_plugins)
    one(["plugin", "ls", "--json"])
    ensure(len(got) == len(names), "every plugin")
    k = sym("k", "int", native=list(range(len(names))) + [0])
    assume(k >= 0 and k < len(names))
    p, n = got[k], names[k]
    ensure(isinstance(p, PluginInfo) and p.name is n, "the plugin's name")
    ensure_same(p.kind, fact("kind", n), "its kind")
    ensure_same(p.size, fact("size", n), "its size")
    ensure_same(p.version, fact("version", n) if "version" in reported else None, "its version, if reported")
    ensure_same(p.install_time, ("time", fact("installTime", n)) if "installTime" in reported else None, "when it was installed, if reported")
    ensure_same(p.last_used_time, ("time", fact("lastUsedTime", n)) if "lastUsedTime" in reported else None, "when it was last used, if it was")


def spec_list_stacks(self):
    return GHOST["summaries"]


async def check_current_stack():
    """The current stack is the one selected, or none."""
    stub(L + "LocalWorkspace.list_stacks", spec_list_stacks)
    names = sym("names", ("list", "str"), native=some_names)
    GHOST["summaries"] = [StackSummary(n, flag("current", n)) for n in names]
    got = root(make(L + "LocalWorkspace").stack)
    if got is None:
        ensure(not any(flag("current", n) for n in names), "no stack is selected")
    else:
        ensure(isinstance(got, StackSummary) and got.current and any(n == got.name for n in names), "the stack selected")


async def check_who_am_i():
    """The user is the one the engine reports."""
    user = text("user")
    ws = workspace(user)
    got = root(ws.who_am_i)
    one(["whoami"])
    ensure(isinstance(got, WhoAmIResult), "the user")
    ensure_same(got.user, user.strip(), "as reported")


def text(name):
    s = sym(name, "str", native=["x", "y", "some text", "a=b"])
    assume(s != "")
    assume(not s.startswith("-"))
    return s


# ------------------------------------------------------------------------------------------ states
class File:
    """A temporary file."""

    def __init__(self):
        self.name = "/the/file"
        self.closed, self.removed, self.content = 0, 0, None

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        self.closed += 1
        return False


class Tempfile:
    def NamedTemporaryFile(self, mode="w+b", delete=True, **kw):
        ensure("w" in mode and "b" not in mode and delete is False, "a text file that is there until it is removed")
        GHOST["file"] = File()
        return GHOST["file"]


class Os:
    def getcwd(self):
        return "/here"

    def remove(self, path):
        ensure(path == "/the/file", "the file")
        GHOST["file"].removed += 1


async def check_import():
    """A state is handed to the engine unchanged, in a file that is gone afterwards, also if the import fails."""
    fails_ = choose("the import fails", [True, False])
    ws = workspace("", fails_)
    setg(L + "tempfile", Tempfile())
    setg(L + "os", Os())
    state = Deployment(sym("version", ("opt", "int")), sym("state", ("opt", ("dict", "str", "any"))))
    name = text("name")
    failure = None
    try:
        root(ws.import_stack, name, state)
    except Failure as e:
        failure = e
    ensure(failure is (GHOST["failure"] if fails_ else None), "a failing import fails")
    f = GHOST["file"]
    one(["stack", "import", "--file", f.name, "--stack", name])
    ensure(f.closed == 1 and f.removed == 1, "the file is gone afterwards")
    ensure(len(f.content) == 2, "the whole state")
    ensure(f.content["version"] is state.version and f.content["deployment"] is state.deployment, "unchanged")


async def check_export():
    """A state is exported as the engine reports it, with its secrets."""
    ws = workspace()
    version, state = sym("version", "int"), sym("state", ("dict", "str", "any"))
    GHOST["report"] = {"version": version, "deployment": state}
    name = text("name")
    got = root(ws.export_stack, name)
    one(["stack", "export", "--show-secrets", "--stack", name])
    ensure(isinstance(got, Deployment) and got.version is version and got.deployment is state, "the state, unchanged")


async def check_changes():
    """Changes to configuration and plugins name what they are about."""
    ws = workspace("")
    name = text("name")
    op = choose("operation", ["install", "remove plugin", "remove config"])
    if op == "install":
        version, kind = text("version"), text("kind")
        root(ws.install_plugin, name, version, kind)
        one(["plugin", "install", kind, name, version])
    elif op == "remove plugin":
        kind = text("kind")
        plugin = name if choose("name given", [True, False]) else None
        versions = text("versions") if choose("versions given", [True, False]) else None
        root(ws.remove_plugin, plugin, versions, kind)
        one(["plugin", "rm", kind] + ([plugin] if plugin is not None else []) + ([versions] if versions is not None else []) + ["--yes"])
    else:
        keys = sym("keys", ("list", "str"))
        root(ws.remove_all_config, name, keys)
        one(["config", "rm-all", "--stack", name] + keys)


def spec_get_all_config(self, stack_name):
    ensure(len(GHOST["commands"]) == 1, "after the refresh")
    GHOST["read"] = stack_name
    return {}


async def check_refresh_config():
    """The configuration of the last update replaces the stack's."""
    ws = workspace("")
    stub(L + "LocalWorkspace.get_all_config", spec_get_all_config)
    name = text("name")
    root(ws.refresh_config, name)
    one(["config", "refresh", "--force", "--stack", name])


# ------------------------------------------------------------------------------------------ stack workspaces
def new_workspace(**options):
    GHOST["made"].append(options)
    return ("workspace", len(GHOST["made"]))


def spec_load_project(work_dir):
    ensure(work_dir is GHOST["dir"], "the project in the directory")
    if GHOST["project there"]:
        return "a project"
    raise FileNotFoundError()


def init(kind):
    def make_stack(name, ws):
        GHOST["inits"].append((kind, name, ws))
        return ("stack", len(GHOST["inits"]))

    return make_stack


def program():
    pass


FIELDS = ["work_dir", "pulumi_home", "program", "env_vars", "secrets_provider", "project_settings", "stack_settings"]
FUNCTIONS = [("create", create_stack), ("select", select_stack), ("create_or_select", create_or_select_stack)]


async def check_stack_for_program():
    """A stack's workspace has its program or directory, its project, and the caller's other options, which stay as they were."""
    GHOST["made"], GHOST["inits"] = [], []
    setg(L + "LocalWorkspace", new_workspace)
    setg(L + "os", Os())
    if SYMBOLIC:
        use(L + "_load_project_settings", spec_load_project)
        for kind in ["create", "select", "create_or_select"]:
            use("pulumi.automation._stack.Stack." + kind, init_method(kind))
    else:
        setg(L + "_load_project_settings", spec_load_project)
        setg(L + "Stack", make_stacks())
    kind, f = choose("function", FUNCTIONS)
    inline = choose("inline", [True, False])
    GHOST["project there"] = choose("there is a project in the directory", [True, False]) if inline else False
    GHOST["dir"] = "/some/dir"
    given = choose("options", ["none", "empty", "directory", "all"] if inline else ["none", "all"])
    settings = make("pulumi.automation._project_settings.ProjectSettings", name="given", runtime="python")
    values = {"pulumi_home": "home", "env_vars": {"a": "b"}, "secrets_provider": "provider", "stack_settings": {"s": 1}}
    opts = None if given == "none" else LocalWorkspaceOptions()
    if given == "directory":
        opts = LocalWorkspaceOptions(work_dir="/some/dir", **values)
    elif given == "all":
        opts = LocalWorkspaceOptions(work_dir="/some/dir", project_settings=settings, program="other", **values)
    before = dict(opts.__dict__) if opts is not None else None
    name, project = text("name"), text("project")
    if inline:
        got = root(f, name, project, program, None, opts)
    else:
        got = root(f, name, None, None, "/local/dir", opts)
    ensure_same(got, ("stack", 1), "the stack")
    ensure_same(GHOST["inits"], [(kind, name, ("workspace", 1))], "created or selected as asked, in its workspace")
    ensure(len(GHOST["made"]) == 1, "one workspace")
    made = GHOST["made"][0]
    for k in ["pulumi_home", "env_vars", "secrets_provider", "stack_settings"]:
        ensure_same(made[k], before[k] if before is not None else None, "the caller's options")
    if inline:
        ensure(made["program"] is program, "its program")
        ensure_same(made["work_dir"], before["work_dir"] if before is not None else None, "the caller's directory")
        p = made["project_settings"]
        if given == "all":
            ensure(p is settings, "the caller's project")
        elif given == "directory" and GHOST["project there"]:
            ensure(p is None, "the project in the directory")
        else:
            ensure(isinstance(p, ProjectSettings) and p.runtime == "python", "a project for the program")
            ensure_same(p.name, project, "with the name given")
            ensure(p.main == "/here", "which is here")
    else:
        ensure(made["work_dir"] == "/local/dir", "its directory")
        ensure(made["project_settings"] is (before["project_settings"] if before is not None else None), "the caller's project")
    if opts is not None:
        for k in FIELDS:
            ensure(opts.__dict__[k] is before[k], "the caller's options stay as they were")


async def check_neither():
    """A stack needs a program and its project, or a directory."""
    GHOST["made"], GHOST["inits"] = [], []
    setg(L + "LocalWorkspace", new_workspace)
    kind, f = choose("function", FUNCTIONS)
    which = choose("given", ["nothing", "a program", "a project"])
    raised = 0
    try:
        root(f, "stack", "project" if which == "a project" else None, program if which == "a program" else None, None, None)
    except ValueError:
        raised = 1
    ensure(raised == 1 and len(GHOST["made"]) == 0, "a stack of nothing is refused")


async def check_project_settings_native():
    """Project settings saved in a workspace are loaded again with the same content, in YAML and JSON; nested ones as plain objects."""
    import os
    import tempfile
    from pulumi.automation import _project_settings as ps
    r = rand()
    some = lambda *xs: r.choice((None,) + xs)
    values = {k: some("x", "a: b", "\u00e9", "1", "") for k in ["main", "description", "author", "website", "license", "config"]}
    name = r.choice(["p", "a b", "yes", "1"])
    runtime = r.choice(["nodejs", "python", "go", "dotnet", ps.ProjectRuntimeInfo("python", some({"virtualenv": "venv", "x": [1, True]}))])
    backend = some(ps.ProjectBackend("file:///tmp/x"), ps.ProjectBackend())
    template = some(ps.ProjectTemplate(some("d"), some("q"), {"k": ps.ProjectTemplateConfigValue(some("d"), some("v"), r.random() < 0.5)}, some(True, False)))
    with tempfile.TemporaryDirectory() as d:
        ext = r.choice(["", ".yaml", ".yml", ".json"])
        if ext:
            with open(os.path.join(d, "Pulumi" + ext), "w") as f:
                f.write("{}")
        note("settings", (ext, name, values, plain(runtime), plain(backend), plain(template)))
        ws = make(L + "LocalWorkspace", work_dir=d)
        ws.save_project_settings(ProjectSettings(name, runtime, backend=backend, template=template, **values))
        ensure(os.listdir(d) == ["Pulumi" + (ext or ".yaml")], f"in the project's file {os.listdir(d)}")
        got = ws.project_settings()
        ensure(isinstance(got, ProjectSettings), "project settings")
        want = dict(values, name=name, runtime=plain(runtime), backend=plain(backend), template=plain(template))
        ensure({k: plain(v) for k, v in got.__dict__.items()} == want, f"the same content {got.__dict__}")


def plain(x):
    """Settings as plain data: those that are absent are left out."""
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items()}
    if isinstance(x, list):
        return [plain(v) for v in x]
    if hasattr(x, "__dict__"):
        return {k: plain(v) for k, v in x.__dict__.items() if v is not None}
    return x


def init_method(kind):
    def make_stack(*args):
        name, ws = args[-2], args[-1]
        GHOST["inits"].append((kind, name, ws))
        return ("stack", len(GHOST["inits"]))

    return make_stack


def make_stacks():
    class Stacks:
        create = staticmethod(init_method("create"))
        select = staticmethod(init_method("select"))
        create_or_select = staticmethod(init_method("create_or_select"))

    return Stacks


def spec_cli_version(self):
    GHOST["asked in"] = self.work_dir
    return "the version"


def spec_validate(minimum, current, opt_out):
    ensure(minimum == "the least version" and current == "the version", "the version of the CLI")
    GHOST["opt out"] = opt_out
    return GHOST["version"]


def spec_save_project(self, settings):
    GHOST["saved"].append((None, settings))


def spec_save_stack(self, name, settings):
    GHOST["saved"].append((name, settings))


class MakeDir:
    def gettempdir(self):
        return "/tmp"

    def mkdtemp(self, dir=None, prefix=None, suffix=None):
        return "/tmp/new"


class Environment:
    def getenv(self, name, default=None):
        return GHOST["setting"] if GHOST["skip"] == name else default


async def check_new_workspace():
    """A workspace has the options given, a directory of its own if none is given, a CLI that will do, and the settings given, saved."""
    GHOST["saved"] = []
    GHOST["version"] = choose("version", [None, "3.1.0"])
    GHOST["setting"] = choose("setting", ["true", ""])
    GHOST["skip"] = choose("set in the environment", [None, "PULUMI_AUTOMATION_API_SKIP_VERSION_CHECK"])
    stub(L + "LocalWorkspace._get_pulumi_version", spec_cli_version)
    stub(L + "_parse_and_validate_pulumi_version", spec_validate)
    stub(L + "LocalWorkspace.save_project_settings", spec_save_project)
    stub(L + "LocalWorkspace.save_stack_settings", spec_save_stack)
    setg(L + "tempfile", MakeDir())
    setg(L + "os", Environment())
    setg(L + "_MINIMUM_VERSION", "the least version")
    work_dir = choose("directory", [None, "/some/dir"])
    env = choose("environment", [None, {}, {"PULUMI_AUTOMATION_API_SKIP_VERSION_CHECK": "1"}, {"a": "b"}])
    project = choose("project", [None, "a project"])
    stacks = choose("stacks", [None, {}, {"dev": "its settings", "prod": "other settings"}])
    ws = make(L + "LocalWorkspace")
    root(ws.__init__, work_dir=work_dir, pulumi_home="home", program=program, env_vars=env, secrets_provider="provider",
         project_settings=project, stack_settings=stacks)
    ensure(ws.pulumi_home == "home" and ws.program is program and ws.secrets_provider == "provider", "the options given")
    ensure_same(ws.env_vars, env if env is not None else {}, "the environment given")
    ensure(ws.work_dir == (work_dir or "/tmp/new") and GHOST["asked in"] == ws.work_dir, "the directory given, or one of its own")
    ensure(GHOST["opt out"] == (GHOST["skip"] is not None or (env is not None and "PULUMI_AUTOMATION_API_SKIP_VERSION_CHECK" in env)), "the version is checked unless told not to")
    want = ([(None, project)] if project is not None else []) + [(k, v) for k, v in (stacks or {}).items()]
    ensure_same(GHOST["saved"], want, "the settings given, saved")
    try:
        ensure_same(ws.pulumi_version, GHOST["version"], "the CLI's version")
    except InvalidVersionError:
        ensure(GHOST["version"] is None, "a version that is not known is not made up")
    ws.pulumi_version = "3.2.0"
    ensure(ws.pulumi_version == "3.2.0", "unless it is set")


async def check_version_native():
    """A CLI is accepted exactly if it has the same major version and is not too old, or if told not to check."""
    from semver import VersionInfo
    from pulumi.automation._local_workspace import _parse_and_validate_pulumi_version
    r = rand()
    minimum = (r.randrange(1, 4), r.randrange(3), r.randrange(3))
    parts = (r.randrange(1, 4), r.randrange(3), r.randrange(3))
    alpha = r.random() < 0.2
    good = r.random() < 0.8
    current = ".".join(map(str, parts)) + ("-alpha.1" if alpha else "") if good else r.choice(["", "x", "3", "v3.1.0", "3.1"])
    opt_out = r.random() < 0.3
    note("case", (minimum, current, opt_out))
    fine = good and parts[0] <= minimum[0] and (parts > minimum or (parts == minimum and not alpha))
    try:
        got = _parse_and_validate_pulumi_version(VersionInfo(*minimum), current, opt_out)
        ensure(fine or opt_out, "a CLI that will not do is refused")
        ensure((got is None) == (not good) and (got is None or str(got) == current), f"its version {got}")
    except InvalidVersionError:
        ensure(not fine and not opt_out, "a CLI that will do is accepted")


async def check_settings_name():
    """A stack's settings are kept under the last part of its name."""
    prefix, name = sym("prefix", "str", native=["org", "org/project", ""]), sym("stack", "str", native=["dev", ""])
    assume("/" not in name)
    ensure_same(root(get_stack_settings_name, name), name, "a plain name")
    if not SYMBOLIC:                     # splitting at an unknown number of slashes is beyond the string theory
        ensure_same(get_stack_settings_name(prefix + "/" + name), name, "the last part")


HARNESSES = [check_list_stacks, check_list_plugins, check_current_stack, check_who_am_i, check_import, check_export, check_changes,
             check_refresh_config, check_stack_for_program, check_settings_name, check_new_workspace, check_neither]
NATIVE = [check_version_native, check_project_settings_native]
BOUNDS = {"check_project_settings_native": "one project, nested settings of one entry", "check_version_native": "version components up to 3"}
