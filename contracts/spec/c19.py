"""C19: automation settings survive a save and load, and secrets stay masked."""
from spec.common import *
from pulumi.automation._stack_settings import StackSettings, StackSettingsSecureConfigValue
from pulumi.automation._config import ConfigValue
from pulumi.automation._output import OutputValue
from pulumi.automation._cmd import CommandResult
from pulumi.automation._local_workspace import LocalWorkspace
from pulumi.automation._stack import UpdateSummary

L = "pulumi.automation._local_workspace."
ASSUMPTIONS = ["configuration keys are strings", "the CLI reports a secret output as '[secret]' unless secrets are shown",
               "YAML and JSON files keep the plain data written to them (checked natively)"]
GHOST = {}


def plain_value():
    """Native: a plain configuration value."""
    v = rand().choice(["v", "", 1, 0, True, False, 1.5, ["a", 1], [], {"nested": {"x": [1, 2]}}, {"secure": {"not": "text"}, "more": 1}, {"insecure": "x"}, {}, None])
    return v


def a_config():
    """Native: a configuration of plain and encrypted values."""
    return {f"proj:{k}": (StackSettingsSecureConfigValue("enc" + k) if rand().random() < 0.4 else plain_value())
            for k in rand().sample(["a", "b", "c", "secure"], rand().randrange(5))}


def is_encoded_secret(v):
    """The way an encrypted value is written."""
    return kind_is(v, "dict") and len(v) == 1 and "secure" in v



FIELDS = ["secrets_provider", "encrypted_key", "encryption_salt"]


async def check_fields_round_trip():
    """Each setting is read back as it was (an empty one counts as absent)."""
    a, b, c = sym("secrets provider", ("opt", "str")), sym("encrypted key", ("opt", "str")), sym("encryption salt", ("opt", "str"))
    s = StackSettings(secrets_provider=a, encrypted_key=b, encryption_salt=c)
    back = root(StackSettings._deserialize, root(s._serialize))
    ensure_same(back.secrets_provider, a if a else None, "the secrets provider")
    ensure_same(back.encrypted_key, b if b else None, "the encrypted key")
    ensure_same(back.encryption_salt, c if c else None, "the encryption salt")
    ensure(back.config is None, "no configuration")


def plain(v):
    """A value as a settings file has them, which is not the way an encrypted value is written."""
    return and_(kind_is(v, "none", "bool", "int", "float", "str", "list", "dict"), not_(and_(kind_is(v, "dict"), is_encoded_secret(v))))


async def check_plain_value_round_trip():
    """A configuration of plain values is read back as it was: an arbitrary one of them is."""
    if not SYMBOLIC:
        return
    config = sym("config", ("dict", "str", "any"))
    k, v = sym("key", "str"), sym("value", "any")
    assume(plain(v))
    assume(all(plain(x) for x in config.values()))
    assume(k not in config)
    config[k] = v
    other = sym("another key", "str")
    s = StackSettings(config=config)
    before = dict(config)
    data = root(s._serialize)
    back = root(StackSettings._deserialize, data)
    ensure(back.config is not None and k in back.config and back.config[k] is v, "each plain value is read back as it was")
    ensure(iff(other in back.config, other in config), "no other entries")
    ensure_same(config, before, "the settings are not changed")


async def check_encrypted_value_round_trip():
    """An encrypted value among plain ones is read back as such."""
    if not SYMBOLIC:
        return
    config = sym("config", ("dict", "str", "any"))
    k, v = sym("key", "str"), sym("ciphertext", "str")
    assume(all(plain(x) for x in config.values()))
    assume(k not in config)
    config[k] = StackSettingsSecureConfigValue(v)
    s = StackSettings(config=config)
    data = root(s._serialize)
    ensure_same(data["config"][k], {"secure": v}, "an encrypted value is written as such")
    back = root(StackSettings._deserialize, data)
    ensure(back.config is not None and k in back.config, "the encrypted value is read back")
    ensure(isinstance(back.config[k], StackSettingsSecureConfigValue), "an encrypted value is read back as such")
    ensure_same(back.config[k].secure, v, "the ciphertext")


async def check_settings_round_trip_native():
    """Settings saved in a workspace's files (YAML or JSON) are read back as they were."""
    import tempfile
    import os
    r = rand()
    with tempfile.TemporaryDirectory() as d:
        ws = object.__new__(LocalWorkspace)
        ws.work_dir = d
        name = r.choice(["dev", "org/dev", "org/proj/dev", "a.b"])
        file = "Pulumi." + name.split("/")[-1]
        kept = ["", ".yaml", ".yml", ".json"][r.randrange(4)]
        if kept:
            with open(os.path.join(d, file + kept), "w") as f:
                f.write("{}")
        if r.random() < 0.5:
            with open(os.path.join(d, "Pulumi.other.yaml"), "w") as f:
                f.write("{}")
        for _ in range(r.randrange(1, 3)):
            s = StackSettings(*[r.choice([None, "x", "awskms://k?region=x", "v1:a:b", "'", "a: b"]) for _ in range(3)],
                              config=a_config() if r.random() < 0.8 else None)
            note("settings", (vars(s), kept, name))
            before = snapshot(s)
            ws.save_stack_settings(name, s)
            ensure_same(snapshot(s), before, "the settings are not changed")
            back = ws.stack_settings(name)
        for f in FIELDS:
            ensure_same(getattr(back, f), getattr(s, f), f)
        ensure_same(snapshot(back)[1], before[1] or None, "the configuration")
        ensure(sorted(os.listdir(d)) == sorted({file + (kept or ".yaml")} | {x for x in os.listdir(d) if "other" in x}), "in the stack's file")


def snapshot(s):
    return [getattr(s, f) for f in FIELDS], None if s.config is None else \
        {k: ("encrypted", v.secure) if isinstance(v, StackSettingsSecureConfigValue) else v for k, v in s.config.items()}


async def check_masked():
    """The textual form of a secret value tells nothing about it."""
    a, b = sym("value", "any"), sym("another value", "any")
    for c in (ConfigValue, OutputValue):
        ensure_same(repr(c(a, True)), repr(c(b, True)), "the textual form does not depend on the secret")
        ensure_same(str(c(a, True)), str(c(b, True)), "nor does the printed form")
        ensure_same(f"{c(a, True)}", f"{c(b, True)}", "nor does the formatted form")
        ensure_same(repr(c(a, False)), repr(a), "others are shown")


def secret(k):
    """Whether the engine reports an entry as a secret."""
    return ufb("is secret", k) if SYMBOLIC else sum(map(ord, k)) % 2 == 1


def config_values():
    """Native: a configuration whose entries may look like others, or like the rest of the command line."""
    return {rand().choice(["p:a", "p:a=b", "p:b", "config", "--secret", "dev"]): rand().choice(["", "b=c", "c", "v", "=", "--secret", "1"]) for _ in range(rand().randrange(5))}


class Json:
    """The json module, whose loads gives what the engine reported."""

    def loads(self, text):
        return GHOST[text]


def stub(q, f):
    if SYMBOLIC:
        use(q, f)
    else:
        setg(q, f)


def option(args, name):
    """The value of an option on a command line."""
    return [args[n + 1] for n in range(len(args) - 1) if args[n] == name]


def command(self, args, on_output=None):
    """The CLI: answers according to the options given."""
    GHOST["commands"].append(args)
    if GHOST["any number of values"]:
        return CommandResult("", "", 0)
    ensure(len(option(args, "--stack")) == 1 and option(args, "--stack")[0] == GHOST["stack"], "the command is about the stack")
    return CommandResult("with secrets" if "--show-secrets" in args else "masked", "", 0)


def workspace():
    GHOST["stack"] = "org/project/stack"
    GHOST["commands"], GHOST["any number of values"] = [], False
    stub(L + "LocalWorkspace._run_pulumi_cmd_sync", command)
    setg(L + "json", Json())
    return make(L + "LocalWorkspace", work_dir="/nowhere")


async def check_stack_outputs():
    """Each output is returned with its value and with the secret flag the engine reported."""
    values = sym("outputs", ("dict", "str", "any"))
    assume(all(not (kind_is(v, "str") and v == "[secret]") for v in values.values()))
    ws = workspace()
    GHOST["with secrets"] = dict(values)
    GHOST["masked"] = {k: ("[secret]" if secret(k) else v) for k, v in values.items()}
    got = root(ws.stack_outputs, GHOST["stack"])
    k = sym("name", "str", native=list(values) + ["none"])
    ensure(iff(k in got, k in values), "exactly the stack's outputs")
    if k in values:
        ensure(isinstance(got[k], OutputValue), "an output value")
        ensure(got[k].value is values[k], "its value")
        ensure(got[k].secret is secret(k), "the secret flag the engine reported")


async def check_get_all_config():
    """Each configuration value is returned as the engine reports it, secret or not."""
    values = sym("values", ("dict", "str", "str"))
    ws = workspace()
    GHOST["with secrets"] = {k: {"value": v, "secret": secret(k)} for k, v in values.items()}
    GHOST["masked"] = {k: {"value": "", "secret": secret(k)} for k, v in values.items()}
    got = root(ws.get_all_config, GHOST["stack"])
    k = sym("key", "str", native=list(values) + ["none"])
    ensure(iff(k in got, k in values), "exactly the stack's configuration")
    if k in values:
        ensure(isinstance(got[k], ConfigValue), "a configuration value")
        ensure(got[k].value is values[k], "its value")
        ensure(got[k].secret is secret(k), "the secret flag the engine reported")


async def check_get_config():
    """A configuration value is returned as the engine reports it."""
    ws = workspace()
    key, value, secret = sym("key", "str"), sym("value", "str"), sym("secret", "bool")
    assume(not key.startswith("-"))
    GHOST["masked"] = GHOST["with secrets"] = {"name": key, "value": value, "secret": secret}
    got = root(ws.get_config, GHOST["stack"], key)
    ensure(isinstance(got, ConfigValue) and got.value is value and got.secret is secret, "the value and whether it is secret")
    args = GHOST["commands"][0]
    ensure(len(GHOST["commands"]) == 1 and args[0] == "config" and args[1] == "get" and key in args, "the value of the key is asked for")


async def check_set_config():
    """A configuration value is handed to the engine unchanged, as a secret exactly if it is one."""
    ws = workspace()
    key, value, secret = sym("key", "str"), sym("value", "str"), sym("secret", "bool")
    assume(not key.startswith("-"))
    r = root(ws.set_config, GHOST["stack"], key, ConfigValue(value, secret))
    args = GHOST["commands"][0]
    ensure(len(GHOST["commands"]) == 1 and args[0] == "config" and args[1] == "set", "one command sets it")
    ensure(args[-2] == "--" and args[-1] is value, "the value is not mistaken for an option")
    options = args[:-2]
    ensure(key in options, "the key")
    ensure(iff("--secret" in options, secret) and iff("--plaintext" in options, not secret), "a secret exactly if it is one")


async def check_set_all_config():
    """All configuration values are handed to the engine unchanged, each as a secret exactly if it is one."""
    values = sym("values", ("dict", "str", "str"), native=config_values)
    config = {k: ConfigValue(v, secret(k)) for k, v in values.items()}
    ws = workspace()
    GHOST["stack"] = sym("stack", "str", native=["org/project/stack", "p:a=b=c", "dev"])
    GHOST["any number of values"] = True
    root(ws.set_all_config, GHOST["stack"], config)
    ensure(len(GHOST["commands"]) == 1, "one command sets them")
    pairs = [x for k, v in values.items() for x in ["--secret" if secret(k) else "--plaintext", f"{k}={v}"]]
    ensure_same(GHOST["commands"][0], ["config", "set-all", "--stack", GHOST["stack"]] + pairs, "every value, as a secret exactly if it is one")


async def check_summary_config():
    """An update's summary has the configuration the engine reported."""
    values = sym("values", ("dict", "str", "str"))
    config = {k: {"value": v, "secret": secret(k)} for k, v in values.items()}
    hidden = sym("hidden", "str", native=["", "hidden"])
    assume(hidden not in values)
    config[hidden] = {"secret": True}                # a secret that is not shown has no value
    s = UpdateSummary("up", None, "message", {}, config, "succeeded", None)
    k = sym("key", "str", native=list(values) + ["none", hidden])
    ensure(iff(k in s.config, k in values or k == hidden), "exactly the reported configuration")
    if k == hidden:
        ensure(s.config[k].value is None and s.config[k].secret is True, "a secret that is not shown")
    elif k in values:
        ensure(isinstance(s.config[k], ConfigValue), "a configuration value")
        ensure(s.config[k].value is values[k], "its value")
        ensure(s.config[k].secret is secret(k), "the secret flag the engine reported")


async def check_cli_native():
    """Configuration, outputs and updates through a real command line, with values of every kind."""
    from spec.clilib import Cli
    r = rand()
    with Cli() as cli:
        ws = LocalWorkspace(work_dir=cli.work)
        texts = ["", "v", "a b", "--secret", "-x", "b=c", "{\"a\": 1}", "\u00e9", "[secret]x", "line\nline"]
        values = {k: {"value": r.choice(texts), "secret": r.random() < 0.5} for k in r.sample(["p:a", "p:b", "q:c.d"], r.randrange(4))}
        outputs = {k: r.choice([1, "", "x", True, None, {"y": ["z"]}, [1, 2]]) for k in r.sample(["a", "b", "c"], r.randrange(4))}
        hidden = {k for k in outputs if r.random() < 0.5}
        stack = r.choice(["dev", "org/project/dev"])
        op = r.choice(["get", "get all", "outputs", "set", "set all", "history"])
        note("case", (op, values, outputs, sorted(hidden)))
        if op == "get" and values:
            k = sorted(values)[0]
            cli.answer(values[k])
            got = ws.get_config(stack, k)
            ensure(got.value == values[k]["value"] and got.secret == values[k]["secret"], f"{k} is {got.value!r} {got.secret}")
        elif op == "get all":
            cli.answer({k: {"secret": True} if v["secret"] else v for k, v in values.items()}, values)
            got = ws.get_all_config(stack)
            ensure({k: {"value": v.value, "secret": v.secret} for k, v in got.items()} == values, f"{got}")
        elif op == "outputs":
            cli.answer({k: "[secret]" if k in hidden else v for k, v in outputs.items()}, outputs)
            got = ws.stack_outputs(stack)
            ensure({k: (v.value, v.secret) for k, v in got.items()} == {k: (v, k in hidden) for k, v in outputs.items()}, f"{got}")
        elif op == "set" and values:
            k = sorted(values)[0]
            v = ConfigValue(values[k]["value"]) if not values[k]["secret"] and r.random() < 0.5 else ConfigValue(**values[k])
            cli.answer("")
            ws.set_config(stack, k, v)
            (args,) = cli.calls()
            n = args.index("--")
            ensure(args[:3] == ["config", "set", k] and args[n + 1] == values[k]["value"], f"the value {args}")
            ensure(("--secret" in args[:n]) == values[k]["secret"] and ("--plaintext" in args[:n]) == (not values[k]["secret"]), f"whether it is secret {args}")
            ensure(option(args[:n], "--stack") == [stack] and "--non-interactive" in args[:n] and len(args) == n + 2, f"as an argument of its own {args}")
        elif op == "set all":
            cli.answer("")
            ws.set_all_config(stack, {k: ConfigValue(**v) for k, v in values.items()})
            (args,) = cli.calls()
            want = [x for k, v in values.items() for x in ["--secret" if v["secret"] else "--plaintext", f"{k}={v['value']}"]]
            ensure(args == ["config", "set-all", "--stack", stack] + want + ["--non-interactive"], f"the values {args}")
        elif op == "history":
            update = {"version": 3, "kind": "update", "startTime": "2021-01-02T03:04:05.678Z", "message": "m", "environment": {"a": "b"},
                      "config": {k: {"secret": True} if v["secret"] and r.random() < 0.5 else v for k, v in values.items()}, "result": "in-progress"}
            if r.random() < 0.5:
                update.update(endTime="2021-01-02T03:04:06.000Z", result="succeeded", resourceChanges={"create": 1})
            cli.answer([update])
            s = Stack_of(ws, stack).info()
            got = {"version": s.version, "kind": s.kind, "startTime": time_of(s.start_time), "message": s.message, "environment": s.environment,
                   "config": {k: {"secret": v.secret} if v.value is None else {"value": v.value, "secret": v.secret} for k, v in s.config.items()},
                   "result": s.result}
            if s.end_time is not None or s.resource_changes is not None:
                got.update(endTime=time_of(s.end_time), resourceChanges=s.resource_changes)
            ensure(got == update, f"the update {got}")


def time_of(t):
    return t.strftime("%Y-%m-%dT%H:%M:%S.") + "%03dZ" % (t.microsecond // 1000)


def Stack_of(ws, name):
    return make("pulumi.automation._stack.Stack", name=name, workspace=ws)


HARNESSES = [check_fields_round_trip, check_plain_value_round_trip, check_encrypted_value_round_trip, check_masked, check_stack_outputs,
             check_get_all_config, check_get_config, check_set_config, check_set_all_config, check_summary_config]
NATIVE = [check_settings_round_trip_native, check_cli_native]
BOUNDS = {"check_cli_native": "up to 3 configuration values, outputs, one update", "check_settings_round_trip_native": "up to 4 configuration values, up to 2 saves"}
