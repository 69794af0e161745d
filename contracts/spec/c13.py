"""C13: typed configuration getters agree with the stored string."""
import json
from pv import *
from pulumi.config import Config, ConfigMissingError, ConfigTypeError
from pulumi.output import Output
import pulumi.runtime.config as rtc

KINDS = ["str", "bool", "int", "float", "object"]
TYPENAMES = {"str": "str", "bool": "bool", "int": "int", "float": "float", "object": "JSON object"}
POOL = ["", "0", "1", "-7", "true", "True", "false", "False", "TRUE", "yes", "none", "null", "None", "1.5", "1e3", "0x10",
        " 12 ", "1_000", "inf", "nan", "[]", "{}", "[1, 2]", '{"a": 1}', '"x"', "abc", "0.0", "-0", "१२", "tru", "False "]


def stored(full, value):
    """Contract of runtime get_config: the stored string, or None when unset."""
    if SYMBOLIC:
        def get_config(k):
            return ufn("config", k, result=("opt", "str"))
        use("pulumi.runtime.config.get_config", get_config)
        use("pulumi.output.Output.secret", secret_contract)
        return ufn("config", full, result=("opt", "str"))
    rtc.set_all_config({"other:k": "zzz", full + "x": "1"})
    if value is not None:
        rtc.set_config(full, value)
    return value


def secret_contract(val):
    """Contract of Output.secret for prompt values (proved in C02)."""
    return make("pulumi.output.Output", _future=resolved(val), _is_known=resolved(True), _is_secret=resolved(True),
                _resources=resolved(set()))


def parse(kind, v):
    """The value v denotes for the type `kind`: ('ok', value) or ('bad',)."""
    if kind == "str":
        return ("ok", v)
    if kind == "bool":
        if v == "true" or v == "True":
            return ("ok", True)
        if v == "false" or v == "False":
            return ("ok", False)
        return ("bad",)
    try:
        if kind == "int":
            return ("ok", int(v))
        if kind == "float":
            return ("ok", float(v))
        return ("ok", json.loads(v))
    except Exception:
        return ("bad",)


def outcome(f, *args):
    try:
        return ("ok", f(*args))
    except ConfigTypeError as e:
        return ("type", e)
    except ConfigMissingError as e:
        return ("missing", e)


def suffix(kind):
    return "" if kind == "str" else "_" + kind


async def check_getters():
    """get_*, require_*, get_secret_*, require_secret_* against the parse of the stored string."""
    kind = choose("kind", KINDS)
    variant = choose("variant", ["get", "require", "get_secret", "require_secret"])
    bag, key = symstr("bag", ["proj", "a:b", "", "x"]), symstr("key", ["k", "a:b", "K", "some-key"])
    full = bag + ":" + key
    v = stored(full, choose_native("value", POOL + [None, None]))
    c = make("pulumi.config.Config", name=bag)
    has_default = choose("default", [False, True]) if variant == "get" or (variant == "get_secret" and kind != "str") else False
    name = variant + suffix(kind)
    f = getattr(c, name)
    default = sym("dflt", "any") if has_default else None
    r = outcome(f, key, default) if has_default else outcome(f, key)
    if v is None:
        expected = ("missing",) if variant.startswith("require") else ("ok", default)
    else:
        expected = parse(kind, v)
        if expected[0] == "ok" and expected[1] is None:
            # a JSON null denotes "nothing"
            expected = ("missing",) if variant.startswith("require") else ("ok", default)
    if expected[0] == "missing":
        ensure(r[0] == "missing", "an unset key is reported as missing by require")
        if r[0] == "missing":
            ensure_same(r[1].key, full, "the missing-key error names the full key")
        return
    if expected[0] == "bad":
        ensure(r[0] == "type", "a value that does not parse is a type error")
        if r[0] == "type":
            ensure_same(r[1].key, full, "the type error names the full key")
            ensure_same(r[1].value, v, "the type error carries the stored value")
            ensure_same(r[1].expect_type, TYPENAMES[kind], "the type error names the expected type")
        return
    ensure(r[0] == "ok", "the getter succeeds when the value parses or a default applies")
    if r[0] != "ok":
        return
    if "secret" in variant and expected[1] is not None:
        out = r[1]
        ensure(isinstance(out, Output), "a secret getter returns an output")
        ensure(await out._is_secret, "a secret getter's output is secret")
        ensure_same(await out._future, expected[1], "a secret getter's output holds the same value")
    else:
        ensure_same(r[1], expected[1], "the getter returns the parsed value or the default")


async def check_name():
    """The bag name is the given one, or the project's when none is given."""
    if SYMBOLIC:
        def get_project():
            return ufn("project", result="str")
        use("pulumi.runtime.settings.get_project", get_project)
        project = ufn("project", result="str")
    else:
        import pulumi.runtime.settings as st
        project = st.get_project()
    given = choose("given", [False, True])
    name = sym("name", "str") if given else None
    c = Config(name)
    if given and name != "":
        ensure_same(c.name, name, "the bag is named as requested")
    else:
        ensure_same(c.name, project, "the bag defaults to the project")
    key = sym("key", "str")
    ensure_same(c.full_key(key), c.name + ":" + key, "keys are qualified with the bag name")


HARNESSES = [check_getters, check_name]
