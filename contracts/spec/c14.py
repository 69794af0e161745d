"""C14: configuration lookup precedence and isolation of changes."""
import json
from pv import *
from pulumi.runtime.config import (get_config, get_config_env, get_config_env_key, get_config_secret_keys_env, set_config,
                                   set_all_config, is_config_secret)

ASSUMPTIONS = ["json.loads is a deterministic partial parser", "os.environ and the context variables behave like dictionaries and cells",
               "the aggregated JSON variable holds an object (or null)", "str.upper is opaque (same on both sides)"]


class Cell:
    """A context variable."""

    def __init__(self, v):
        self.v = v

    def get(self):
        return self.v

    def set(self, v):
        self.v = v


def native_env():
    r = rand()
    env = {}
    for name in ("PULUMI_CONFIG_A", "PULUMI_CONFIG_SOME_KEY", "PULUMI_CONFIG_SOMEKEY", "PULUMI_CONFIG_P_K", "PULUMI_CONFIG___", "PULUMI_CONFIG_"):
        if r.random() < 0.4:
            env[name] = r.choice(["", "v", "0"])
    if r.random() < 0.6:
        env["PULUMI_CONFIG"] = r.choice(["{}", "null", '{"a": 1}', '{"some_key": null, "p:k": "x", "a": ""}', '{"someKey": [1], "": 2}', '{'])
    return env


def native_config():
    return {k: rand().choice([None, "", 0, False, "v", [1]]) for k in ("a", "some_key", "someKey", "p:k", "é", "") if rand().random() < 0.4}


def setup():
    cfg = sym("config", ("dict", "str", "any"), native=native_config)
    env = sym("environment", ("dict", "str", "str"), native=native_env)
    secrets = sym("secret keys", ("set", "str"), native=lambda: {k for k in ("a", "p:k", "") if rand().random() < 0.4})
    conf, sec = Cell(cfg), Cell(secrets)
    setg("pulumi.runtime.config.CONFIG", conf)
    setg("pulumi.runtime.config._SECRET_KEYS", sec)
    setg("os.environ", env)
    return conf, sec, env


def a_key(name="k"):
    return sym(name, "str", native=["a", "some_key", "someKey", "p:k", "é", "", "Z9_", "z"])


# ------------------------------------------------------------------ the environment variable of a key
def char(c):
    if "a" <= c and c <= "z":
        return c.upper()
    if ("A" <= c and c <= "Z") or ("0" <= c and c <= "9") or c == "_":
        return c
    return "_"


def scrubbed(s):
    if SYMBOLIC:
        return ufn("scrubbed", s, result="str")
    return "".join([char(c) for c in s])


def scrub_inv(done, step, env_key):
    if step is not None:
        before, c = step
        assume(scrubbed(done) == scrubbed(before) + char(c))      # definition of scrubbed
    return env_key == scrubbed(done)


def check_env_key():
    k = a_key()
    assume(scrubbed("") == "")                                     # definition of scrubbed
    invariant("pulumi.runtime.config.get_config_env_key", scrub_inv, env_key="str")
    ensure(get_config_env_key(k) == "PULUMI_CONFIG_" + scrubbed(k), "the variable of a key is its name in upper case, other characters as underscores")


def use_env_key():
    def env_key(k):
        return "PULUMI_CONFIG_" + scrubbed(k)
    use("pulumi.runtime.config.get_config_env_key", env_key)


# ------------------------------------------------------------------ lookup
def check_get_config():
    conf, sec, env = setup()
    use_env_key()
    k = a_key()
    cfg = conf.get()
    var = "PULUMI_CONFIG_" + scrubbed(k)
    if k in cfg:
        ensure_same(get_config(k), cfg[k], "a value set in the process wins")
    elif var in env:
        ensure_same(get_config(k), env[var], "else the variable of the key")
    elif "PULUMI_CONFIG" in env:
        try:
            found = json.loads(env["PULUMI_CONFIG"])
        except ValueError:
            return
        assume(found is None or isinstance(found, dict))
        if found is not None and k in found:
            ensure_same(get_config(k), found[k], "else the entry of the aggregated variable")
        else:
            ensure(get_config(k) is None, "a key found nowhere yields nothing")
    else:
        ensure(get_config(k) is None, "a key found nowhere yields nothing")
    ensure(conf.get() is cfg, "lookup does not replace the configuration")


def check_lookup_is_pure():
    conf, sec, env = setup()
    use_env_key()
    cfg0, env0 = dict(conf.get()), dict(env)
    try:
        get_config(a_key())
    except (ValueError, TypeError):
        pass
    ensure_same(conf.get(), cfg0, "lookup does not change the configuration")
    ensure_same(env, env0, "lookup does not change the environment")


def check_env_readers():
    conf, sec, env = setup()
    if "PULUMI_CONFIG" in env:
        try:
            found = json.loads(env["PULUMI_CONFIG"])
        except ValueError:
            return
        ensure_same(get_config_env(), found, "the aggregated variable, parsed")
    else:
        ensure_same(get_config_env(), {}, "no aggregated variable: nothing")
    if "PULUMI_CONFIG_SECRET_KEYS" in env:
        try:
            keys = json.loads(env["PULUMI_CONFIG_SECRET_KEYS"])
        except ValueError:
            return
        ensure_same(get_config_secret_keys_env(), keys, "the secret keys variable, parsed")
    else:
        ensure_same(get_config_secret_keys_env(), [], "no secret keys variable: none")


# ------------------------------------------------------------------ changes
def check_set_config():
    conf, sec, env = setup()
    k, v = a_key(), sym("v", "any")
    before, secrets, env0 = dict(conf.get()), set(sec.get()), dict(env)
    set_config(k, v)
    expected = dict(before)
    expected[k] = v
    ensure_same(conf.get(), expected, "setting a key changes that key only")
    ensure_same(sec.get(), secrets, "setting a key leaves the secret keys")
    ensure_same(env, env0, "setting a key leaves the environment")
    ensure_same(get_config(k), v, "the value set is found")


def check_set_config_other_key():
    """Every other key keeps its value, wherever it comes from."""
    conf, sec, env = setup()
    use_env_key()
    k, other = a_key(), a_key("other")
    assume(k != other)
    had, before = True, None
    try:
        before = get_config(other)
    except (ValueError, TypeError):
        had = False
    set_config(k, sym("v", "any"))
    if had:
        ensure_same(get_config(other), before, "other keys keep their value")


def check_set_all_config():
    conf, sec, env = setup()
    new = sym("new", ("dict", "str", "any"), native=native_config)
    given = dict(new)
    secrets, env0 = set(sec.get()), dict(env)
    keys = sym("keys", ("list", "str"), native=lambda: [rand().choice(["a", "b", "a"]) for _ in range(rand().randrange(3))]) \
        if choose("secret keys given", [True, False]) else None
    if keys is None:
        set_all_config(new)
        ensure_same(sec.get(), secrets, "secret keys not given are left")
    else:
        set_all_config(new, keys)
        ensure_same(sec.get(), set(keys), "exactly the given secret keys")
        k = a_key()
        ensure(iff(is_config_secret(k), k in keys), "secret exactly if listed")
    ensure_same(conf.get(), given, "exactly the new keys")
    ensure_same(new, given, "the given dictionary is not changed")
    ensure_same(env, env0, "the environment is left")
    set_config(a_key("later"), 1)
    ensure_same(new, given, "later changes do not reach the given dictionary")


def check_is_secret():
    conf, sec, env = setup()
    k = a_key()
    ensure(iff(is_config_secret(k), k in sec.get()), "secret exactly if listed")


HARNESSES = [check_env_key, check_get_config, check_lookup_is_pure, check_env_readers, check_set_config, check_set_config_other_key,
             check_set_all_config, check_is_secret]
NATIVE = []
