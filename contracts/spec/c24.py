"""C24: dynamic providers survive serialization, which leaves nothing behind in the process."""
from spec.common import *
from pulumi.dynamic.dynamic import serialize_provider
if SYMBOLIC:
    from pulumi.dynamic.__main__ import get_provider
else:
    import base64
    import dill
    import os
    import pickle
    import pulumi
    import subprocess
    import sys
    import pulumi.dynamic as dyn
    from pv import note

D = "pulumi.dynamic.dynamic."
ASSUMPTIONS = ["dill.dumps pickles the object it is given with the pickler class and methods in place when it is called, and dill.loads is its inverse",
               "CustomResource's constructor by contract (C29)"]
STATE = {}


class Failure(Exception):
    pass


class Stock:
    """The pure Python pickler class: its methods before the call."""

    def __init__(self, batch, save):
        self._batch_setitems = batch
        self.save_dict = save


class PickleModule:
    def __init__(self, pickler, stock):
        self.Pickler = pickler
        self._Pickler = stock
        self.MARK = b"("
        self.DICT = b"d"
        self.EMPTY_DICT = b"}"
        self.DEFAULT_PROTOCOL = 4


class Pickling:
    """One pickling under way."""

    def __init__(self, binary):
        self.bin = binary
        self.did = []

    def write(self, b):
        self.did.append(("write", b))

    def memoize(self, o):
        self.did.append(("memoize", o))

    def _batch_setitems(self, items):
        self.did.append(("batch", items))


class Text:
    def __init__(self, b):
        self.b = b

    def decode(self, encoding=None):
        ensure(encoding == "utf-8", "as UTF-8")
        return ufn("decoded", self.b, result="str")


class Base64:
    def b64encode(self, b):
        return Text(ufn("base64", b))


class Dill:
    def dumps(self, obj, protocol=None, recurse=None, byref=None):
        STATE["dumped"].append((obj, protocol, recurse))
        m = STATE["pickle"]
        ensure(m.Pickler is STATE["stock"], "the pure Python pickler is used")
        items = STATE["items"]
        p = Pickling(True)
        m._Pickler._batch_setitems(p, items)
        ensure(len(STATE["batches"]) == 1, "the entries of a dictionary are written once")
        who, got = STATE["batches"][0]
        ensure(who is p, "by the pickling under way")
        ensure_same(got, sorted(items), "in the order of their keys")
        d = sym("a dictionary", ("dict", "str", "any"))
        for binary in [True, False]:
            p = Pickling(binary)
            m._Pickler.save_dict(p, d)
            ensure(len(p.did) == 3 and p.did[0][0] == "write" and p.did[1][0] == "memoize" and p.did[2][0] == "batch", "a dictionary is opened, remembered and filled")
            ensure(p.did[0][1] == (b"}" if binary else b"(d"), "opened as the protocol asks")
            ensure(p.did[1][1] is d, "the dictionary itself is remembered")
            k = sym("some key", "str")
            filled = {a: b for a, b in p.did[2][1]}
            ensure(iff(k in filled, k in d), "with all of its keys")
            if k in d:
                ensure_same(filled[k], d[k], "and their values")
        if STATE["fails"]:
            raise Failure()
        return "pickled"


def batch_before(self, items):
    STATE["batches"].append((self, items))


def save_before(self, obj):
    STATE["saved"].append(obj)


async def check_serialize():
    """A provider is pickled once, dictionaries in the order of their keys, and nothing of that is left behind, whatever happens."""
    if not SYMBOLIC:
        return
    STATE["dumped"], STATE["batches"], STATE["saved"] = [], [], []
    STATE["fails"] = choose("fails", [False, True])
    STATE["items"] = sym("items", ("list", "any"))
    stock = Stock(batch_before, save_before)
    other = Stock(batch_before, save_before)
    m = PickleModule(other, stock)
    STATE["pickle"], STATE["stock"] = m, stock
    setg(D + "pickle", m)
    setg(D + "dill", Dill())
    setg(D + "base64", Base64())
    provider = sym("provider", "any")
    got, failed = None, False
    try:
        got = serialize_provider(provider)
    except Failure:
        failed = True
    ensure(failed == STATE["fails"], "fails exactly if pickling fails")
    ensure(len(STATE["dumped"]) == 1 and STATE["dumped"][0][0] is provider, "the provider is pickled once")
    ensure(STATE["dumped"][0][1] == 4 and STATE["dumped"][0][2] is True, "with what it refers to")
    if not failed:
        ensure(got == ufn("decoded", ufn("base64", "pickled"), result="str"), "in base64")
    ensure(m.Pickler is other, "the pickler is what it was")
    STATE["batches"] = []
    p, items = Pickling(True), sym("later items", "any")
    stock._batch_setitems(p, items)
    ensure(len(STATE["batches"]) == 1 and STATE["batches"][0][1] is items, "entries are written as before")
    stock.save_dict(p, "x")
    ensure(STATE["saved"] == ["x"] and len(p.did) == 0, "dictionaries are written as before")


async def check_get_provider():
    """The provider process loads what the program serialized."""
    if not SYMBOLIC:
        return

    class Loader:
        def loads(self, b):
            return ufn("loaded", b)

    class Decode:
        def b64decode(self, s):
            return ufn("bytes", s)
    M = "pulumi.dynamic.__main__."
    setg(M + "dill", Loader())
    setg(M + "base64", Decode())
    props = sym("properties", ("dict", "str", "any"))
    assume("__provider" in props)
    got = get_provider(props)
    ensure(got is ufn("loaded", ufn("bytes", props["__provider"])), "the provider of the properties")


def spec_init(self, t, name, props=None, opts=None, dependency=None):
    STATE["created"].append((self, t, name, props, opts))


async def check_resource():
    """A dynamic resource has the properties given and its provider, and leaves the caller's properties alone."""
    if not SYMBOLIC:
        return
    STATE["created"] = []
    use("pulumi.resource.CustomResource.__init__", spec_init)
    use(D + "serialize_provider", lambda p: ufn("serialized provider", p, result="str"))
    props = sym("properties", ("dict", "str", "any"))
    before = dict(props)
    provider, opts, name, tn = sym("provider", "any"), sym("options", "any"), sym("name", "str"), sym("type name", "str")
    given = "__provider" in props
    r = make(D + "Resource", _resource_type_name=tn)
    rejected = False
    try:
        r.__init__(provider, name, props, opts)
    except Exception:
        rejected = True
    ensure(iff(rejected, given), "rejected exactly if the provider's property is among them")
    ensure_same(props, before, "the caller's properties are unchanged")
    if rejected:
        ensure(len(STATE["created"]) == 0, "nothing is created")
        return
    ensure(len(STATE["created"]) == 1, "created once")
    who, t, n, got, o = STATE["created"][0]
    ensure(who is r and n == name and o is opts, "under its name, with its options")
    ensure(t == "pulumi-python:" + tn, "of its dynamic type")
    k = sym("some property", "str")
    if k == "__provider":
        ensure(got[k] == ufn("serialized provider", provider, result="str"), "with the provider")
    else:
        ensure(iff(k in got, k in before), "exactly the properties given")
        if k in before:
            ensure_same(got[k], before[k], "each as given")


# ------------------------------------------------------------------ native
if not SYMBOLIC:
    class Plain(dyn.ResourceProvider):
        def __init__(self, d):
            self.d = d

        def create(self, props):
            return dyn.CreateResult("id", {"d": self.d})


PROGRAM = '''
import sys, json
from pulumi.dynamic import *
from pulumi.dynamic.dynamic import serialize_provider
LIMIT = {limit}

def helper(x):
    return {helper}

class Base(ResourceProvider):
    def name(self):
        return "base"

class Mine(Base):
    state = {shared}
    def __init__(self, held):
        self.held = held
    def name(self):
        return super().name() + "/mine"
    def create(self, props):
        return CreateResult(self.name(), {{"held": self.held, "state": self.state, "limit": LIMIT, "h": helper(props["n"]), "p": props["n"]}})
    def diff(self, id, olds, news):
        return DiffResult(changes=olds != news, replaces=sorted(k for k in news if olds.get(k) != news[k]))
def scaled(k):
    class Inner(Mine):
        def delete(self, id, props):
            raise ValueError(str(k * props["n"]))
    return Inner
P = {cls}
p = P({held})
'''
USE = '''
def use(p):
    out = []
    r = p.create({"n": 3})
    out += [r.id, r.outs]
    d = p.diff("i", {"a": 1}, {"a": 1, "b": 2})
    out += [d.changes, d.replaces, d.stables]
    try:
        out.append(p.delete("i", {"n": 5}))
    except ValueError as e:
        out.append(str(e))
    out.append(p.check({}, {"q": 1}).inputs)
    return json.dumps(out, sort_keys=True)
'''
LOAD = '''
import sys, json, grpc, importlib.util
class Stop(BaseException):
    pass
def server(*a, **k):
    raise Stop()
grpc.server = server
spec = importlib.util.find_spec("pulumi.dynamic.__main__")
m = importlib.util.module_from_spec(spec)
try:
    spec.loader.exec_module(m)
except Stop:
    pass
''' + USE + "print(use(m.get_provider({'__provider': open(sys.argv[1]).read(), 'n': 1})))\n"


def rand_json(r, depth=0):
    k = r.randrange(6)
    if k == 0 and depth < 2:
        return {x: rand_json(r, depth + 1) for x in r.sample(["b", "a", "z", "m"], r.randrange(4))}
    if k == 1 and depth < 2:
        return [rand_json(r, depth + 1) for _ in range(r.randrange(3))]
    return r.choice([None, True, 0, 7, -1, 2.5, "", "text", "é", "x" * 50])


def run_python(code, *args):
    import pulumi as _p
    lib = os.path.dirname(os.path.dirname(_p.__file__))
    env = {"PATH": os.environ.get("PATH", ""), "PYTHONPATH": lib, "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": str(rand().randrange(1, 1000))}
    q = subprocess.run([sys.executable, "-W", "ignore", "-c", code, *args], env=env, capture_output=True, text=True, timeout=50)
    if q.returncode != 0:
        raise RuntimeError(q.stderr[-600:])
    return q.stdout


async def check_round_trip_native():
    """A provider defined by a program behaves in another process as in the program, and serializes to the same text in every run."""
    if SYMBOLIC:
        return
    import tempfile
    r = rand()
    prog = PROGRAM.format(limit=r.randrange(5), helper=r.choice(["x + LIMIT", "[x] * 2", "str(x)", "len(str(x)) + helper2(x) if False else x"]),
                          shared=repr(rand_json(r)), held=repr(rand_json(r)), cls=r.choice(["Mine", "scaled(2)", "scaled(LIMIT)"]))
    note("program", prog)
    earlier = r.choice([0, 0, 3])
    code = prog + USE + f"for _ in range({earlier}): serialize_provider(p)\nsys.stdout.write(serialize_provider(p) + chr(10) + use(p))\n"
    text, want = run_python(code).split("\n", 1)
    again = run_python(code).split("\n", 1)[0]
    ensure(text == again, "serialized to the same text in every run")
    with tempfile.NamedTemporaryFile("w", suffix=".txt") as f:
        f.write(text)
        f.flush()
        got = run_python(LOAD, f.name)
    ensure(got.strip() == want.strip(), "behaves as the original")


async def check_repeat_native():
    """However many providers a program has, each is serialized alike, and other pickling is left alone."""
    if SYMBOLIC:
        return
    r = rand()
    v = rand_json(r)
    values = {k: r.choice([1, 2, None]) for k in r.sample(["b", "a", "z", "m", "k"], r.randrange(6))}
    turned = list(values.items())
    r.shuffle(turned)
    before = (pickle.Pickler, pickle._Pickler._batch_setitems, pickle._Pickler.save_dict)
    first = serialize_provider(Plain(values))
    n = r.choice([1, 2, 700])
    for _ in range(n):
        last = serialize_provider(Plain(dict(turned)))
    ensure(first == last, "the order in which a dictionary was filled does not matter")
    ensure(before == (pickle.Pickler, pickle._Pickler._batch_setitems, pickle._Pickler.save_dict), "pickling is left as it was")

    class Unpicklable:
        def __reduce__(self):
            raise Failure("cannot be pickled")
    failed = False
    try:
        serialize_provider(Plain(Unpicklable()))
    except Failure:
        failed = True
    ensure(failed, "a provider that cannot be pickled is reported")
    ensure(before == (pickle.Pickler, pickle._Pickler._batch_setitems, pickle._Pickler.save_dict), "pickling is left as it was after a failure")
    loaded = dill.loads(base64.b64decode(serialize_provider(Plain(v))))
    ensure(loaded.d == v and loaded.create({}).outs == {"d": v}, "the provider holds what it held")
    mixed = {1: "x", "1": "y", None: "z"}
    ensure(pickle.loads(pickle.dumps(mixed)) == mixed and list(pickle.loads(pickle.dumps(mixed))) == list(mixed), "other dictionaries keep their order")


async def check_resource_native():
    """Dynamic resources made from shared properties: each sends them and its own provider."""
    if SYMBOLIC:
        return
    r = rand()
    sent = []

    class Kind(dyn.Resource, **r.choice([{}, {"name": "Thing"}, {"module": "m", "name": "N"}, {"module": "a/b"}])):
        pass
    want_type = "pulumi-python:" + Kind._resource_type_name

    def init(self, t, name, props=None, opts=None, dependency=None):
        sent.append((t, name, props, opts))
    setg("pulumi.resource.CustomResource.__init__", init)
    props = {k: rand_json(r) for k in r.sample(["a", "b", "c"], r.randrange(4))}
    before = dict(props)
    n = r.randrange(1, 4)
    for k in range(n):
        o = r.choice([None, pulumi.ResourceOptions(protect=True)])
        Kind(Plain(k), f"n{k}", props, o)
        t, name, got, opts = sent[-1]
        ensure(t == want_type and name == f"n{k}" and opts is o, "its type, name and options")
        ensure({x: got[x] for x in got if x != "__provider"} == before, "the properties given")
        ensure(dill.loads(base64.b64decode(got["__provider"])).d == k, "its provider")
        ensure(props == before, "the caller's properties are unchanged")
    ensure(len(sent) == n, "each created once")
    rejected = False
    try:
        Kind(Plain(0), "x", {"__provider": r.choice(["mine", "", None, 0]), "a": 1})
    except Exception:
        rejected = True
    ensure(rejected and len(sent) == n, "the provider's property cannot be given")


HARNESSES = [check_serialize, check_get_provider, check_resource]
NATIVE = [check_round_trip_native, check_repeat_native, check_resource_native]
BOUNDS = {"check_round_trip_native": "programs with two to three provider classes, a helper, a global and nested state, in fresh processes",
          "check_repeat_native": "up to 700 serializations in one process",
          "check_resource_native": "up to 3 resources made from the same properties"}
