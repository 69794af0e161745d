"""C07: translation of engine outputs: keys renamed at every depth, secrets stay wrapped, everything else in place."""
import enum
from typing import Any, Dict, List, Mapping, Optional, Sequence
from collections import abc
import pulumi
from spec.common import *
from pulumi.runtime.rpc import translate_output_properties
from pulumi.runtime.rpc import _special_sig_key as SIG, _special_secret_sig as SECRET
from pulumi import _types

ASSUMPTIONS = ["the value is a deserialized one: secret markers are not nested directly inside each other",
               "the name translator is a function of the name and never produces the secret signature key",
               "the declared type, when there is one, matches the value's shape (a mismatch raises; it never alters the value)"]


def wrapped(d):
    """Contract of is_rpc_secret (proved in C06)."""
    if opaque(d):
        return and_(kind_is(d, "dict"), ufb("wrapped", d))
    return isinstance(d, dict) and SIG in d and d[SIG] == SECRET


class Elem:
    """An element type the translation passes along."""


class Other:
    """Another one."""


class Color(enum.Enum):
    RED = "red"
    BLUE = "blue"


class Size(enum.IntEnum):
    ONE = 1
    TWO = 2


class Ratio(float, enum.Enum):
    HALF = 0.5
    FULL = 1.0


def rename(k):
    if SYMBOLIC:
        return ufn("rename", k, result="str")
    return k + "_t" if k in ("a", "someKey") else k.lower()


def contract(output, output_transformer, typ=None, transform_using_type_metadata=False, path=None):
    """Contract of translate_output_properties for the values inside output."""
    r = ufn("translated", output, output_transformer, typ, bool(transform_using_type_metadata))
    if wrapped(output):
        assume(wrapped(r))
    else:
        assume(not_(wrapped(r)))
    return r


def tr(v, typ, meta):
    if SYMBOLIC:
        return contract(v, rename, typ, meta)
    return native_tr(v, typ, meta)


def native_tr(v, typ, meta):
    if isinstance(v, dict) and SIG in v and v[SIG] == SECRET:
        return {SIG: SECRET, "value": native_tr(v["value"], typ, meta)}
    if typ is Any:
        typ = None
    if isinstance(v, dict):
        if typ is OutT:
            return OutT(first=native_tr(v.get("firstArg"), str, meta), second=native_tr(v.get("secondArg"), Dict[str, int], meta))
        elem, ren = elem_and_rename(typ, meta)
        return {ren(k): native_tr(x, elem, meta) for k, x in v.items()}
    if isinstance(v, list):
        return [native_tr(x, list_elem(typ), meta) for x in v]
    if typ in (Color, Size, Ratio) and isinstance(v, (int, float, str)):
        return typ(v)
    if typ is int and isinstance(v, float):
        return int(v)
    return v


def elem_and_rename(typ, meta):
    for q, e in ((Dict[str, int], int), (Mapping[str, Color], Color), (Dict[str, Any], Any), (Dict[str, OutT], OutT)):
        if typ == q:
            return e, (lambda k: k) if meta else rename
    return None, rename


def list_elem(typ):
    for q, e in ((List[int], int), (Sequence[Color], Color), (List[Dict[str, int]], Dict[str, int]), (List[OutT], OutT)):
        if typ == q:
            return e
    return None


@pulumi.output_type
class OutT:
    def __init__(self, *, first: str, second: Optional[Dict[str, int]] = None):
        pulumi.set(self, "first", first)
        pulumi.set(self, "second", second)

    @property
    @pulumi.getter(name="firstArg")
    def first(self) -> str:
        ...

    @property
    @pulumi.getter(name="secondArg")
    def second(self) -> Optional[Dict[str, int]]:
        ...


# ------------------------------------------------------------------ native values matching a type
NKEYS = ["a", "b", "someKey", "Some", "value", "firstArg", "x"]
NTYPES = [None, None, None, Any, Dict[str, int], Mapping[str, Color], Dict[str, Any], Dict[str, OutT], OutT, List[int],
          Sequence[Color], List[Dict[str, int]], List[OutT], int, float, str, Color, Size, Ratio, dict, list]


def value_of(typ, depth=0):
    r = rand()
    if r.random() < 0.15 and depth < 5:
        v = value_of(typ, depth + 1)
        return v if isinstance(v, dict) and SIG in v else {SIG: SECRET, "value": v}
    if r.random() < 0.1:
        return None
    if typ is None or typ is Any:
        k = r.randrange(5)
        if k < 2 or depth > 3:
            return r.choice(["s", "", 1.0, 2.5, True, False, "a", "someKey"])
        if k == 2:
            return [value_of(None, depth + 1) for _ in range(r.randrange(4))]
        return {q: value_of(None, depth + 1) for q in r.sample(NKEYS, r.randrange(4))}
    if typ is OutT:
        d = {"firstArg": value_of(str, depth + 1)}
        if r.random() < 0.7:
            d["secondArg"] = value_of(Dict[str, int], depth + 1)
        return d
    e, _ = elem_and_rename(typ, True)
    if e is not None:
        return {q: value_of(e, depth + 1) for q in r.sample(NKEYS, r.randrange(4))}
    e = list_elem(typ)
    if e is not None:
        return [value_of(e, depth + 1) for _ in range(r.randrange(4))]
    if typ is dict:
        return {q: value_of(None, depth + 1) for q in r.sample(NKEYS, r.randrange(4))}
    if typ is list:
        return [value_of(None, depth + 1) for _ in range(r.randrange(4))]
    return {int: r.choice([1.0, 2.0, -3.0, 2 ** 40 + 0.0]), float: r.choice([1.0, 2.5]), str: r.choice(["s", ""]),
            Color: r.choice(["red", "blue"]), Size: r.choice([1.0, 2.0]), Ratio: r.choice([0.5, 1.0])}[typ]


def setup():
    if SYMBOLIC:
        use("pulumi.runtime.rpc.is_rpc_secret", wrapped)
        use("pulumi.runtime.rpc.translate_output_properties", contract)


# ------------------------------------------------------------------ obligations
async def check_whole():
    """Natively: whole values of matching types, all the way down."""
    meta = choose("metadata", [False, True])
    if SYMBOLIC:
        return
    typ = rand().choice(NTYPES)
    v = value_of(typ)
    if typ is not None and rand().random() < 0.3 and typ is not Any and typ is not dict and typ is not list:
        r = translate_output_properties(v, rename, Optional[typ], meta)
    else:
        r = translate_output_properties(v, rename, typ, meta)
    ensure_same(r, native_tr(v, typ if typ not in (dict, list) else None, meta), f"translation under {typ}")


async def check_secret():
    """A wrapped value is translated inside and wrapped again."""
    setup()
    meta = choose("metadata", [False, True])
    typ = choose("type", [None, Elem, Dict[str, Elem], List[Elem]])
    v = sym("v", "any", native=lambda: value_of(None, 4))
    assume(not_(wrapped(v)))
    t = typ if SYMBOLIC else None
    r = root(translate_output_properties, {SIG: SECRET, "value": v}, rename, t, meta)
    ensure(wrapped(r), "a secret stays a secret")
    if wrapped(r):
        ensure_same(r["value"], tr(v, t, meta), "a secret's value is translated inside")
        ensure(len(r) == 2, "a secret marker holds the signature and the value only")


DICT_TYPES = ["none", "any", "dict", "Dict", "Mapping", "Optional Dict", "Optional any", "abc.Mapping"]


def dict_type(form):
    """(the type, the type of the elements, is it a user-defined dictionary)"""
    if form == "none":
        return None, None, False
    if form == "any":
        return Any, None, False
    if form == "dict":
        return dict, None, False
    if form == "Dict":
        return Dict[str, Elem], Elem, True
    if form == "Mapping":
        return Mapping[str, Elem], Elem, True
    if form == "Optional Dict":
        return Optional[Dict[str, Elem]], Elem, True
    if form == "Optional any":
        return Optional[Any], None, False
    return Mapping[str, Other], Other, True


async def check_dict():
    """Every key renamed (user-defined dictionaries left alone under metadata), every value translated in place."""
    setup()
    meta = choose("metadata", [False, True])
    typ, elem, user = dict_type(choose("type", DICT_TYPES))
    if not SYMBOLIC:
        return
    d = sym("d", ("dict", "str", "any"))
    assume(not_(wrapped(d)))
    assume(SIG not in d)
    assume(all(rename(k) != SIG for k in d))
    r = root(translate_output_properties, d, rename, typ, meta)
    if user and meta:
        ensure_same(r, {k: tr(x, elem, meta) for k, x in d.items()}, "a user-defined dictionary keeps its keys")
    else:
        ensure_same(r, {rename(k): tr(x, elem, meta) for k, x in d.items()}, "every key is renamed")
    ensure(not wrapped(r), "no secret marker is added")


async def check_output_type():
    """Output types: every property translated under its own type, then the type is instantiated."""
    setup()
    meta = choose("metadata", [False, True])
    optional = choose("optional", [False, True])
    if not SYMBOLIC:
        return

    def is_output_type(c):
        return c is Other

    def output_type_types(c):
        return {"first": Elem, "second": int}

    def output_type_from_dict(c, out):
        return ("instance", c, out)
    use("pulumi._types.is_output_type", is_output_type)
    use("pulumi._types.output_type_types", output_type_types)
    use("pulumi._types.output_type_from_dict", output_type_from_dict)
    d = sym("d", ("dict", "str", "any"))
    assume(not_(wrapped(d)))
    r = root(translate_output_properties, d, rename, Optional[Other] if optional else Other, meta)
    ensure(isinstance(r, tuple) and r[0] == "instance" and r[1] is Other, "the declared type is instantiated")
    ensure_same(r[2], {k: tr(x, Elem if k == "first" else int if k == "second" else None, meta) for k, x in d.items()},
                "every property translated under its own declared type, keys left to the type")


LIST_TYPES = ["none", "any", "list", "List", "Sequence", "Optional List", "bare List", "bare Sequence"]


def list_type(form):
    if form == "none" or form == "any":
        return (None if form == "none" else Any), None
    if form == "list":
        return list, Any
    if form == "List":
        return List[Elem], Elem
    if form == "Sequence":
        return Sequence[Elem], Elem
    if form == "Optional List":
        return Optional[List[Elem]], Elem
    return (List if form == "bare List" else Sequence), Any


async def check_list():
    """Every element translated in place."""
    setup()
    meta = choose("metadata", [False, True])
    typ, elem = list_type(choose("type", LIST_TYPES))
    if not SYMBOLIC:
        return
    l = sym("l", ("list", "any"))
    r = root(translate_output_properties, l, rename, typ, meta)
    ensure_same(r, [tr(x, elem, meta) for x in l], "every element in place")


async def check_primitive():
    """Primitives are unchanged unless the declared type is an int or an enum."""
    setup()
    meta = choose("metadata", [False, True])
    form = choose("type", ["none", "any", "int", "float", "str", "bool", "elem", "Optional int", "Color", "Size"])
    typ = {"none": None, "any": Any, "int": int, "float": float, "str": str, "bool": bool, "elem": Elem, "Optional int": Optional[int],
           "Color": Color, "Size": Size}[form]
    v = sym("v", "any", native=lambda: rand().choice([None, True, False, "", "s", 1.0, 2.0, -1.5, 2.5, 3, UNKNOWN, "red", "blue"]))
    assume(not_(kind_is(v, "list", "dict")))
    enum_t = form in ("Color", "Size")
    values = ["red", "blue"] if form == "Color" else [1.0, 2.0]
    raised = False
    r = None
    try:
        r = root(translate_output_properties, v, rename, typ, meta)
    except ValueError:
        raised = True
    if enum_t and isinstance(v, (int, float, str)):
        member = None
        for m in typ:
            if m.value == v:
                member = m
        ensure(raised == (member is None), "a value that is no member is rejected")
        if not raised:
            ensure(r is member, "an enum value becomes its member")
    else:
        ensure(not raised, "no error")
        if form in ("int", "Optional int") and kind_is(v, "float"):
            ensure(kind_is(r, "int"), "a float declared int becomes an int")
            ensure(r == int(v), "of the same value")
        else:
            ensure_same(r, v, "any other primitive is unchanged")


HARNESSES = [check_secret, check_dict, check_output_type, check_list, check_primitive]
NATIVE = [check_whole]
BOUNDS = {"check_whole": "random values of 21 declared types, depth 5"}
