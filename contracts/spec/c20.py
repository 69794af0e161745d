"""C20: typed argument objects and their name maps."""
from spec.common import *
import pulumi._types as ty
from pulumi._types import (input_type_to_dict, input_type_py_to_pulumi_names, output_type_from_dict, _py_properties, get as get_value,
                           set as set_value, _translate_name, _create_py_property, _properties_from_annotations, _names_from_annotations,
                           _pulumi_to_py_names_from_py_properties, _py_to_pulumi_names_from_py_properties,
                           resource_pulumi_to_py_names, resource_py_to_pulumi_names, getter)
import builtins
if not SYMBOLIC:
    import typing
    import pulumi
    from pv import note

PROP = "spec.pvlib.Property"

ASSUMPTIONS = ["a class declares no wire name twice, and a property overridden in a subclass keeps its wire name",
               "an attribute of a class is a Python identifier"]


class Entry:
    """One declared property of a class: Python name, wire name, property object."""


class Getter:
    """The getter function of a property."""

    def __call__(self, obj):
        return ufn("read", self, obj)


class Base:
    """A class in the resolution order of a typed class."""


class Cls:
    """A class object, as far as the verified code inspects it."""


class Typed:
    """A class of typed arguments."""


def model():
    schema("spec.c20.Entry", py="str", pu="str", prop=("obj", PROP))
    schema("spec.c20.Getter", _pulumi_name=("attr", "str"))
    schema("spec.c20.Base", __dict__=("dict", "str", "any"))
    schema("spec.c20.Cls", __mro__=("list", ("obj", "spec.c20.Base")))
    schema(PROP, fget=("obj", "spec.c20.Getter"), fset="any")


def entries():
    """The declared properties of a class: Python names and wire names are unique."""
    model()
    es = sym("entries", ("list", ("obj", "spec.c20.Entry")))

    def py_properties(cls):
        return [(e.py, e.pu, e.prop) for e in es]

    def marked(cls):
        return True
    use("pulumi._types._py_properties", py_properties)
    use("pulumi._types.is_input_type", marked)
    use("pulumi._types.is_output_type", marked)
    return es


async def check_to_dict():
    """The wire dictionary has one entry per property that is set, under the property's wire name, with the property's value."""
    if not SYMBOLIC:
        return
    es = entries()
    obj = sym("obj", ("obj", "spec.c20.Typed"))
    r = input_type_to_dict(obj)
    ensure_same(r, {e.pu: e.prop.fget(obj) for e in es if e.prop.fget(obj) is not None}, "one entry per property that is set")


async def check_py_to_pulumi():
    """Names of an input type."""
    if not SYMBOLIC:
        return
    es = entries()
    ensure_same(input_type_py_to_pulumi_names(Typed), {e.py: e.pu for e in es}, "every Python name gives its wire name")
    ensure_same(_py_to_pulumi_names_from_py_properties(Typed), {e.py: e.pu for e in es}, "every Python name gives its wire name")
    ensure_same(_pulumi_to_py_names_from_py_properties(Typed), {e.pu: e.py for e in es}, "every wire name gives its Python name")


async def check_inverse():
    """Name maps of the same type are inverse to each other (on the declared names)."""
    if not SYMBOLIC:
        return
    es = entries()
    assume(all(ufn("owner", e.pu, result="str") == e.py for e in es))     # wire names are unique
    assume(all(ufn("wire", e.py, result="str") == e.pu for e in es))      # Python names are unique
    to_wire = input_type_py_to_pulumi_names(Typed)
    to_wire2 = _py_to_pulumi_names_from_py_properties(Typed)
    to_py = _pulumi_to_py_names_from_py_properties(Typed)
    n = sym("python name", "str")
    w = sym("wire name", "str")
    if n in to_wire:
        ensure(to_wire[n] in to_py, "every wire name is known to the reverse map")
        ensure(to_py[to_wire[n]] == n, "Python to wire and back")
        ensure(to_wire2[n] == to_wire[n], "both Python-to-wire maps agree")
    if w in to_py:
        ensure(to_py[w] in to_wire and to_py[w] in to_wire2, "every Python name is known to the forward map")
        ensure(to_wire[to_py[w]] == w, "wire to Python and back")


async def check_from_dict():
    """An output type is built with every property's value looked up under the wire name."""
    if not SYMBOLIC:
        return
    es = entries()
    out = sym("output", ("dict", "str", "any"))
    given = []

    def build(**kw):
        given.append(kw)
        return 5
    r = output_type_from_dict(build, out)
    ensure(r == 5 and len(given) == 1, "the object built is returned")
    ensure_same(given[0], {e.py: out.get(e.pu) for e in es}, "every property under its Python name, with the value under its wire name")


async def check_properties():
    """The declared properties: of every class in the resolution order, base classes first."""
    if not SYMBOLIC:
        return
    model()
    cls = sym("cls", ("obj", "spec.c20.Cls"))
    got = list(_py_properties(cls))
    want = [(n, v.fget._pulumi_name, v) for b in reversed(cls.__mro__) for n, v in b.__dict__.items()
            if isinstance(v, builtins.property) and hasattr(v.fget, "_pulumi_name")]
    ensure_same(got, want, "exactly the properties whose getter carries a wire name, in resolution order")


class InputPlain:
    _pulumi_input_type = True


class InputDict(dict):
    _pulumi_input_type = True


class OutputPlain:
    _pulumi_output_type = True


class OutputTranslated:
    _pulumi_output_type = True
    _pulumi_python_to_pulumi_table = "set by the harness"

    def _translate_property(self, name):
        return ufn("translated", name, result="str")


def an_object():
    kind = choose("kind", ["InputPlain", "OutputPlain", "OutputTranslated"])
    o = make("spec.c20." + kind)
    attrs = sym("attrs", ("dict", "str", "any"))
    o.__dict__.update(attrs)
    return kind, o, attrs


def stored_as(kind, name):
    if kind == "OutputTranslated":
        return ufn("translated", name, result="str")
    return name


async def check_get():
    """A value is looked up under the (translated) Python name."""
    if not SYMBOLIC:
        return
    kind, o, attrs = an_object()
    name = sym("name", "str")
    assume(name != "")
    r = get_value(o, name)
    key = stored_as(kind, name)
    ensure_same(r, attrs[key] if key in attrs else None, "the value stored under the name, None if there is none")


async def check_set():
    """Setting a value stores it under the name, leaves everything else alone, and getting it gives it back."""
    if not SYMBOLIC:
        return
    kind, o, attrs = an_object()
    name, other = sym("name", "str"), sym("other", "str")
    assume(name != "" and other != "")
    v = sym("v", "any")
    set_value(o, name, v)
    ensure_same(get_value(o, name), v, "the value set is the value got")
    key, okey = stored_as(kind, name), stored_as(kind, other)
    if okey != key:
        ensure_same(get_value(o, other), attrs[okey] if okey in attrs else None, "the other values stay")


async def check_declared_property():
    """The property made for a declaration reads and writes under the Python name and carries the wire name."""
    if not SYMBOLIC:
        return
    seen = []

    def got(o, n):
        seen.append(("get", o, n, None))
        return ufn("got", o, n)

    def put(o, n, v):
        seen.append(("set", o, n, v))
    use("pulumi._types.get", got)
    use("pulumi._types.set", put)
    a, w, t = sym("python name", "str"), sym("wire name", "str"), sym("type", "any")
    o, v = sym("o", ("obj", "spec.c20.Typed")), sym("v", "any")
    writable = choose("writable", [False, True])
    p = _create_py_property(a, w, t, writable)
    ensure(isinstance(p, builtins.property), "a property")
    ensure(getattr(p.fget, "_pulumi_name", None) == w, "the getter carries the wire name")
    ensure_same(p.fget(o), ufn("got", o, a), "reading gives the value under the Python name")
    ensure((p.fset is not None) == writable, "writable exactly when asked for")
    if writable:
        p.fset(o, v)
        k, so, sn, sv = seen[1]
        ensure(k == "set" and so is o and sn == a and sv is v, "writing stores the value under the Python name")


async def check_annotations():
    """Names declared by annotations: the wire name given by the declaration, else the Python name."""
    if not SYMBOLIC:
        return
    schema("pulumi._types._Property", name="str", default="any", type="any")
    cls = make("spec.c20.Cls")
    attrs = sym("class attributes", ("dict", "str", "any"))
    decl = sym("declared", ("dict", "str", "any"))
    assume("__annotations__" not in attrs and "__annotations__" not in decl)
    cls.__dict__.update(attrs)
    if choose("annotations", [False, True]):
        cls.__dict__["__annotations__"] = decl
    else:
        decl = {}
    got = dict(_names_from_annotations(cls))
    p = sym("p", "str")
    ensure((p in got) == (p in decl), "exactly the annotated names")
    if p in decl:
        d = attrs[p] if p in attrs else None
        if isinstance(d, ty._Property):
            ensure(got[p] == d.name, "a declared wire name is used")
        else:
            ensure(got[p] == p, "without a declared wire name the Python name is the wire name")


async def check_resource_names():
    """The name maps of a resource class cover annotations and properties and are inverse to each other."""
    if not SYMBOLIC:
        return
    es = entries()
    ann = sym("annotated", ("list", ("obj", "spec.c20.Entry")))

    def from_annotations(cls):
        return [(e.py, e.pu) for e in ann]
    use("pulumi._types._names_from_annotations", from_annotations)
    assume(all(ufn("owner", e.pu, result="str") == e.py for e in es))     # wire names are unique
    assume(all(ufn("wire", e.py, result="str") == e.pu for e in es))      # Python names are unique
    assume(all(ufn("owner", e.pu, result="str") == e.py for e in ann))
    assume(all(ufn("wire", e.py, result="str") == e.pu for e in ann))
    which = choose("source", ["property", "annotation"])
    e = sym("an entry", ("obj", "spec.c20.Entry"))
    assume(e in (es if which == "property" else ann))
    to_py = resource_pulumi_to_py_names(Typed)
    to_wire = resource_py_to_pulumi_names(Typed)
    ensure(e.py in to_wire, "every declared Python name is in the map")
    ensure(to_wire[e.py] == e.pu, "with its wire name")
    ensure(e.pu in to_py, "every declared wire name is in the map")
    ensure(to_py[e.pu] == e.py, "with its Python name")
    n = sym("some name", "str")
    ensure(implies(n in to_wire, or_(any(x.py == n for x in es), any(x.py == n for x in ann))), "no other Python name")
    ensure(implies(n in to_py, or_(any(x.pu == n for x in es), any(x.pu == n for x in ann))), "no other wire name")


async def check_getter():
    """A property getter carries its wire name; an empty one reads the value under the function's name."""
    if not SYMBOLIC:
        return
    empty = choose("empty", [False, True])

    def is_empty(fn):
        return empty

    def got(o, n):
        return ufn("got", o, n)
    use("pulumi._utils.is_empty_function", is_empty)
    use("pulumi._types.get", got)
    wire = sym("wire name", ("opt", "str"))

    def first_arg(self):
        return 77
    how = choose("used as", ["plain", "called", "named"])
    if how == "plain":
        f = getter(first_arg)
    elif how == "called":
        f = getter()(first_arg)
    else:
        f = getter(name=wire)(first_arg)
    o = sym("o", ("obj", "spec.c20.Typed"))
    ensure(getattr(f, "_pulumi_name", None) == (wire if how == "named" and wire is not None else "first_arg"), "the wire name")
    ensure_same(f(o), ufn("got", o, "first_arg") if empty else 77, "reading")


async def check_translate_name():
    """Names of output types are translated to the wire name first, then by the type's own translation."""
    if not SYMBOLIC:
        return
    o = make("spec.c20.OutputTable")
    name = sym("name", "str")
    assume(name != "")
    wire = "secondArg" if name == "second_arg" else "class" if name == "class_" else name
    ensure(_translate_name(o, name) == ufn("translated", wire, result="str"), "Python name to wire name to stored name")


class OutputTable:
    _pulumi_output_type = True
    _pulumi_python_to_pulumi_table = {"second_arg": "secondArg", "class_": "class"}

    def _translate_property(self, name):
        return ufn("translated", name, result="str")


PYNAMES = ["first", "second_arg", "class_", "v", "items", "get", "name", "a1"]
WIRE = ["first", "secondArg", "class", "V", "Items", "get", "camelCase", "x-y"]
VALUES = [0, "", False, [], {}, 1, "s", True, [0, None], {"k": ""}, 1.5]


def a_getter(py, wire, body, doc):
    if body == "empty" and doc:
        def f(self) -> typing.Any:
            """Documented."""
    elif body == "empty":
        def f(self) -> typing.Any:
            ...
    elif body == "none":
        def f(self) -> typing.Any:
            return None
    else:
        def f(self) -> typing.Any:
            return pulumi.get(self, py)
    f.__name__ = py
    if py == wire and rand().random() < 0.5:
        return pulumi.getter(f) if rand().random() < 0.5 else pulumi.getter()(f)
    return pulumi.getter(name=wire)(f)


def a_setter(py):
    if rand().random() < 0.7:
        def f(self, value):
            ...
    else:
        def f(self, value):
            pulumi.set(self, py, value)
    f.__name__ = py
    return f


def some_names(k):
    names = rand().sample(PYNAMES, k)
    wires = [n if rand().random() < 0.3 else None for n in names]
    free = [w for w in WIRE if w not in names]
    rand().shuffle(free)
    return [(n, w if w is not None else free.pop()) for n, w in zip(names, wires)]


def value():
    return None if rand().random() < 0.3 else rand().choice(VALUES)


def by_annotation(ns, names):
    """Properties declared by annotations (those that have defaults last)."""
    ns["__annotations__"] = {}
    cut = rand().randrange(len(names) + 1)
    defaults = {}
    for k, (py, wire) in enumerate(names):
        ns["__annotations__"][py] = typing.Any
        if k < cut:
            if wire != py or hasattr(dict, py) or rand().random() < 0.5:
                ns[py] = pulumi.property(wire)
        else:
            d = rand().choice([None, None, 7])
            ns[py] = pulumi.property(wire, default=d) if wire != py or rand().random() < 0.5 else d
            defaults[py] = d
    return defaults


def by_property(ns, names, setters):
    for py, wire in names:
        p = property(a_getter(py, wire, rand().choice(["empty", "empty", "none", "real"]), rand().random() < 0.5))
        ns[py] = p.setter(a_setter(py)) if setters else p


def explicit_init(names):
    def init(self, **kw):
        for n, _ in names:
            if kw.get(n) is not None or rand().random() < 0.5:
                pulumi.set(self, n, kw.get(n))
    return init


def between(cls):
    """Native: the class, or one that derives from it, directly or not."""
    while rand().random() < 0.4:
        cls = type("Between", (cls,), {})
    return cls


async def check_input_types():
    """Random typed argument classes: annotations, getter properties, inheritance, dictionary subclasses."""
    if SYMBOLIC:
        return
    names = some_names(1 + rand().randrange(4))
    base = (dict,) if rand().random() < 0.3 else ()
    how = rand().choice(["annotations", "properties", "mixin", "subclass"])
    extra = []
    if how == "annotations":
        ns = {}
        by_annotation(ns, names)
        cls = pulumi.input_type(type("Args", base, ns))
    elif how == "properties":
        ns = {"__init__": explicit_init(names)}
        by_property(ns, names, True)
        cls = pulumi.input_type(type("Args", base, ns))
    elif how == "mixin":
        ns = {}
        by_property(ns, names[:1], True)
        mix = between(type("Mixin", (), ns))
        ns = {"__init__": explicit_init(names)}
        by_property(ns, names[1:], True)
        cls = pulumi.input_type(type("Args", (mix,) + base, ns))
    else:
        ns = {"__init__": explicit_init(names)}
        by_property(ns, names[:-1], True)
        parent = pulumi.input_type(type("Parent", base, ns))
        ns = {}
        by_property(ns, names[-1:], False)
        if len(names) > 1 and rand().random() < 0.5:      # a getter that computes something else replaces the inherited one
            def computed(self):
                return "computed"
            ns[names[0][0]] = property(pulumi.getter(name=names[0][1])(computed))
            extra = names[:1]
        cls = type("Args", (between(parent),), ns)
    note("class", (how, base, names, extra))
    vals = {py: value() for py, _ in names}
    note("values", vals)
    o = cls(**vals)
    for p, _ in extra:
        vals[p] = "computed"
    ensure_same(ty.input_type_to_dict(o), {w: vals[p] for p, w in names if vals[p] is not None}, "one entry per property that is set")
    forward = ty.input_type_py_to_pulumi_names(cls)
    ensure_same(forward, {p: w for p, w in names}, "every Python name gives its wire name")
    back = ty._pulumi_to_py_names_from_py_properties(cls)
    ensure_same({back[w]: w for w in back}, forward, "the reverse map is the inverse")
    for p, _ in names:
        ensure_same(getattr(o, p), vals[p], "the property holds its value")
    if how != "subclass":
        p, w = rand().choice(names)
        v = value()
        setattr(o, p, v)
        vals[p] = v
        ensure_same(getattr(o, p), v, "the value set is the value got")
        ensure_same(ty.input_type_to_dict(o), {w: vals[p] for p, w in names if vals[p] is not None}, "one entry per property that is set")


async def check_output_types():
    """Random output classes, with and without their own name translation."""
    if SYMBOLIC:
        return
    names = some_names(1 + rand().randrange(4))
    isdict = rand().random() < 0.6
    table = {w: rand().choice([w, "t_" + w, None]) for w in WIRE + PYNAMES}
    ns = {}
    translating = isdict and rand().random() < 0.6
    if translating:
        ns["_translate_property"] = lambda self, prop: table.get(prop) or prop
    how = rand().choice(["annotations", "properties"])
    if how == "annotations":
        defaults = by_annotation(ns, names)
        cls = pulumi.output_type(type("Out", (dict,) if isdict else (), ns))
    else:
        defaults = {}

        def init(self, **kw):
            for n, _ in names:
                pulumi.set(self, n, kw.get(n))
        ns["__init__"] = init
        by_property(ns, names, False)
        cls = pulumi.output_type(type("Out", (dict,) if isdict else (), ns))
    wire = {w: value() for _, w in names if rand().random() < 0.8}
    note("class", (how, isdict, translating, names))
    note("wire", wire)
    o = ty.output_type_from_dict(cls, wire)
    for p, w in names:
        ensure_same(getattr(o, p), wire.get(w), "the property holds the value under its wire name")
    if isdict:
        stored = (lambda p, w: table.get(w) or w) if translating else (lambda p, w: p)
        ensure_same({k: v for k, v in dict(o).items() if v is not None},
                    {stored(p, w): wire[w] for p, w in names if wire.get(w) is not None}, "stored under the translated names")


async def check_resource_maps():
    """Name maps of resource classes."""
    if SYMBOLIC:
        return
    names = some_names(1 + rand().randrange(5))
    cut = rand().randrange(len(names) + 1)
    ns, base_ns = {}, {}
    a, b = names[:cut], names[cut:]
    if a:
        ns["__annotations__"] = {p: pulumi.Output[str] for p, _ in a}
        for p, w in a:
            if w != p or rand().random() < 0.5:
                ns[p] = pulumi.property(w) if rand().random() < 0.5 else pulumi.property(w, default=None)
    inherit = rand().random() < 0.4
    by_property(base_ns if inherit else ns, b, False)
    base = type("BaseRes", (pulumi.CustomResource,), base_ns) if inherit else pulumi.CustomResource
    cls = type("Res", (base,), ns)
    note("class", (a, b, inherit))
    fixed = {"id", "urn", "pulumi_resource_type"}
    fwd, back = ty.resource_py_to_pulumi_names(cls), ty.resource_pulumi_to_py_names(cls)
    ensure_same({k: v for k, v in fwd.items() if k not in fixed}, {p: w for p, w in names}, "every Python name gives its wire name")
    ensure_same({v: k for k, v in back.items()}, fwd, "the reverse map is the inverse")


HARNESSES = [check_to_dict, check_py_to_pulumi, check_inverse, check_from_dict, check_properties, check_get, check_set,
             check_declared_property, check_annotations, check_resource_names, check_getter, check_translate_name]
NATIVE = [check_input_types, check_output_types, check_resource_maps]
BOUNDS = {"check_input_types": "typed argument classes of up to 4 properties built by the decorators (_process_class, _init_fn)",
          "check_output_types": "output classes of up to 4 properties built by the decorators",
          "check_resource_maps": "resource classes of up to 5 properties"}
