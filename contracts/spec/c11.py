"""C11: aliases cover every old identity of a resource."""
from spec.outlib import *
if not SYMBOLIC:
    import pulumi
    from pv import note
from pulumi.resource import all_aliases, collapse_alias_to_urn, inherited_child_alias, create_urn, Alias

ASSUMPTIONS = ["URNs are well-formed and the names of parents contain no '::'", "URNs of aliases are known (C01 and C02 for unknown ones)",
               "create_urn and urn_type_and_name satisfy their contracts (proved in C12)"]
M = "pulumi.resource."


async def check_collapse():
    """An alias stands for the URN built from its own parts where given and the resource's otherwise."""
    if not SYMBOLIC:
        return
    use_values()
    made = []

    def create(name, type_, parent, project, stack):
        made.append((name, type_, parent, project, stack))
        return known_output("made")
    use(M + "create_urn", create)
    setg("pulumi.resource.get_stack", lambda: "current stack")
    setg("pulumi.resource.get_project", lambda: "current project")
    default_parent = sym("default parent", ("opt", ("obj", RES)))
    name, typ = sym("name", "str"), sym("type", "str")
    if choose("alias", ["parts", "urn"]) == "urn":
        alias = sym("urn", "str")
        r = collapse_alias_to_urn(alias, name, typ, default_parent)
        ensure_same(r.val, alias, "an alias given as URN is that URN")
        return
    fields = {}
    want = [name, typ, default_parent, "current project", "current stack"]
    for k, f in enumerate(["name", "type_", "parent", "project", "stack"]):
        how = choose(f, ["not given", "given", "none"]) if k < 3 else choose(f, ["not given", "given"])
        if how != "not given":
            v = None if how == "none" else sym("alias " + f, ("obj", RES) if f == "parent" else "str")
            fields[f] = v
            want[k] = v
    a = Alias(**fields)
    given = known_output(a) if choose("form", ["prompt", "output"]) == "output" else a
    try:
        r = collapse_alias_to_urn(given, name, typ, default_parent)
    except Exception as e:
        ensure(want[0] is None or want[1] is None, "fails only without a name or type")
        return
    ensure(want[0] is not None and want[1] is not None, "an explicit None as name or type is rejected")
    ensure(r.val == "made" and len(made) == 1, "one URN is built")
    ensure_same(made[0][0], want[0], "the alias' name, else the resource's")
    ensure_same(made[0][1], want[1], "the alias' type, else the resource's")
    ensure_same(made[0][2], want[2], "the alias' parent, else the resource's")
    ensure_same(made[0][3], want[3], "the alias' project, else the current one")
    ensure_same(made[0][4], want[4], "the alias' stack, else the current one")


async def check_inherited():
    """The URN of a child under an alias of its parent; a name derived from the parent's name follows."""
    if not SYMBOLIC:
        return
    use_values()
    made = []

    def create(name, type_, parent, project, stack):
        made.append((name.val, type_, parent, project, stack))
        return known_output("made")
    use(M + "create_urn", create)
    before, old = sym("before", "str"), sym("old parent name", "str")
    assume_text("::" not in old)
    assume_text(not old.startswith(":"))
    urn = before + "::" + old
    parent = sym("parent name", "str")
    derived = choose("derived name", [True, False])
    if derived:
        rest = sym("rest", "str")
        child = parent + rest
    else:
        child = sym("child name", "str")
        assume(not child.startswith(parent))
    typ = sym("type", "str")
    r = inherited_child_alias(child, parent, known_output(urn) if choose("form", ["prompt", "output"]) == "output" else urn, typ)
    ensure(r.val == "made" and len(made) == 1, "one URN is built")
    ensure_same(made[0][0], old + rest if derived else child, "the child's name follows the parent's old name if derived from it")
    ensure_same(made[0][1], typ, "the child's type")
    p = made[0][2]
    ensure_same(p.val if isinstance(p, Output) else p, urn, "under the parent's alias")
    ensure(made[0][3] is None and made[0][4] is None, "in its stack and project")


OPAQUE = ("obj", OUT)


GHOST = {}


def collapsed(alias, name, typ):
    return ufn("collapsed", alias, name, typ, result=OPAQUE)


def collapse_contract(alias, name, typ, parent):
    ensure(parent is GHOST["parent"], "the default parent is the resource's")
    return collapsed(alias, name, typ)


def inherited(child_name, parent_name, parent_alias, child_type):
    return ufn("inherited", child_name, parent_name, parent_alias, child_type, result=OPAQUE)


def urn_of(o):
    return ufn("urn of", o, result="str")


def type_and_name(urn):
    return (ufn("name in", urn, result="str"), ufn("type in", urn, result="str"))


def apply_urn(self, func, run_with_unknowns=None):
    return func(urn_of(self))


async def check_all():
    """Exactly the own aliases, the inherited ones, and the own ones under each of the parent's aliases."""
    if not SYMBOLIC:
        return
    use(M + "collapse_alias_to_urn", collapse_contract)
    use(M + "inherited_child_alias", inherited)
    use(M + "urn_type_and_name", type_and_name)
    use("pulumi.output.Output.apply", apply_urn)
    own = sym("own aliases", ("list", "any")) if choose("own aliases given", [True, False]) else None
    has = choose("parent given", [True, False])
    pal = sym("parent aliases", ("list", "any"))
    pname = sym("parent name", "str")
    parent = make(CUSTOM, _name=pname, _aliases=pal) if has else None
    GHOST["parent"] = parent
    name, typ = sym("name", "str"), sym("type", "str")
    before = list(pal)
    r = all_aliases(own, name, typ, parent)
    mine = [collapsed(a, name, typ) for a in (own if own is not None else [])]
    expected = mine
    if has:
        for p in pal:
            expected = expected + [inherited(name, pname, p, typ)]
            expected = expected + [inherited(ufn("name in", urn_of(m), result="str"), pname, p, ufn("type in", urn_of(m), result="str")) for m in mine]
    ensure(isinstance(r, list), "a list")
    ensure_same(r, expected, "own, inherited and re-based aliases")
    ensure_same(pal, before, "the parent's aliases are not changed")


STACK = "pulumi:pulumi:Stack"
WORDS = ["app", "app-x", "a", "", "new", "newapp", "x"]
TYPES = ["p:m:T", "p:i:U", "q:m/n:V"]


def text(t):
    """Native: the URN of (stack, project, qualified type, name)."""
    return "urn:pulumi:" + "::".join(t)


def a_urn():
    r = rand()
    q = STACK if r.random() < 0.15 else "$".join(r.choice(TYPES) for _ in range(r.randrange(1, 3)))
    return (r.choice(["dev", "old"]), r.choice(["proj", "prev"]), q, r.choice(WORDS))


def maybe_output(v):
    return an_output("given", v, True, False, set()) if rand().random() < 0.4 else v


def child_urn(parent, name, typ):
    q = "" if parent[2] == STACK else parent[2] + "$"
    return (parent[0], parent[1], q + typ, name)


async def check_native():
    """The whole computation against an oracle over (stack, project, qualified type, name)."""
    if SYMBOLIC:
        return
    r = rand()
    setg("pulumi.resource.get_stack", lambda: "dev")
    setg("pulumi.resource.get_project", lambda: "proj")
    name, typ, pname = r.choice(WORDS), r.choice(TYPES), r.choice(WORDS)
    if r.random() < 0.4:
        name = pname + "".join(r.choice(["-", pname, r.choice(WORDS)]) for _ in range(r.randrange(4)))
    parent, pt, pal = None, None, []
    if r.random() < 0.7:
        pt = a_urn()[:3] + (pname,)
        pal = [a_urn() for _ in range(r.randrange(3))]
        given = [maybe_output(text(a)) for a in pal]
        parent = make(CUSTOM, urn=an_output("urn", text(pt), True, False, set()), _name=pname, _aliases=given)
    own, mine = [], []
    for _ in range(r.randrange(3)):
        if r.random() < 0.3:
            u = a_urn()
            own.append(maybe_output(text(u)))
            mine.append(u)
            continue
        f = {}
        n, t, q, st, pr = name, typ, pt, "dev", "proj"
        if r.random() < 0.5:
            n = f["name"] = r.choice(WORDS)
        if r.random() < 0.5:
            t = f["type_"] = r.choice(TYPES)
        how = r.randrange(4)
        if how == 1:
            q = f["parent"] = None
        elif how > 1:
            q = a_urn()
            f["parent"] = maybe_output(text(q)) if how == 2 else make(CUSTOM, urn=an_output("urn", text(q), True, False, set()), _name=q[3], _aliases=[])
        if r.random() < 0.5:
            st = r.choice(["old", "older"])
            f["stack"] = maybe_output(st)
        if r.random() < 0.5:
            pr = r.choice(["prev", "former"])
            f["project"] = maybe_output(pr)
        own.append(maybe_output(Alias(**f)))
        mine.append((st, pr, t, n) if q is None else child_urn(q, n, t))
    note("own", mine)
    note("parent", (pt, pal))
    note("resource", (name, typ))

    def inherit(p, n, t):
        return child_urn(p, p[3] + n[len(pname):] if n.startswith(pname) else n, t)
    expected = list(mine)
    for p in pal:
        expected.append(inherit(p, name, typ))
        expected += [inherit(p, m[3], m[2].split("$")[-1]) for m in mine]
    got = [await (a if isinstance(a, Output) else Output.from_input(a)).future() for a in all_aliases(own or None, name, typ, parent)]
    ensure_same(sorted(got), sorted(text(e) for e in expected), "own, inherited and re-based aliases")


HARNESSES = [check_collapse, check_inherited, check_all]
NATIVE = [check_native]
BOUNDS = {"check_native": "at most 2 own and 2 parent aliases, names (some built from the parent's) and types from small pools"}
