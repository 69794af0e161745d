"""C09: registries of resource packages and modules."""
from pv import *
if not SYMBOLIC:
    from pv import note
from pulumi.runtime.rpc import (register_resource_package, get_resource_package, register_resource_module, get_resource_module,
                                check_version, same_version)

ASSUMPTIONS = ["semver versions are totally preordered, major numbers are equal where versions are equal",
               "Version.parse is a deterministic partial parser", "a registration's version() is constant"]
R = "pulumi.runtime.rpc."
PKG = R + "ResourcePackage"
MOD = R + "ResourceModule"


class Ver:
    """A semver version: its numbers, and its rank in the order of versions."""

    def __init__(self, major, minor, patch, rank):
        self.major = major
        self.minor = minor
        self.patch = patch
        self.rank = rank

    def __eq__(self, other):
        if not isinstance(other, Ver):
            raise TypeError("not a version")
        return self.rank == other.rank

    def __gt__(self, other):
        if not isinstance(other, Ver):
            raise TypeError("not a version")
        return self.rank > other.rank

    def __ge__(self, other):
        if not isinstance(other, Ver):
            raise TypeError("not a version")
        return self.rank >= other.rank

    def __lt__(self, other):
        if not isinstance(other, Ver):
            raise TypeError("not a version")
        return self.rank < other.rank

    def __le__(self, other):
        if not isinstance(other, Ver):
            raise TypeError("not a version")
        return self.rank <= other.rank


def num(what, x):
    return ufn(what, x, result="int")


def rank(x):
    return ufn("rank", x, result="float")


def version_of(x):
    if ufb("unversioned", x):
        return None
    return Ver(num("major", x), num("minor", x), num("patch", x), rank(x))


def same(a, b):
    return or_(ufb("unversioned", a), ufb("unversioned", b), rank(a) == rank(b))


GHOST = {}


def fits(x):
    """The registration is compatible with the requested version."""
    if GHOST["wild"]:
        return True
    w = GHOST["want"]
    return or_(ufb("unversioned", x), and_(num("major", x) == w.major, num("minor", x) >= w.minor, num("patch", x) >= w.patch))


def newer(a, b):
    return and_(not_(ufb("unversioned", a)), not_(ufb("unversioned", b)), rank(a) > rank(b))


def best_package_inv(done, step, nxt, best_package):
    return best_inv(done, nxt, best_package)


def best_module_inv(done, step, nxt, best_module):
    return best_inv(done, nxt, best_module)


def best_inv(done, nxt, best):
    if best is None:
        return all(not_(fits(e)) for e in done)
    if nxt is not None:
        assume(not_(same(best, nxt)))        # registry invariant: best stands before nxt
    return and_(best in done, fits(best), all(not_(and_(fits(e), newer(e, best))) for e in done))


def setup(kind):
    regs = sym("registrations", ("list", ("obj", PKG if kind == "package" else MOD)))
    other = sym("others", ("list", "any"))
    use((PKG if kind == "package" else MOD) + ".version", version_of)
    has = choose("name registered", [True, False])
    GHOST["pkg"] = sym("pkg", "str")
    GHOST["mod"] = sym("mod", "str")
    key = GHOST["pkg"] if kind == "package" else GHOST["pkg"] + ":" + GHOST["mod"]
    assume(key != "q")
    table = {key: regs, "q": other} if has else {"q": other}
    setg(R + ("_RESOURCE_PACKAGES" if kind == "package" else "_RESOURCE_MODULES"), table)
    GHOST["wild"] = choose("version given", [False, True]) is False
    GHOST["want"] = Ver(sym("want major", "int"), sym("want minor", "int"), sym("want patch", "int"), sym("want rank", "float"))
    return regs, other, table, has


class Parser:
    @staticmethod
    def parse(s):
        ensure(s == "v", "the version asked for is parsed")
        return GHOST["want"]


async def check_get():
    """A compatible registration, no compatible one is newer; nothing only if none is compatible."""
    if not SYMBOLIC:
        return
    kind = choose("kind", ["package", "module"])
    regs, other, table, has = setup(kind)
    setg(R + "Version", Parser)
    v = "" if GHOST["wild"] else "v"
    if kind == "package":
        invariant(R + "get_resource_package", best_package_inv, best_package=("opt", ("obj", PKG)))
        r = get_resource_package(GHOST["pkg"], v)
    else:
        invariant(R + "get_resource_module", best_module_inv, best_module=("opt", ("obj", MOD)))
        r = get_resource_module(GHOST["pkg"], GHOST["mod"], v)
    if not has:
        ensure(r is None, "nothing for an unknown name")
    elif r is None:
        ensure(all(not_(fits(e)) for e in regs), "nothing only if no registration is compatible")
    else:
        ensure(r in regs, "one of the registrations of that name")
        ensure(fits(r), "a compatible one")
        ensure(all(not_(and_(fits(e), newer(e, r))) for e in regs), "no compatible one is newer")


async def check_register():
    """Fails exactly when the version equals, or is wildcard-equal to, a registration of that name; then nothing changes."""
    if not SYMBOLIC:
        return
    kind = choose("kind", ["package", "module"])
    regs, other, table, has = setup(kind)
    x = sym("new", ("obj", PKG if kind == "package" else MOD))
    before = list(regs) if has else []
    others = list(other)
    clash = any(same(e, x) for e in before)
    setg(R + "settings", Settings())
    err = None
    try:
        if kind == "package":
            register_resource_package(GHOST["pkg"], x)
        else:
            register_resource_module(GHOST["pkg"], GHOST["mod"], x)
    except Exception as e:
        err = e
    key = GHOST["pkg"] if kind == "package" else GHOST["pkg"] + ":" + GHOST["mod"]
    ensure(iff(err is not None, clash), "fails exactly when such a registration exists")
    ensure(len(table) == (2 if has or err is None else 1), "no other name is registered")
    if err is not None:
        ensure(isinstance(err, ValueError), "with a ValueError")
        ensure_same(list(table[key]), before, "failing leaves the registrations unchanged")
    else:
        ensure_same(list(table[key]), before + [x], "otherwise it is appended")
    ensure_same(list(table["q"]), others, "other names are unchanged")


class Settings:
    excessive_debug_output = False


async def check_versions():
    """Compatibility and wildcard equality of versions."""
    if not SYMBOLIC:
        return
    a, b = a_version("a"), a_version("b")
    same_or_any = a is None or b is None
    ensure(iff(same_version(a, b), same_or_any or a.rank == b.rank), "equal, or one is missing")
    ensure(iff(check_version(a, b), same_or_any or (a.major == b.major and b.minor >= a.minor and b.patch >= a.patch)),
           "same major version, and at least the minor and patch numbers wanted")


def a_version(n):
    if choose(n, ["missing", "given"]) == "missing":
        return None
    return Ver(sym(n + " major", "int"), sym(n + " minor", "int"), sym(n + " patch", "int"), sym(n + " rank", "float"))


# ------------------------------------------------------------------ native: histories of registrations and lookups
VERSIONS = ["1.0.0", "1.0.1", "1.2.0", "1.2.3", "1.10.0", "1.9.1", "2.0.0", "2.0.0-alpha", "2.0.0-alpha.2", "2.1.0", "0.0.0", "0.0.1",
            "1.2.3+b1", "10.0.0", "1.2.0-rc.1", "1.2.10", "1.2.9"]


def triple(v):
    import semver
    i = semver.VersionInfo.parse(v)
    return (i.major, i.minor, i.patch)


def order(a, b):
    import semver
    return semver.VersionInfo.parse(a).compare(b)


async def check_history_native():
    """Random histories of registrations and lookups, packages and modules."""
    import semver
    from pulumi.runtime import rpc
    rpc._RESOURCE_PACKAGES.clear()
    rpc._RESOURCE_MODULES.clear()
    r = rand()

    class Reg:
        def __init__(self, v):
            self.v = v

        def version(self):
            return None if self.v is None else semver.VersionInfo.parse(self.v)

    names = [("P", "m"), ("p", "M"), ("p", "m"), ("p", "n"), ("q", "m"), ("p:m", ""), ("p", "")]
    model = {}
    log = []
    for _ in range(r.randrange(1, 25)):
        pkg = r.random() < 0.5
        p, m = r.choice(names)
        key = ("package", p) if pkg else ("module", p + ":" + m)
        have = model.get(key, [])
        if r.random() < 0.6:
            v = None if r.random() < 0.07 else r.choice(VERSIONS)
            x = Reg(v)
            log.append(("register", key, v))
            note("history", log)
            clash = any(v is None or e.v is None or order(v, e.v) == 0 for e in have)
            try:
                register_resource_package(p, x) if pkg else register_resource_module(p, m, x)
                ok = True
            except ValueError:
                ok = False
            ensure(ok is not clash, f"{log}: fails exactly when such a registration exists ({clash})")
            if ok:
                model[key] = have + [x]
        else:
            v = r.choice(["", ""] + VERSIONS)
            log.append(("get", key, v))
            note("history", log)
            got = get_resource_package(p, v) if pkg else get_resource_module(p, m, v)
            fit = [e for e in have if v == "" or e.v is None or
                   (triple(e.v)[0] == triple(v)[0] and triple(e.v)[1] >= triple(v)[1] and triple(e.v)[2] >= triple(v)[2])]
            if got is None:
                ensure(not fit, f"{log}: nothing only if no registration is compatible")
            else:
                ensure(any(got is e for e in fit), f"{log}: a compatible registration, not {got.v}")
                ensure(all(e is got or order(got.v, e.v) > 0 for e in fit), f"{log}: no compatible registration is newer than {got.v}")


HARNESSES = [check_get, check_register, check_versions]
NATIVE = [check_history_native]
BOUNDS = {"check_history_native": "histories of up to 24 operations over 5 names and 17 versions"}
