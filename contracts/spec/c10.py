"""C10: merging resource and invoke options."""
from spec.common import *
from pulumi.resource import ResourceOptions, Resource, _merge_lists
from pulumi.invoke import InvokeOptions

ASSUMPTIONS = ["providers in a mapping are keyed by their own package (the documented use; other keys only warn)"]

SCALARS = ["parent", "protect", "delete_before_replace", "version", "plugin_download_url", "custom_timeouts", "id", "import_",
           "urn", "provider", "retain_on_delete"]
LISTS = ["ignore_changes", "replace_on_changes", "aliases", "additional_secret_outputs", "transformations"]


def res_obj(name):
    return sym(name, ("obj", RES), native=lambda: rand().choice(rand_pool()))


def scalar(name):
    return sym(name, ("opt", "any"), native=lambda: rand().choice([None, None, True, False, "", "v", "w", 0]))


def a_list(name):
    return sym(name, ("list", "any"), native=lambda: [rand().randrange(5) for _ in range(rand().randrange(3))])


def opts_with(tag, **lists):
    """Options with arbitrary scalars; lists as given."""
    return make("pulumi.resource.ResourceOptions", parent=scalar(tag + ".parent"), protect=scalar(tag + ".protect"),
                delete_before_replace=scalar(tag + ".dbr"), version=scalar(tag + ".version"),
                plugin_download_url=scalar(tag + ".url"), custom_timeouts=scalar(tag + ".timeouts"), id=scalar(tag + ".id"),
                import_=scalar(tag + ".import"), urn=scalar(tag + ".urn"), provider=scalar(tag + ".provider"),
                retain_on_delete=scalar(tag + ".retain"), **lists)


def get_all(o):
    return [getattr(o, f) for f in SCALARS + LISTS + ["providers", "depends_on"]]


async def check_fields():
    """Every scalar and list option; the list combination itself is check_merge_lists."""
    use("pulumi.resource._merge_lists", merged_list_contract)
    given = choose("merge given", ["both", "static first none", "static second none", "instance"])

    def lists(tag):
        return {"ignore_changes": list_or_none(tag + ".ic"), "replace_on_changes": list_or_none(tag + ".roc"),
                "aliases": list_or_none(tag + ".al"), "additional_secret_outputs": list_or_none(tag + ".aso"),
                "transformations": list_or_none(tag + ".tr")}
    a = opts_with("a", providers=None, depends_on=None, **lists("a")) if given != "static first none" else None
    b = opts_with("b", providers=None, depends_on=None, **lists("b")) if given != "static second none" else None
    before_a, before_b = get_all(a) if a is not None else None, get_all(b) if b is not None else None
    if given == "instance":
        m = ResourceOptions._merge_instance(a, b)
    else:
        m = ResourceOptions.merge(a, b)
    ensure(isinstance(m, ResourceOptions), "merging gives resource options")
    ensure(m is not a and m is not b, "merging gives a new object")
    for f in SCALARS:
        x, y = getattr(a, f) if a is not None else None, getattr(b, f) if b is not None else None
        want = x if y is None else y
        ensure_same(getattr(m, f), want, f + ": the second set's value if it gives one, else the first's")
    for f in LISTS:
        x, y = getattr(a, f) if a is not None else None, getattr(b, f) if b is not None else None
        ensure_same(getattr(m, f), combined(x, y), f + ": the first's entries followed by the second's")
    if a is not None:
        ensure_same(get_all(a), before_a, "the first options are unchanged")
    if b is not None:
        ensure_same(get_all(b), before_b, "the second options are unchanged")


def list_or_none(name):
    if SYMBOLIC:
        return sym(name, "any")
    return None if rand().random() < 0.4 else [rand().randrange(5) for _ in range(rand().randrange(3))]


def merged_list_contract(dest, source):
    """Contract of _merge_lists (check_merge_lists), the combination itself kept abstract."""
    if dest is None and source is None:
        return None
    return ufn("merged", dest, source)


def combined(x, y):
    if SYMBOLIC:
        return merged_list_contract(x, y)
    if x is None:
        return y
    return x if y is None else x + y


async def check_merge_lists():
    which = choose("given", ["none", "first", "second", "both"])
    a, b = a_list("a"), a_list("b")
    if which == "none":
        ensure(_merge_lists(None, None) is None, "nothing merged with nothing is nothing")
    elif which == "first":
        ensure_same(_merge_lists(a, None), a, "merging with nothing keeps the entries")
    elif which == "second":
        ensure_same(_merge_lists(None, b), b, "merging with nothing keeps the entries")
    else:
        before_a, before_b = list(a), list(b)
        r = _merge_lists(a, b)
        ensure_same(r, before_a + before_b, "the first's entries followed by the second's")
        ensure_same(a, before_a, "the first list is unchanged")
        ensure_same(b, before_b, "the second list is unchanged")


def deps_input(tag, style, items, single):
    if style == "none":
        return None
    v = single if style.startswith("single") else items
    if style.endswith("awaitable"):
        return later(v)
    if style.endswith("output"):
        return make(OUT, _future=later(v), _is_known=later(True), _is_secret=later(False), _resources=later(set()))
    return v


STYLES = ["none", "single prompt", "list prompt", "single awaitable", "list awaitable", "single output", "list output"]


async def check_depends_on():
    """Dependencies in order, for every style of giving them."""
    def no_unknowns(v):
        return False
    use("pulumi.runtime.rpc.contains_unknowns", no_unknowns)
    s1, s2 = choose("style1", STYLES), choose("style2", STYLES)
    l1, l2 = dep_list("l1"), dep_list("l2")
    r1, r2 = res_obj("r1"), res_obj("r2")
    a = opts_with("a", providers=None, depends_on=deps_input("a", s1, l1, r1), **no_lists())
    b = opts_with("b", providers=None, depends_on=deps_input("b", s2, l2, r2), **no_lists())
    da, db = a.depends_on, b.depends_on
    m = ResourceOptions.merge(a, b)
    want = items_of(s1, l1, r1) + items_of(s2, l2, r2)
    got = m.depends_on
    if isinstance(got, Output):
        v = await got._future
        ensure(await got._is_known, "merged dependencies stay known")
    elif s1.endswith("awaitable") or s2.endswith("awaitable"):
        v = await got
    else:
        v = got
    ensure_same(v, want, "the first's dependencies followed by the second's")
    ensure(a.depends_on is da and b.depends_on is db, "the inputs' dependencies are unchanged")


def dep_list(name):
    return sym(name, ("list", ("obj", RES)), native=lambda: [rand().choice(rand_pool()) for _ in range(rand().randrange(3))])


def items_of(style, items, single):
    if style == "none":
        return []
    return [single] if style.startswith("single") else list(items)


def no_lists():
    return dict(ignore_changes=None, replace_on_changes=None, aliases=None, additional_secret_outputs=None, transformations=None)


PROV = "pulumi.resource.ProviderResource"      # data invariant: package is a string


def native_provider():
    if not hasattr(rand(), "pv_prov"):
        rand().pv_prov = [make(PROV, package=p) for p in ["aws", "aws", "gcp", "azure", "k8s"]]
    return rand().choice(rand().pv_prov)


def provider_list(name):
    return sym(name, ("list", ("obj", PROV)), native=lambda: [native_provider() for _ in range(rand().randrange(4))])


def provider_map(name):
    """A map of providers keyed by package."""
    m = sym(name, ("dict", "str", ("obj", PROV)), native=lambda: {p.package: p for p in [native_provider() for _ in range(rand().randrange(3))]})
    assume(all(k == p.package for k, p in m.items()))
    return m


def providers_of(style, l, m):
    if style == "none":
        return None
    return l if style == "list" else m if style == "map" else tuple(l)


async def check_providers():
    """Providers are combined by package, the second's winning."""
    schema(PROV, package="str")
    s1, s2 = choose("style1", ["none", "list", "map", "tuple"]), choose("style2", ["none", "list", "map", "tuple"])
    l1, l2, m1, m2 = provider_list("l1"), provider_list("l2"), provider_map("m1"), provider_map("m2")
    p1, p2 = providers_of(s1, l1, m1), providers_of(s2, l2, m2)
    a = opts_with("a", providers=p1, depends_on=None, **no_lists())
    b = opts_with("b", providers=p2, depends_on=None, **no_lists())
    keep = (list(l1), list(l2), dict(m1), dict(m2))
    m = ResourceOptions.merge(a, b)
    want = {}
    given = providers_list(s1, l1, m1) + providers_list(s2, l2, m2)
    for p in given:
        want[p.package] = p
    if len(given) == 0:
        ensure(m.providers is None, "no providers merge to none")
    else:
        ensure(m.providers is not None, "providers are kept")
        if m.providers is not None:
            ensure_same(m.providers, want, "providers by package, the second winning")
    ensure(a.providers is p1 and b.providers is p2, "the inputs' providers are unchanged")
    ensure_same((list(l1), list(l2), dict(m1), dict(m2)), keep, "the inputs' provider collections are unchanged")


def providers_list(style, l, m):
    if style == "none":
        return []
    return list(m.values()) if style == "map" else list(l)


async def check_rejects():
    """Anything but options (or nothing) is rejected."""
    bad = choose("bad", [1, "x", [], {}])
    side = choose("side", ["first", "second"])
    cls = choose("class", ["resource", "invoke"])
    f = ResourceOptions.merge if cls == "resource" else InvokeOptions.merge
    rejected = False
    try:
        f(bad, None) if side == "first" else f(None, bad)
    except TypeError:
        rejected = True
    ensure(rejected, "anything but options is rejected")


def invoke_opts(tag):
    v = sym(tag + ".version", ("opt", "str"), native=lambda: rand().choice([None, "", "1.0", "2.0"]))
    return make("pulumi.invoke.InvokeOptions", parent=scalar(tag + ".parent"), provider=scalar(tag + ".provider"), version=v,
                plugin_download_url=scalar(tag + ".url"))


async def check_invoke():
    given = choose("merge given", ["both", "static first none", "static second none", "instance"])
    a = invoke_opts("a") if given != "static first none" else None
    b = invoke_opts("b") if given != "static second none" else None
    fa = [a.parent, a.provider, a.version, a.plugin_download_url] if a is not None else [None, None, "", None]
    fb = [b.parent, b.provider, b.version, b.plugin_download_url] if b is not None else [None, None, "", None]
    m = InvokeOptions._merge_instance(a, b) if given == "instance" else InvokeOptions.merge(a, b)
    ensure(isinstance(m, InvokeOptions), "merging gives invoke options")
    ensure(m is not a and m is not b, "merging gives a new object")
    ensure_same(m.parent, fa[0] if fb[0] is None else fb[0], "parent: the second's if given, else the first's")
    ensure_same(m.provider, fa[1] if fb[1] is None else fb[1], "provider: the second's if given, else the first's")
    ensure_same(m.plugin_download_url, fa[3] if fb[3] is None else fb[3], "download url: the second's if given, else the first's")
    if fb[2] is not None and fb[2] != "":
        ensure_same(m.version, fb[2], "version: the second's if given")
    else:
        ensure_same(m.version, fa[2], "version: the first's if the second gives none")
    if a is not None:
        ensure_same([a.parent, a.provider, a.version, a.plugin_download_url], fa, "the first options are unchanged")
    if b is not None:
        ensure_same([b.parent, b.provider, b.version, b.plugin_download_url], fb, "the second options are unchanged")


async def check_chained():
    """The merged options merge as themselves: (a+b)+c holds b's options too."""
    cls = choose("class", ["resource", "invoke"])
    u, v, w = sym("u", "str"), sym("v", "str"), sym("w", "str")
    assume(u != "")
    assume(v != "")
    assume(w != "")
    if cls == "resource":
        a, b, c = ResourceOptions(import_=u), ResourceOptions(version=v), ResourceOptions(urn=w)
        m = a.merge(b).merge(c)
        ensure_same((m.import_, m.version, m.urn), (u, v, w), "chained merges keep every option")
    else:
        a, b, c = InvokeOptions(parent=u), InvokeOptions(version=v), InvokeOptions(plugin_download_url=w)
        m = a.merge(b).merge(c)
        ensure_same((m.parent, m.version, m.plugin_download_url), (u, v, w), "chained merges keep every option")


HARNESSES = [check_fields, check_merge_lists, check_depends_on, check_providers, check_rejects, check_invoke, check_chained]
