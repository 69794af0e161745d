"""Value-level contracts of the output combinators (proved in C01 and C02), for code that only computes values from known inputs."""
from spec.common import *


def known_output(v):
    """A known output holding v (its value at hand as ghost state)."""
    return make(OUT, val=v)


def val(o):
    return o.val


def spec_from_input(v):
    return v if isinstance(v, Output) else known_output(v)


def spec_apply(self, func, run_with_unknowns=None):
    r = func(self.val)
    return r if isinstance(r, Output) else known_output(r)


def spec_all(*args):
    return known_output([spec_from_input(a).val for a in args])


def spec_concat(*args):
    s = ""
    for a in args:
        s = s + spec_from_input(a).val
    return known_output(s)


def use_values():
    use("pulumi.output.Output.from_input", spec_from_input)
    use("pulumi.output.Output.apply", spec_apply)
    use("pulumi.output.Output.all", spec_all)
    use("pulumi.output.Output.concat", spec_concat)
    use_contains_unknowns()


def a_known(v):
    return known_output(v) if SYMBOLIC else an_output("given", v, True, False, set())


async def value(o):
    return o.val if SYMBOLIC else await o.future()
