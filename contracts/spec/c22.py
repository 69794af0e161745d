"""C22: do_rpc from an arbitrary manager state; concurrency of several operations is additionally run natively (bounded)."""
import asyncio
import traceback
from pv import *
from pulumi.runtime.rpc_manager import RPCManager

ASSUMPTIONS = ["the operation raises a subclass of Exception when it fails (cancellation is not a failure)"]


def prior_state():
    """An arbitrary state of the manager: any operations outstanding, possibly an earlier failure."""
    if choose("earlier failure", [False, True]):
        prev, tb = symexc("earlier failure"), sym("tb", "any")
    else:
        prev, tb = None, None
    rpcs = sym("outstanding", ("list", "any"))
    return rpcs, make("pulumi.runtime.rpc_manager.RPCManager", rpcs=rpcs, unhandled_exception=prev, exception_traceback=tb), prev, tb


async def check_do_rpc():
    rpcs, mgr, prev, tb = prior_state()
    before = list(rpcs)
    body = func("operation", raising=True)
    seen = []
    failure = []

    async def operation(a, b=None):
        seen.append(list(mgr.rpcs))
        try:
            return body(a, b)
        except Exception as e:
            failure.append(e)
            raise

    x, y = sym("x", "any"), sym("y", "any")
    wrapped = mgr.do_rpc("op", operation)
    ensure_same(list(mgr.rpcs), before, "wrapping alone starts nothing")
    answer = await wrapped(x, b=y)
    ensure(len(answer) == 2, "the issuer gets a pair of result and error")
    result, error = answer
    ensure(len(seen) == 1, "the operation runs exactly once")
    ensure_same(seen[0][:-1], before, "operations already outstanding stay outstanding")
    ensure(len(seen[0]) == len(before) + 1, "the operation is outstanding before it completes")
    ensure(settled(mgr.rpcs[-1]) == ("exc" if failure else "ok"), "the outstanding entry is the operation itself")
    ensure_same(list(mgr.rpcs)[:-1], before, "nothing else is added to or removed from the outstanding operations")
    if failure:
        ensure(result is None, "a failed operation has no result")
        ensure(error is failure[0], "the issuer gets the operation's own error")
        if prev is None:
            ensure(mgr.unhandled_exception is failure[0], "the first failure is recorded")
            ensure(mgr.exception_traceback is traceback_of(failure[0]), "the first failure's own traceback is recorded")
        else:
            ensure(mgr.unhandled_exception is prev, "a later failure never overwrites the first one")
            ensure_same(mgr.exception_traceback, tb, "the first failure keeps its traceback")
    else:
        c = calls()
        ensure_same(result, operation_result(body, x, y), "the issuer gets the operation's result")
        ensure(error is None, "a successful operation has no error")
        ensure(mgr.unhandled_exception is prev, "a success records no failure")
        ensure_same(mgr.exception_traceback, tb, "a success records no traceback")


def traceback_of(e):
    return e.__traceback__


def operation_result(body, x, y):
    return body(x, y)


async def check_clear():
    rpcs, mgr, prev, tb = prior_state()
    mgr.clear()
    ensure(len(mgr.rpcs) == 0, "clearing forgets the outstanding operations")
    ensure(mgr.unhandled_exception is None, "clearing forgets the failure")
    ensure(mgr.exception_traceback is None, "clearing forgets the traceback")


async def concurrent_operations():
    """Several operations in flight, completing in an arbitrary order, some failing."""
    mgr = RPCManager()
    n = rand().randrange(1, 6)
    gates = [asyncio.get_running_loop().create_future() for _ in range(n)]
    errs = [rand().choice([None, ValueError("v"), RuntimeError("r"), KeyError("k")]) for _ in range(n)]
    done = []

    async def op(k):
        await gates[k]
        if errs[k] is not None:
            errs[k] = type(errs[k])(k)
            done.append(k)
            raise errs[k]
        done.append(k)
        return ("result", k)
    tasks = [asyncio.ensure_future(mgr.do_rpc(f"op{k}", op)(k)) for k in range(n)]
    await settle()
    ensure(len(mgr.rpcs) == n, "every operation in flight is outstanding")
    order = list(range(n))
    rand().shuffle(order)
    first = None
    for k in order:
        gates[k].set_result(None)
        if rand().random() < 0.7:
            await settle()
    await settle()
    for k in done:
        if errs[k] is not None:
            first = errs[k]
            break
    ensure(mgr.unhandled_exception is first, "the first failure in completion order is the one recorded")
    if first is not None:
        frames = [f.name for f in traceback.extract_tb(mgr.exception_traceback)]
        ensure("op" in frames, "the recorded traceback is the failing operation's")
        ensure(mgr.exception_traceback is first.__traceback__, "the traceback belongs to the recorded failure")
    for k, t in enumerate(tasks):
        r, e = await t
        ensure(e is errs[k] and r == (None if errs[k] else ("result", k)), "each issuer gets its own outcome")


HARNESSES = [check_do_rpc, check_clear]
NATIVE = [concurrent_operations]
BOUNDS = {"concurrent_operations": "up to 5 operations in flight, generated completion orders"}
