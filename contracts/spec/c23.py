"""C23: a program run waits for all that it started."""
from spec.common import *
from pulumi.runtime.stack import wait_for_rpcs, run_pulumi_func
from pulumi.runtime.rpc_manager import RPCManager, RPC_MANAGER
if not SYMBOLIC:
    import asyncio
    import pulumi
    from pulumi.runtime.sync_await import _sync_await
    from pv import note

S = "pulumi.runtime.stack."
ASSUMPTIONS = ["while one task waits, the others may do anything but remove RPCs from the manager's list, which only the waiting does",
               "an RPC's failure is recorded only while the RPC is in the list (check_do_rpc)",
               "asyncio.wait, asyncio.sleep and the event loop's list of tasks do what they are documented to"]
GHOST = {}


class Failure(Exception):
    pass


# ------------------------------------------------------------------------------------------ the world while a task waits
def world():
    """Any number of RPCs and tasks are started, tasks end, RPCs fail."""
    more, bad = sym("more rpcs", "int"), sym("more failing rpcs", "int")
    assume(more >= 0 and bad >= 0)
    assume(bad <= more)
    GHOST["rpcs"] = GHOST["rpcs"] + more
    GHOST["failing"] = GHOST["failing"] + bad
    running = sym("running tasks", "int")
    assume(running >= 0)
    GHOST["running"] = running
    exc = sym("recorded failure", "bool")
    assume(implies(GHOST["recorded"], exc))
    assume(implies(exc, or_(GHOST["recorded"], GHOST["failing"] > 0)))
    GHOST["recorded"] = exc


class Rpc:
    """An RPC of the manager's list."""

    def __init__(self, fails):
        self.fails = fails

    def pv_await(self):
        GHOST["taken"] = GHOST["taken"] - 1
        world()
        if self.fails:
            GHOST["why"] = "rpc"
            raise Failure()
        return None


class Rpcs:
    """The manager's list, of which only the number of RPCs and of failing ones matters."""

    def __len__(self):
        return GHOST["rpcs"]

    def pop(self, *at):
        ensure(GHOST["rpcs"] > 0, "there is an RPC to wait for")
        fails = sym("the rpc fails", "bool")
        assume(implies(fails, GHOST["failing"] > 0))
        assume(implies(GHOST["failing"] == GHOST["rpcs"], fails))
        GHOST["rpcs"] = GHOST["rpcs"] - 1
        GHOST["failing"] = GHOST["failing"] - (1 if fails else 0)
        GHOST["taken"] = GHOST["taken"] + 1
        return Rpc(fails)


class Recorded:
    """The recorded failure."""

    def with_traceback(self, tb):
        GHOST["why"] = "recorded"
        return Failure()


class Manager:
    rpcs = Rpcs()
    exception_traceback = None

    @property
    def unhandled_exception(self):
        return Recorded() if GHOST["recorded"] else None


class Task:
    """A task of the program."""

    def exception(self):
        return ufn("exception", self, result=("opt", "exc")) if SYMBOLIC else None

    def cancel(self):
        ensure(GHOST["broken"], "tasks are cancelled only after a failure")
        return True


TASKS = ("list", ("obj", "spec.c23.Task"))


def running_tasks():
    ts = sym("running tasks", TASKS)
    assume(len(ts) == GHOST["running"])
    return ts


class Asyncio:
    async def sleep(self, t):
        world()

    async def wait(self, tasks, return_when="ALL_COMPLETED", timeout=None):
        ensure(len(tasks) > 0, "asyncio.wait needs something to wait for")
        ensure(timeout is None, "no time limit")
        world()
        done, pending = sym("done", TASKS), sym("pending", TASKS)
        broken = sym("a task fails", "bool")
        assume(len(done) + len(pending) == len(tasks) and len(done) > 0)
        if broken:
            assume(any(t.exception() is not None for t in done))
        else:
            assume(all(t.exception() is None for t in done))
        if return_when == "FIRST_EXCEPTION":
            assume(implies(not_(broken), len(pending) == 0))
        elif return_when == "ALL_COMPLETED":
            assume(len(pending) == 0)
        GHOST["broken"] = or_(GHOST["broken"], broken)
        return done, pending


def waiting_inv(ghost_rpcs, ghost_failing, ghost_running, ghost_taken, ghost_broken):
    return and_(not_(ghost_broken), ghost_rpcs >= 0, ghost_failing >= 0, ghost_failing <= ghost_rpcs, ghost_running >= 0, ghost_taken == 0)


async def check_wait_for_rpcs():
    """Waiting ends only when there are no RPCs and no tasks left, or with a failure; every RPC taken from the list is waited for."""
    if not SYMBOLIC:
        return
    for k in ["rpcs", "failing", "running"]:
        GHOST[k] = sym(k, "int")
    GHOST["taken"], GHOST["recorded"], GHOST["broken"], GHOST["why"] = 0, sym("a failure is recorded", "bool"), False, ""
    assume(GHOST["failing"] >= 0 and GHOST["running"] >= 0)
    assume(GHOST["failing"] <= GHOST["rpcs"])
    setg(S + "RPC_MANAGER", Manager())
    setg(S + "asyncio", Asyncio())
    use(S + "_get_running_tasks", running_tasks)
    all_tasks = choose("all tasks", [True, False])
    invariant(S + "*", waiting_inv, "while", ghost_rpcs="int", ghost_failing="int", ghost_running="int", ghost_taken="int",
              ghost_recorded="bool", ghost_broken="bool", ghost_why="str")
    failed = None
    try:
        if all_tasks:
            await root(wait_for_rpcs)
        else:
            await root(wait_for_rpcs, await_all_outstanding_tasks=False)
    except Exception as e:
        failed = e
    if failed is None:
        ensure(GHOST["rpcs"] == 0, "no RPC is outstanding")
        ensure(GHOST["taken"] == 0, "every RPC taken from the list was waited for")
        ensure(not_(GHOST["recorded"]), "no failure of an RPC went unnoticed")
        ensure(not_(GHOST["broken"]), "no failure of a task that was waited for went unnoticed")
        if all_tasks:
            ensure(GHOST["running"] == 0, "no task is outstanding")
    else:
        ensure(or_(GHOST["why"] == "rpc", GHOST["why"] == "recorded", GHOST["broken"]), "only failures end the waiting early")



# ------------------------------------------------------------------------------------------ the list of RPCs
async def check_do_rpc():
    """An RPC is in the manager's list before it runs; its result or failure is reported, and the first failure is recorded."""
    m = RPCManager()
    given = symexc("an earlier failure")
    earlier = choose("an earlier failure", [False, True])
    if earlier:
        m.unhandled_exception = given
        m.exception_traceback = "earlier"
    fails = choose("the rpc fails", [False, True])
    error = symexc("failure")
    ran = []
    v = sym("result", "any")

    async def rpc(a, b=None):
        ensure(len(m.rpcs) == 1, "the RPC is in the list while it runs")
        ran.append((a, b))
        if fails:
            raise error
        return v
    r, e = await root(m.do_rpc("name", rpc), 1, b=2)
    ensure_same(ran, [(1, 2)], "the RPC runs once, with its arguments")
    ensure(len(m.rpcs) == 1, "it stays in the list until it is waited for")
    if fails:
        ensure(r is None and e is error, "the failure is reported")
        ensure(m.unhandled_exception is (given if earlier else error), "the first failure is recorded")
        ensure(implies(earlier, m.exception_traceback == "earlier"), "and where it came from")
    else:
        ensure(r is v and e is None, "the result is reported")
        ensure(m.unhandled_exception is (given if earlier else None), "nothing is recorded")


def spec_wait(await_all_outstanding_tasks):
    ensure(GHOST["ran"] == 1, "after the program")
    ensure(await_all_outstanding_tasks is True, "for everything")
    GHOST["waited"] = GHOST["waited"] + 1


async def native_wait(await_all_outstanding_tasks=True):
    spec_wait(await_all_outstanding_tasks)


async def check_run_pulumi_func():
    """What the program started is waited for, even if the program fails."""
    GHOST["ran"], GHOST["waited"] = 0, 0
    if SYMBOLIC:
        use(S + "wait_for_rpcs", spec_wait)
    else:
        setg(S + "wait_for_rpcs", native_wait)
    fails = choose("the program fails", [False, True])

    def program():
        GHOST["ran"] = GHOST["ran"] + 1
        if fails:
            raise Failure()
    failed = False
    try:
        await root(run_pulumi_func, program)
    except Failure:
        failed = True
    ensure(failed is fails, "the program's failure is reported")
    ensure(GHOST["ran"] == 1 and GHOST["waited"] == 1, "the program is run, then waited for")


# ------------------------------------------------------------------------------------------ whole programs
async def turns(n):
    for _ in range(n):
        await asyncio.sleep(0)
    return n


class Run:
    """A random program: RPCs, callbacks and synchronous waits, nested in each other."""

    def __init__(self, failing):
        self.left = 14
        self.failing = failing
        self.events = []
        self.pending = set()
        self.wrong = []
        self.n = 0

    def tree(self, depth):
        r = rand()
        out = []
        for _ in range(r.randrange(1, 3)):
            if self.left <= 0:
                break
            self.left -= 1
            kind = r.choice(["rpc", "apply", "apply", "task", "sync"] if depth > 0 else ["rpc"])
            self.n += 1
            out.append((kind, self.n, r.choice([0, 0, 1, 2, 5, 9]), self.failing and kind == "rpc" and r.random() < 0.3, self.tree(depth - 1) if depth > 0 else []))
        return out

    def start(self, nodes):
        for node in nodes:
            kind, n, k, fails, inner = node
            self.pending.add(n)
            if kind == "rpc":
                asyncio.ensure_future(self.rpc(node))
            elif kind == "apply":
                pulumi.Output.from_input(turns(k)).apply(lambda _, node=node: self.done(node))
            elif kind == "task":
                asyncio.ensure_future(self.task(node))
            else:
                _sync_await(turns(k))
                self.done(node)

    def done(self, node):
        kind, n, k, fails, inner = node
        self.start(inner)
        self.pending.discard(n)

    async def task(self, node):
        await turns(node[2])
        self.done(node)

    async def rpc(self, node):
        kind, n, k, fails, inner = node

        async def call():
            await turns(k)
            if fails:
                self.wrong.append(n)
                self.pending.discard(n)
                raise Failure(n)
            return n
        r, e = await RPC_MANAGER.do_rpc(str(n), call)()
        if e is None:
            if r != n:
                self.wrong.append(("result", r, n))
            self.done(node)


async def check_program_native():
    """A program ends when all that it started, directly or not, has finished, or with the failure of an RPC."""
    RPC_MANAGER.clear()
    p = Run(rand().random() < 0.3)
    nodes = p.tree(4)
    note("program", nodes)

    def program():
        p.start(nodes)
    failed = None
    try:
        await asyncio.wait_for(asyncio.ensure_future(own_task(program)), 20)
    except Failure as e:
        failed = e
    finally:
        recorded = RPC_MANAGER.unhandled_exception
        RPC_MANAGER.clear()
    if failed is None:
        ensure(not p.wrong and recorded is None, f"a failing RPC makes the program fail {p.wrong}")
        ensure(not p.pending, f"outstanding at the end: {sorted(p.pending)}")
    else:
        ensure(p.wrong, "only a failing RPC makes the program fail")


async def check_failing_task_native():
    """The failure of a task that is waited for makes the program fail, whatever else goes on."""
    RPC_MANAGER.clear()
    r = rand()
    tasks = [(r.randrange(1, 30), r.random() < 0.3, [r.randrange(30) for _ in range(r.randrange(3))] if r.random() < 0.5 else []) for _ in range(r.randrange(1, 6))]
    note("tasks (turns, fails, RPCs' turns)", tasks)

    async def task(k, fails, rpcs):
        await turns(k)
        if fails:
            raise Failure()
        for n in rpcs:
            await RPC_MANAGER.do_rpc(str(n), lambda n=n: turns(n))()
        await turns(k)

    def program():
        for t in tasks:
            asyncio.ensure_future(task(*t))
    failed = False
    try:
        await asyncio.wait_for(asyncio.ensure_future(own_task(program)), 20)
    except Failure:
        failed = True
    finally:
        RPC_MANAGER.clear()
    ensure(failed is any(fails for k, fails, rpcs in tasks), "the program fails exactly if one of its tasks does")


async def check_rpcs_only_native():
    """A provider's request waits for every RPC, also those started by others, and for nothing else: other requests go on."""
    r = rand()
    RPC_MANAGER.clear()
    done, failing = [], r.random() < 0.3
    shape = [(r.randrange(6), r.randrange(3)) for _ in range(r.randrange(4))]
    note("RPCs (turns, RPCs that follow)", (shape, failing))

    async def rpc(k, more):
        await turns(k)
        for n in range(more):
            started.append(asyncio.ensure_future(RPC_MANAGER.do_rpc("follow", lambda: rpc(k, 0))()))
            await asyncio.sleep(0)
        done.append(k)
        if failing and more == 0:
            raise Failure()

    started = [asyncio.ensure_future(RPC_MANAGER.do_rpc("rpc", lambda k=k, more=more: rpc(k, more))()) for k, more in shape]
    other = asyncio.ensure_future(asyncio.sleep(1000))
    await asyncio.sleep(0)
    await asyncio.sleep(0)
    failed = False
    try:
        await asyncio.wait_for(wait_for_rpcs(await_all_outstanding_tasks=False), 5)
    except Failure:
        failed = True
    except asyncio.TimeoutError:
        fails("the wait for RPCs ends when there are none")
    ensure(not other.done(), "other tasks are left alone")
    if not failed:
        ensure(len(done) == len(shape) + sum(more for k, more in shape), f"every RPC is waited for {done}")
        ensure(not failing or all(more > 0 for k, more in shape) and not any(more for k, more in shape), "a failing RPC makes the request fail")
    else:
        ensure(failing, "only a failing RPC makes the request fail")
    RPC_MANAGER.clear()
    ensure(RPC_MANAGER.unhandled_exception is None and RPC_MANAGER.exception_traceback is None and RPC_MANAGER.rpcs == [], "what is recorded is forgotten for the next request")
    other.cancel()
    for t in started:
        await t


async def check_cancel_native():
    """When a task fails, the tasks that are left over are cancelled."""
    r = rand()
    RPC_MANAGER.clear()
    left = []
    n, k = r.randrange(1, 4), r.randrange(1, 5)
    note("left over, turns", (n, k))

    async def failing():
        await turns(k)
        raise Failure()

    def program():
        left.extend(asyncio.ensure_future(asyncio.sleep(1000)) for _ in range(n))
        asyncio.ensure_future(failing())
    failed = False
    try:
        await asyncio.wait_for(asyncio.ensure_future(own_task(program)), 20)
    except Failure:
        failed = True
    except asyncio.TimeoutError:
        pass
    await asyncio.sleep(0)
    ensure(failed, "the failure is reported")
    ensure(all(t.cancelled() for t in left), "the tasks left over are cancelled")
    for t in left:
        t.cancel()


async def own_task(program):
    """The program's own loop: the harness's tasks do not count as the program's."""
    ours = asyncio.all_tasks() - {asyncio.current_task()}
    import pulumi.runtime.stack as st
    real = st._get_running_tasks
    st._get_running_tasks = lambda: [t for t in real() if t not in ours]
    try:
        await run_pulumi_func(program)
    finally:
        st._get_running_tasks = real


async def check_sync_await_native():
    """Waiting synchronously inside a callback yields the awaited value and loses nothing that was scheduled."""
    r = rand()
    seen = []

    async def other(n, k):
        await turns(k)
        seen.append(n)
    count = r.randrange(6)
    tasks = [asyncio.ensure_future(other(n, r.randrange(6))) for n in range(count)]
    depth = r.randrange(1, 4)

    async def nested(d):
        await turns(r.randrange(3))
        return d if d == 0 else _sync_await(nested(d - 1)) + 1
    got = _sync_await(nested(depth))
    ensure(got == depth, "the awaited value")
    fails = r.random() < 0.3

    async def failing():
        await turns(2)
        raise Failure()
    if fails:
        try:
            _sync_await(failing())
            fails_seen = False
        except Failure:
            fails_seen = True
        ensure(fails_seen, "the awaited failure")
    for t in tasks:
        await t
    ensure(sorted(seen) == list(range(count)), "every other task runs to its end, once")


HARNESSES = [check_wait_for_rpcs, check_do_rpc, check_run_pulumi_func]
NATIVE = [check_program_native, check_failing_task_native, check_rpcs_only_native, check_cancel_native, check_sync_await_native]
BOUNDS = {"check_rpcs_only_native": "up to 3 RPCs with 2 more each", "check_cancel_native": "up to 3 tasks left over",
          "check_program_native": "programs of up to 14 nested operations, delays of up to 9 turns of the event loop",
          "check_failing_task_native": "up to 5 tasks, delays of up to 30 turns of the event loop",
          "check_sync_await_native": "up to 6 other tasks, 3 nested waits"}
