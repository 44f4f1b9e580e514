"""Scheduling and fault points inside the repository's code, and the seeded scheduler.

A *point* is the start of a line (or of a bytecode instruction) of any repository code
object, reached in a context the simulator drives. At a point the simulator may
 - hand control to another simulated task (tasks are real threads, but exactly one of
   them ever runs; the others are parked on a semaphore), or
 - raise an injected exception there (an interrupt, a failed allocation).
Which point does what is decided by the trace (a list of numbers), never by the OS.
"""
import sys
import threading
import weakref

mon = sys.monitoring
TOOL = 3
_get_ident = threading.get_ident
CTX = {}
_trace_state = None
_granularity = None


class SimKeyboardInterrupt(KeyboardInterrupt):
    pass


class SimMemoryError(MemoryError):
    pass


class SimRuntimeError(RuntimeError):
    pass


EXC = {"KeyboardInterrupt": SimKeyboardInterrupt, "MemoryError": SimMemoryError,
       "RuntimeError": SimRuntimeError}
for _base in (NotImplementedError, ValueError, TypeError, KeyError, AttributeError, OSError, ArithmeticError,
              AssertionError, SystemExit):
    EXC[_base.__name__] = type("Sim" + _base.__name__, (_base,), {})


BUDGET = 2000000         # points one operation may take; beyond that it does not terminate


class SimHang(BaseException):
    """The operation passed more points than any terminating one could."""


class Ctx:
    __slots__ = ("on", "count", "inject_at", "exc", "fired", "where", "sched", "task", "total",
                 "opno", "budget")

    def __init__(self, sched=None, task=None):
        self.on = False
        self.count = 0
        self.inject_at = 0
        self.exc = None
        self.fired = False
        self.where = None
        self.sched = sched
        self.task = task
        self.total = 0
        self.opno = 0
        self.budget = BUDGET


def _point(code, pos):
    ctx = CTX.get(_get_ident())
    if ctx is None or not ctx.on:
        return
    stack = _trace_state.trace_state.trace_stack
    if len(stack.stack) != 1 or stack.dynamic.level != 0:
        return      # JAX is tracing here; whether it does depends on its caches, so no points
    ctx.count += 1
    ctx.total += 1
    if ctx.count > ctx.budget:
        raise SimHang("no progress within %d points" % ctx.budget)
    if ctx.count == ctx.inject_at:
        ctx.fired = True
        ctx.where = code.co_name
        raise ctx.exc("injected by the simulator")
    if ctx.sched is not None:
        ctx.sched.tick(ctx)


def install(granularity):
    """granularity: 'line', 'inst' or None"""
    global _trace_state, _granularity
    from . import boot
    if _trace_state is None:
        import jax._src.core as jcore
        _trace_state = jcore.thread_local_state
        mon.use_tool_id(TOOL, "dst")
        mon.register_callback(TOOL, mon.events.LINE, _point)
        mon.register_callback(TOOL, mon.events.INSTRUCTION, _point)
    if granularity == _granularity:
        return
    events = {"line": mon.events.LINE, "inst": mon.events.INSTRUCTION, None: 0}[granularity]
    for code in boot.CODES:
        mon.set_local_events(TOOL, code, events)
    _granularity = granularity


class run_real:
    """Points are active inside this block for the calling thread."""
    __slots__ = ("ctx", "inject")

    def __init__(self, ctx, inject=None):
        self.ctx = ctx
        self.inject = inject

    def __enter__(self):
        ctx = self.ctx
        ctx.count = 0
        ctx.fired = False
        ctx.inject_at = 0
        if self.inject:
            ctx.inject_at = self.inject["k"]
            ctx.exc = EXC[self.inject["exc"]]
        ctx.on = True
        return ctx

    def __exit__(self, *exc):
        self.ctx.on = False
        self.ctx.inject_at = 0
        return False


class Deadlock(Exception):
    pass


class TaskKilled(BaseException):
    pass


class Scheduler:
    """Runs tasks (callables taking a Ctx) one at a time, switching where the trace says."""

    def __init__(self, schedule):
        self.schedule = [tuple(s) for s in schedule]
        self.pos = 0
        self.tasks = []
        self.live = []
        self.blocked = {}
        self.switches = 0
        self.preemptions = 0
        self.order = []
        self.left = self.schedule[0][0] if self.schedule else 1 << 60
        self.done = threading.Semaphore(0)
        self.deadlock = None
        self.errors = []

    def _next(self):
        """consume the next schedule entry and say who runs"""
        self.pos += 1
        if self.pos < len(self.schedule):
            self.left, pick = self.schedule[self.pos][0], self.schedule[self.pos][1]
        else:
            self.left, pick = 1 << 60, 0
        runnable = [t for t in self.live if t not in self.blocked]
        if not runnable:
            return None
        return runnable[pick % len(runnable)]

    def tick(self, ctx):
        self.left -= 1
        if self.left > 0:
            return
        target = self._next()
        if target is not None and target is not ctx.task:
            self.preemptions += 1
            self._switch(ctx.task, target)

    def _switch(self, me, target):
        self.switches += 1
        self.order.append(target.index)
        target.sem.release()
        if me is not None:
            me.sem.acquire()
            if self.deadlock:
                raise TaskKilled()

    def block(self, ctx, lock):
        """the running task waits for a simulated lock"""
        self.blocked[ctx.task] = lock
        target = self._next()
        if target is None:
            self.deadlock = "every live task waits for a lock"
            for t in self.live:
                if t is not ctx.task:
                    t.sem.release()
            raise TaskKilled()
        self._switch(ctx.task, target)

    def unblock(self, lock):
        for t, l in list(self.blocked.items()):
            if l is lock:
                del self.blocked[t]

    def run(self, functions):
        for i, fn in enumerate(functions):
            task = _Task(self, i, fn)
            self.tasks.append(task)
        self.live = list(self.tasks)
        for t in self.tasks:
            t.thread.start()
        first = self.live[(self.schedule[0][1] if self.schedule else 0) % len(self.live)]
        self.order.append(first.index)
        first.sem.release()
        for _ in self.tasks:
            self.done.acquire()
        for t in self.tasks:
            t.thread.join()
        for e in self.errors:
            raise e


class _Task:
    def __init__(self, sched, index, fn):
        self.sched = sched
        self.index = index
        self.fn = fn
        self.sem = threading.Semaphore(0)
        self.ctx = Ctx(sched, self)
        self.thread = threading.Thread(target=self._main, daemon=True)

    def _main(self):
        self.sem.acquire()
        CTX[_get_ident()] = self.ctx
        try:
            if not self.sched.deadlock:
                self.fn(self.ctx)
        except TaskKilled:
            pass
        except BaseException as e:      # a fault of the harness: reported by run()
            self.sched.errors.append(e)
        finally:
            self.ctx.on = False
            CTX.pop(_get_ident(), None)
            self.sched.live.remove(self)
            if self.sched.live and not self.sched.deadlock:
                target = self.sched._next()
                if target is None:
                    self.sched.deadlock = "every live task waits for a lock"
                    for t in self.sched.live:
                        t.sem.release()
                else:
                    self.sched.switches += 1
                    self.sched.order.append(target.index)
                    target.sem.release()
            self.sched.done.release()


class SimDeadlock(BaseException):
    """A simulated client waits for a lock that nobody is going to release."""


LOCKS = weakref.WeakSet()


class SimLock:
    """Stands in for a lock created by the repository. Only one simulated client runs at a time, so
    the lock is bookkeeping; waiting for it parks the simulated client instead of the process."""

    def __init__(self, real, reentrant):
        self._reentrant = reentrant
        self.reset()
        LOCKS.add(self)

    def reset(self):
        self._owner = None
        self._depth = 0

    def acquire(self, blocking=True, timeout=-1):
        ctx = CTX.get(_get_ident())
        while self._owner is not None and not (self._reentrant and self._owner is threading.current_thread()):
            if not blocking:
                return False
            if ctx is None or ctx.sched is None:
                if timeout >= 0:
                    return False
                raise SimDeadlock("waits for a lock that nobody will release")
            ctx.sched.block(ctx, self)
        self._owner = threading.current_thread()      # (identifiers are used again by later threads)
        self._depth += 1
        return True

    def release(self):
        if self._owner is None or self._reentrant and self._owner is not threading.current_thread():
            raise RuntimeError("release unlocked lock")
        self._depth -= 1
        if self._depth == 0 or not self._reentrant:
            self.reset()
            ctx = CTX.get(_get_ident())
            if ctx is not None and ctx.sched is not None:
                ctx.sched.unblock(self)

    def locked(self):
        return self._owner is not None

    __enter__ = acquire

    def __exit__(self, *exc):
        self.release()
        return False


def elsewhere(ctx, fn):
    """Run fn in a thread of its own, as the client ctx, while the calling thread waits."""
    out = []

    def body():
        CTX[_get_ident()] = ctx
        try:
            out.append((fn(), None))
        except BaseException as e:
            out.append((None, e))
        finally:
            CTX.pop(_get_ident(), None)
    th = threading.Thread(target=body)
    th.start()
    th.join()
    value, error = out[0]
    if error is not None:
        raise error
    return value
