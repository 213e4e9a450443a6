"""The simulation kernel: decides which task runs, and where failures strike.

Tasks are real threads, but exactly one of them runs at any moment: every other one is parked on
a lock.  `sys.monitoring` delivers LINE events (and CALL events) for every code object of the
package; each is a scheduling point at which the policy picks the task that continues.  The same
CALL events are the injection points for failing numerical kernels, interrupts and kills.  Array
allocations fail through the allocator seam (alloc.py).
"""

import gc
import logging
import queue
import os
import random
import sys
import threading
import types

mon = sys.monitoring
TOOL = 3
_RealLock = threading.Lock
_tls = threading.local()

KERNEL_MODULES = ("numpy", "scipy", "skimage", "matplotlib", "mpl_toolkits")


class SimAbort(BaseException):
    """Raised inside a task to unwind it when the kernel gives up on the run."""


class Killed(BaseException):
    """Unwinds nothing: the process has been told to die here."""


def is_kernel(fn):
    """Is this callable one of the numerical / plotting libraries' own?"""
    mod = getattr(fn, "__module__", None)
    if isinstance(mod, str) and mod.split(".")[0] in KERNEL_MODULES:
        return True
    cls = getattr(fn, "__objclass__", None)
    if cls is None and isinstance(fn, types.BuiltinFunctionType):
        cls = type(fn.__self__)
    if cls is None:
        cls = type(fn)
    mod = getattr(cls, "__module__", None)
    return isinstance(mod, str) and mod.split(".")[0] in KERNEL_MODULES


# restoring a setting is not a computation: no failure is injected into these
CLEANUP = {"__enter__", "__exit__", "__del__", "seterr", "seterrcall", "geterr", "setbufsize",
           "set_printoptions", "get_printoptions", "set_state", "setstate", "close", "errstate",
           "rc_context", "ioff", "ion", "sca", "switch_backend", "use"}


def kernel_name(fn):
    n = getattr(fn, "__name__", None) or type(fn).__name__
    return str(n)


def package_codes(root):
    """Every code object defined in files below root."""
    seen = {}

    def add(code):
        if id(code) in seen or not code.co_filename.startswith(root):
            return
        seen[id(code)] = code
        for c in code.co_consts:
            if isinstance(c, types.CodeType):
                add(c)

    for o in gc.get_objects():
        if isinstance(o, types.FunctionType):
            add(o.__code__)
        elif isinstance(o, types.CodeType):
            add(o)
    return list(seen.values())


# --------------------------------------------------------------------------- policies
class Policy:
    """Decides, at every scheduling point, which runnable task continues."""

    def __init__(self, spec):
        self.spec = spec
        self.rng = random.Random(spec.get("seed", 0))
        self.kind = spec["kind"]
        self.explicit = {(t, s): to for t, s, to in spec.get("switches", [])}
        self.p = spec.get("p", 0.1)
        self.change = sorted(spec.get("change", []), reverse=True)
        self.prio = {}
        self.pre = {tuple(x) for x in spec.get("pre", [])}
        self.left = spec.get("off", 0) + 1
        self.waiting = set()

    def start(self, ids):
        order = list(ids)
        if self.kind == "pre":
            self.rng.shuffle(order)
            first = self.spec["pre"][0][0] if self.spec["pre"] else order[0]
            order = [first] + [t for t in order if t != first]
        elif self.kind != "explicit":
            self.rng.shuffle(order)
        else:
            order = [t for t in self.spec.get("order", ids) if t in ids] or order
        self.order = order
        self.prio = {t: len(order) - i for i, t in enumerate(order)}
        return order[0]

    def at_yield(self, cur, step, gstep, runnable, boundary):
        """Next task to run (may be cur)."""
        k = self.kind
        if k == "walk":
            if len(runnable) > 1 and self.rng.random() < self.p:
                return self.rng.choice([t for t in runnable if t != cur])
            return cur
        if k == "pct":
            if self.change and gstep >= self.change[-1]:
                self.change.pop()
                self.prio[cur] = min(self.prio.values()) - 1
            return max(runnable, key=lambda t: self.prio[t])
        if k == "lock":
            return self.lockstep(cur, runnable, boundary)
        if k == "pre":
            if (cur, step) in self.pre:
                rest = [t for t in runnable if t != cur]
                if rest:
                    return self.rng.choice(rest)
            return cur
        if k == "ops":
            if boundary and len(runnable) > 1 and self.rng.random() < self.p:
                return self.rng.choice(runnable)
            return cur
        if k == "explicit":
            to = self.explicit.get((cur, step))
            return to if to in runnable else cur
        return cur

    def lockstep(self, cur, runnable, boundary):
        """In turn, a few lines each; the next operations start together."""
        if boundary:
            self.waiting.add(cur)
            if not set(runnable) <= self.waiting:
                runnable = [t for t in runnable if t not in self.waiting]
            else:
                self.waiting.clear()
                self.left = self.spec.get("off", 0) + 1
        else:
            self.left -= 1
            if self.left > 0:
                return cur
            self.left = self.spec["run"]
            runnable = [t for t in runnable if t not in self.waiting]
        after = [t for t in runnable if t > cur] + [t for t in runnable if t < cur]
        return after[0] if after else cur

    def next_after(self, runnable):
        if self.kind == "explicit":
            return min(runnable, key=lambda t: self.order.index(t) if t in self.order else t)
        if self.kind == "pct":
            return max(runnable, key=lambda t: self.prio[t])
        return self.rng.choice(sorted(runnable))


class Task:
    def __init__(self, tid, fn):
        self.tid = tid
        self.fn = fn
        self.gate = _RealLock()
        self.gate.acquire()
        self.steps = 0
        self.done = False
        self.blocked = None
        self.fault = None
        self.thread = None


# no system lets one thread spin for ever while others could run
FAIR = 150_000


class Kernel:
    def __init__(self, policy_spec=None, step_limit=2_000_000, fine=False, on_step=None,
                 on_thread=None):
        self.policy = Policy(policy_spec or {"kind": "seq"})
        self.step_limit = step_limit
        self.fine = fine
        self.on_step = on_step
        self.on_thread = on_thread
        self.tasks = {}
        self.gsteps = self.since = 0
        self.switches = []
        self.trace_hash = 0
        self.failure = None
        self.aborting = False
        self.multi = False
        self.record = None

    # ---- running
    def run(self, fns):
        self.tasks = {i: Task(i, f) for i, f in enumerate(fns)}
        self.multi = len(fns) > 1
        self.finished = _RealLock()
        self.finished.acquire()
        for t in self.tasks.values():
            t.thread = threading.Thread(target=self._body, args=(t,), daemon=True)
            t.thread.start()
        first = self.policy.start(sorted(self.tasks))
        self.first = first
        self.tasks[first].gate.release()
        self.finished.acquire()
        for t in self.tasks.values():
            t.thread.join(10)

    def _body(self, task):
        task.gate.acquire()
        if self.on_thread:
            self.on_thread()
        _tls.task, _tls.kernel = task, self
        try:
            task.fn(task)
        except SimAbort:
            pass
        except BaseException as e:  # harness error: report, never swallow
            import traceback

            self.failure = self.failure or ("harness", traceback.format_exc())
        _tls.task = None
        task.done = True
        self._handover()

    def _handover(self):
        alive = [t for t in self.tasks.values() if not t.done]
        if not alive:
            self.finished.release()
            return
        run = [t.tid for t in alive if t.blocked is None or not t.blocked.held]
        if not run:
            self.failure = self.failure or ("deadlock", "every task waits for a lock")
            self.aborting = True
            run = [t.tid for t in alive]
        nxt = self.tasks[self.policy.next_after(run)]
        nxt.gate.release()

    def runnable(self):
        return [
            i for i, t in self.tasks.items()
            if not t.done and (t.blocked is None or not t.blocked.held)
        ]

    def switch(self, task, to):
        self.switches.append((task.tid, task.steps, to))
        self.since = self.gsteps
        self.tasks[to].gate.release()
        task.gate.acquire()
        if self.aborting:
            raise SimAbort()

    def step(self, task, boundary=False, site="op"):
        task.steps += 1
        self.gsteps += 1
        if self.record is not None:
            self.record.setdefault(task.tid, []).append(site)
        if self.aborting:
            raise SimAbort()
        if self.gsteps > self.step_limit:
            self.failure = self.failure or ("no-progress", f"{self.gsteps} steps")
            self.aborting = True
            raise SimAbort()
        if self.on_step is not None:
            self.on_step(task)
        if self.multi:
            run = self.runnable()
            if len(run) > 1:
                to = self.policy.at_yield(task.tid, task.steps, self.gsteps, run, boundary)
                if to != task.tid:
                    self.switch(task, to)
                elif self.gsteps - self.since > FAIR:
                    self.pass_on(task, [t for t in run if t != task.tid])

    def boundary(self, task):
        self.step(task, boundary=True)

    def nap(self, task):
        """The task sleeps: somebody else gets the processor if anybody wants it."""
        task.steps += 1
        self.gsteps += 1
        if self.gsteps > self.step_limit:
            self.step(task)
        if self.multi:
            others = [t for t in self.runnable() if t != task.tid]
            if others:
                self.pass_on(task, others)

    def pass_on(self, task, others):
        to = self.policy.at_yield(task.tid, task.steps, self.gsteps, others, True)
        if to not in others:
            after = [t for t in others if t > task.tid]
            to = min(after or others)
        self.switch(task, to)


# --------------------------------------------------------------------------- injected failures
class Fault:
    """One planned failure inside one operation of one task.

    kind: "alloc" (n-th array allocation returns NULL), "call" (n-th call into a numerical kernel
    raises `exc`), "count" (dry run: only count both).
    """

    def __init__(self, spec):
        self.kind = spec["kind"]
        self.n = spec.get("n", 0)
        self.exc = spec.get("exc", "MemoryError")
        self.min = spec.get("min", 1)
        self.sticky = spec.get("sticky", False)
        self.only = spec.get("only")
        self.calls = 0
        self.fired = None
        self.allocs = 0
        self.on_kill = None
        self.call_sites = {}
        self.alloc_sites = {}
        self._at = ("start", 0)

    def mark(self, site, allocs):
        """Dry run: the allocations since the last executed line happened on that line."""
        if allocs > self.allocs:
            self.alloc_sites.setdefault(self._at, []).extend(range(self.allocs + 1, allocs + 1))
            self.allocs = allocs
        self._at = site

    def hit(self, fn, site=None):
        if self.kind not in ("call", "count"):
            return
        name = kernel_name(fn)
        if name in CLEANUP or (self.only and name not in self.only):
            return
        self.calls += 1
        if self.kind == "count":
            self.call_sites.setdefault(site + (name,), []).append(self.calls)
        if self.kind == "call" and self.calls == self.n:
            self.fired = f"call:{self.exc}:{name}"
            if self.exc == "kill":
                self.on_kill()
            raise make_exc(self.exc, name)


def make_exc(exc, name):
    import numpy as np

    msg = f"injected into {name}"
    return {
        "MemoryError": MemoryError, "KeyboardInterrupt": KeyboardInterrupt,
        "LinAlgError": np.linalg.LinAlgError, "RuntimeError": RuntimeError,
        "OSError": OSError, "FloatingPointError": FloatingPointError,
    }[exc](msg)


# --------------------------------------------------------------------------- monitoring seam
_installed = False


def _on_line(code, line):
    task = getattr(_tls, "task", None)
    if task is None:
        return
    pause = _tls.kernel.pause_alloc() if _tls.kernel.pause_alloc else None
    try:
        f = task.fault
        if f is not None and f.kind == "count":
            f.mark((code.co_qualname, line), _tls.kernel.count_alloc())
        _tls.kernel.step(task, site=(code.co_qualname, line))
    finally:
        if pause is not None:
            _tls.kernel.restore_alloc(pause)


def _on_call(code, offset, fn, arg0):
    task = getattr(_tls, "task", None)
    if task is None:
        return
    f = task.fault
    if f is not None and f.fired is None and is_kernel(fn):
        f.hit(fn, (code.co_qualname, offset))
    if _tls.kernel.fine:
        _on_line(code, -offset)


Kernel.pause_alloc = None
Kernel.count_alloc = None
Kernel.restore_alloc = None


def install(root):
    """Attach the scheduling and injection points to every code object of the package."""
    global _installed
    codes = package_codes(root)
    if not _installed:
        mon.use_tool_id(TOOL, "pyotf-dst")
        mon.register_callback(TOOL, mon.events.LINE, _on_line)
        mon.register_callback(TOOL, mon.events.CALL, _on_call)
        _installed = True
    for c in codes:
        mon.set_local_events(TOOL, c, mon.events.LINE | mon.events.CALL)
    return codes


# --------------------------------------------------------------------------- lock seam
sleeping = None  # tells the clock that time passes


class SimLock:
    """Replacement for locks created by the package: waiting is a scheduling decision."""

    def __init__(self, reentrant=False):
        self.reentrant = reentrant
        self.owner = None
        self.count = 0

    @property
    def held(self):
        return self.count > 0

    def acquire(self, blocking=True, timeout=-1):
        me = threading.get_ident()
        task = getattr(_tls, "task", None)
        while True:
            if not self.count or (self.reentrant and self.owner == me):
                self.owner, self.count = me, self.count + 1
                return True
            if not blocking:
                return False
            if task is None:
                raise RuntimeError("lock would block for ever outside a simulation")
            k = _tls.kernel
            task.blocked = self
            run = k.runnable()
            if timeout is not None and timeout > 0:
                task.blocked = None
                k.nap(task)
                if not self.count:
                    continue
                if sleeping is not None:
                    sleeping(timeout)
                return False
            if not run:
                task.blocked = None
                k.failure = k.failure or ("deadlock", "every task waits for a lock")
                k.aborting = True
                raise SimAbort()
            task.steps += 1
            k.gsteps += 1
            k.switch(task, k.policy.next_after(run))
            task.blocked = None

    def release(self):
        if not self.count or self.reentrant and self.owner != threading.get_ident():
            raise RuntimeError("release unlocked lock")
        self.count -= 1
        if not self.count:
            self.owner = None

    def locked(self):
        return self.held

    def _at_fork_reinit(self):
        self.owner, self.count = None, 0

    # what threading.Condition needs of the locks it is built on
    def _is_owned(self):
        return self.held and (not self.reentrant or self.owner == threading.get_ident())

    def _release_save(self):
        state = self.owner, self.count
        self.owner, self.count = None, 0
        return state

    def _acquire_restore(self, state):
        self.acquire()
        self.owner, self.count = state

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    def __reduce__(self):
        raise TypeError("cannot pickle lock")


def install_locks(root):
    """Locks created from package code become simulated ones."""
    real_lock, real_rlock = threading.Lock, threading.RLock

    inner = threading.__file__, queue.__file__

    def wanted(f):
        """Made by the package, or inside what it makes (conditions, events, semaphores, queues)."""
        while f is not None and f.f_code.co_filename in inner:
            if f.f_code.co_qualname.startswith(("Thread.", "Timer.", "_DummyThread.")):
                return False  # threads the package starts are real ones
            f = f.f_back
        return f is not None and f.f_code.co_filename.startswith(root)

    def make(real, reentrant):
        def factory(*a, **k):
            if wanted(sys._getframe(1)):
                return SimLock(reentrant)
            return real(*a, **k)

        return factory

    real_waiter = threading._allocate_lock

    def waiter():
        f = sys._getframe(1)
        if f.f_code.co_name == "wait" and isinstance(
                getattr(f.f_locals.get("self"), "_lock", None), SimLock):
            return SimLock()
        return real_waiter()

    threading._allocate_lock = waiter

    threading.Lock = make(real_lock, False)
    threading.RLock = make(real_rlock, True)
    # the logging module formats messages (which may run package code) under its locks
    logging._lock = SimLock(True)

    def create_lock(self):
        self.lock = SimLock(True)
        logging._register_at_fork_reinit_lock(self)

    logging.Handler.createLock = create_lock
    for ref in list(logging._handlerList):
        if ref() is not None:
            ref().lock = SimLock(True)


def real_kill():
    """The process dies here: no unwinding, no cleanup, nothing survives but files."""
    os._exit(77)
