"""Executes plans (one simulated run) and serves pristine executions to checks.

A *plan* is plain JSON data: inputs, setup operations, one operation list per task, planned
faults, a scheduling policy.  Executing it is a pure function of plan + code.
"""

import gc
import hashlib
import json
import logging
import os
import pickle
import random
import select
import signal
import struct
import subprocess
import sys
import time
import traceback

import numpy as np

from . import alloc, kernel, world
from .world import Exc, Missing, World, canon, prep_op, run_op

REPO = os.environ.get("PYOTF_REPO", "/repo")
PKG = os.path.join(REPO, "pyotf")


class SimEntropy:
    """The simulator's replacement for operating-system entropy."""

    def __init__(self):
        self.value = 0
        self.draws = 0
        self.real = np.random.default_rng

    def install(self):
        def default_rng(seed=None):
            if seed is None:
                self.draws += 1
                seed = [self.value, self.draws]
            return self.real(seed)

        np.random.default_rng = default_rng
        urandom = os.urandom

        def drawn(n):
            # os.urandom, secrets, uuid4, SystemRandom and every unseeded generator of numpy
            if getattr(kernel._tls, "task", None) is None:
                return urandom(n)
            self.draws += 1
            h = hashlib.shake_128(f"{self.value}/{self.draws}".encode())
            return h.digest(n)

        drawn.__module__, drawn.__name__ = "os", "urandom"
        os.urandom = random._urandom = drawn

    def set(self, value):
        self.value, self.draws = int(value), 0
        np.random.seed(int(value) % (2 ** 32))
        random.seed(int(value))


class SimClock:
    """Every clock of the time module, as code inside a simulated task sees it.

    Time passes with scheduler steps and with every reading; it can run slowly, fast (a stalled
    machine) and jump.  Wall clock readings may jump back, monotonic ones never do.
    """

    NAMES = ("time", "monotonic", "perf_counter", "process_time", "thread_time")

    def __init__(self):
        self.reads = 0
        self.set(None)

    def set(self, spec):
        spec = spec or {}
        self.t = float(spec.get("start", 1.7e9))
        self.tick = spec.get("tick", 1e-6)
        self.per_step = spec.get("step", 1e-6)
        self.jumps = {int(k): d for k, d in spec.get("jumps", [])}
        self.wall = 0.0
        self.reads = self.steps = 0

    def now(self, wall):
        self.reads += 1
        k = kernel._tls.kernel
        self.t += self.tick + self.per_step * max(0, k.gsteps - self.steps)
        self.steps = k.gsteps
        j = self.jumps.get(self.reads, 0)
        if j > 0:
            self.t += j
        else:
            self.wall += j
        return self.t + self.wall if wall else self.t - 1.6e9

    def install(self):
        import timeit

        def inside():
            return getattr(kernel._tls, "task", None) is not None

        def wrap(name):
            real, real_ns = getattr(time, name), getattr(time, name + "_ns")

            def read():
                return self.now(name == "time") if inside() else real()

            def read_ns():
                return int(self.now(name == "time") * 1e9) if inside() else real_ns()

            for f, n in ((read, name), (read_ns, name + "_ns")):
                f.__module__, f.__name__ = "time", n
                setattr(time, n, f)

        for name in self.NAMES:
            wrap(name)
        timeit.default_timer = time.perf_counter
        nap = time.sleep

        def sleep(d):
            if not inside():
                return nap(d)
            if d < 0:
                raise ValueError("sleep length must be non-negative")
            self.t += d
            kernel._tls.kernel.nap(kernel._tls.task)

        def passes(d):
            self.t += d

        kernel.sleeping = passes
        sleep.__module__ = "time"
        time.sleep = sleep


class SimForks:
    """What the package can know about forks.

    The simulator forks a process for every run; that must not look like a fork to the package,
    only the operation "fork" does.
    """

    def __init__(self):
        self.hooks = []
        self.inside = False
        self.other = 0

    def install(self):
        register, getpid, getppid = os.register_at_fork, os.getpid, os.getppid
        pid, ppid = getpid(), getppid()

        def register_at_fork(**kw):
            if sys._getframe(1).f_code.co_filename.startswith(PKG):
                self.hooks.append(kw)
            else:
                register(**kw)

        os.register_at_fork = register_at_fork
        os.getpid = lambda: getpid() if self.inside else pid + self.other
        os.getppid = lambda: getppid() if self.inside else ppid

    def call(self, when):
        for kw in reversed(self.hooks) if when == "before" else self.hooks:
            if when in kw:
                try:
                    kw[when]()
                except Exception:  # as the interpreter does
                    pass


FORKS = SimForks()
ENTROPY = SimEntropy()
CLOCK = SimClock()
ALLOC = None
IMPORT_DIFF = []


def _fake_git():
    """git answering healthily, so importing the package starts no process."""
    from .simgit import SimGit, patched

    return patched(SimGit({"tag": "v0.0", "distance": 0}))


def boot():
    """Load libraries and package in this (never simulated) process; attach all seams."""
    global ALLOC
    os.environ.setdefault("MPLBACKEND", "Agg")
    ALLOC = alloc.Allocator(alloc.build())
    sys.path[:] = [REPO] + [p for p in sys.path if os.path.realpath(p or ".") != REPO]
    kernel.install_locks(PKG)
    # libraries are exercised here so that their own lazy state is the same for every run
    warm_libraries()
    CLOCK.install()
    FORKS.install()
    global IMPORT_DIFF
    before = world.ambient()
    try:
        with _fake_git():
            world.load()
    except Exception:
        raise RuntimeError("the package cannot be imported:\n" + traceback.format_exc())
    IMPORT_DIFF = world.diff_ambient(before, world.ambient())
    import pyotf

    if os.path.dirname(os.path.realpath(pyotf.__file__)) != os.path.realpath(PKG):
        raise RuntimeError(f"imported {pyotf.__file__} instead of {PKG}")
    kernel.install(PKG)
    ENTROPY.install()
    spare_partition()
    logging.getLogger().handlers[:] = []
    logging.lastResort = None
    gc.collect()
    gc.freeze()


def spare_partition():
    """numpy 1.26's partition crashes the process when it gets no memory: it always gets some."""
    real = np.partition

    def partition(*a, **k):
        was = ALLOC.pause()
        try:
            return real(*a, **k)
        finally:
            ALLOC.restore(was)

    partition.__module__ = "numpy"
    for mod in (np, np.core.fromnumeric, np.lib.function_base):
        if getattr(mod, "partition", None) is real:
            mod.partition = partition


def warm_libraries():
    import matplotlib as mpl

    mpl.use("Agg")
    from matplotlib import pyplot as plt
    import matplotlib.font_manager  # noqa: F401
    from mpl_toolkits.axes_grid1 import ImageGrid
    from scipy.ndimage import rotate  # noqa: F401
    from scipy.signal import fftconvolve
    from scipy.special import eval_jacobi
    import scipy.fftpack
    from skimage.restoration import unwrap_phase

    a = np.random.RandomState(0).uniform(0, 1, (3, 8, 8))
    np.fft.fftn(a), np.fft.ifftn(a), np.fft.fftshift(a)
    fftconvolve(a, a[:, :3, :3], "same", axes=(1, 2))
    np.linalg.lstsq(a[0], a[1][0], rcond=None)
    eval_jacobi(2, 1, 0, a)
    unwrap_phase(a[0], rng=0)
    scipy.fftpack.next_fast_len(7)
    fig = plt.figure(None, (4, 4))
    g = ImageGrid(fig, 111, nrows_ncols=(2, 2), axes_pad=0.3)
    g[0].imshow(a[0], cmap="inferno", norm=mpl.colors.PowerNorm(0.5))
    g[1].imshow(a[0], norm=mpl.colors.LogNorm(vmin=1e-3))
    plt.close(fig)
    fig, axs = plt.subplots(2, 1)
    m = axs[0].matshow(np.ma.array(a[0], mask=a[0] > 0.5), cmap="coolwarm")
    fig.colorbar(m, ax=axs[0])
    axs[1].semilogy(a[0, 0])
    fig.tight_layout()
    plt.close(fig)


# ----------------------------------------------------------------------- execution
class Trace(dict):
    pass


class Executor:
    """Runs one plan in this process (once)."""

    def __init__(self, plan, on_op=None, on_step=None, before_op=None):
        self.plan = plan
        self.on_op = on_op
        self.before_op = before_op
        self.figures = {}
        self.on_step = on_step
        self.w = World()
        self.w.track = plan.get("track", False)
        self.faults = plan.get("faults", {})
        self.fired = {}
        self.counts = {}
        self.outcomes = {}
        self.events = []
        self.kernels = []
        self.errors = []

    def _thread(self):
        ALLOC.install()

    def _kernel(self, sched):
        k = kernel.Kernel(sched, self.plan.get("step_limit", 2_000_000),
                          fine=self.plan.get("fine", False), on_step=self.on_step,
                          on_thread=self._thread)
        k.pause_alloc, k.restore_alloc = ALLOC.pause, ALLOC.restore
        k.count_alloc = ALLOC.lib.sim_counted
        self.kernels.append(k)
        return k

    def run(self):
        ALLOC.install()
        ALLOC.dirt(self.plan.get("dirt"))
        ENTROPY.set(self.plan.get("entropy", 0))
        FORKS.other = self.plan.get("pid", 0)
        CLOCK.set(self.plan.get("clock"))
        for k, v in self.plan.get("inputs", {}).items():
            self.w.inputs[k] = world.mkval(v, self.w)
        if self.plan.get("setup"):
            k = self._kernel({"kind": "seq"})
            k.run([lambda t: self._body(t, "s", self.plan["setup"])])
        tasks = self.plan.get("tasks", [])
        self.ambient = None
        if self.plan.get("ambient"):
            for ops in tasks:
                if ops and ops[0]["op"] == "settings":
                    world.apply_settings(ops[0])
            self.ambient = [world.ambient()]
        if tasks and not self.failure():
            k = self._kernel(self.plan.get("sched", {"kind": "seq"}))
            if self.plan.get("record"):
                k.record = {}
            k.run([lambda t, i=i, ops=ops: self._body(t, str(i), ops)
                   for i, ops in enumerate(tasks)])
        if self.plan.get("after") and not self.failure():
            k = self._kernel({"kind": "seq"})
            k.run([lambda t: self._body(t, "e", self.plan["after"])])
        if self.ambient:
            self.ambient.append(world.ambient())
        return self.trace()

    def failure(self):
        for k in self.kernels:
            if k.failure:
                return k.failure
        return None

    def _body(self, task, name, ops):
        k = kernel._tls.kernel
        for i, op in enumerate(ops):
            key = f"{name}:{i}"
            k.boundary(task)
            out = self.do(task, key, op)
            if not self.plan.get("discard"):
                self.outcomes[key] = out
            del out
        k.boundary(task)

    def forked(self, task, key, ops):
        """The operations in a process forked here; the other threads do not exist there."""
        r, wr = os.pipe()
        FORKS.call("before")
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                FORKS.inside = True
                FORKS.call("after_in_child")
                k = kernel._tls.kernel
                k.tasks, k.multi = {task.tid: task}, False
                outs = []
                try:
                    for i, op in enumerate(ops):
                        k.boundary(task)
                        outs.append(self.do(task, f"{key}.{i}", op))
                    res = outs, None
                except kernel.SimAbort:
                    res = outs, k.failure
                except BaseException:
                    res = outs, ("harness", traceback.format_exc())
                kernel._tls.task = None
                _send(wr, res)
            finally:
                os._exit(0)
        os.close(wr)
        FORKS.call("after_in_parent")
        kernel._tls.task = None  # real time from here
        try:
            res = _answer(r, pid)
        except (EOFError, TimeoutError) as e:
            why = {"EOFError": "died", "TimeoutError": "never finishes"}[type(e).__name__]
            res = [], ("no answer", f"the forked process {why}")
            try:
                os.kill(pid, signal.SIGKILL)
            except OSError:
                pass
        finally:
            kernel._tls.task = task
        os.close(r)
        os.waitpid(pid, 0)
        if res[1] and res[1][0] == "harness":
            raise RuntimeError(res[1][1])
        return {"outcomes": res[0], "failure": res[1]}

    def do(self, task, key, op):
        if op["op"] == "fork":
            return self.forked(task, key, op["ops"])
        spec = self.faults.get(key)
        f = None
        raw = failed = rop = None
        try:
            rop = prep_op(op, self.w)
        except Missing as e:
            return Exc(e)
        if self.before_op is not None:
            self.before_op(key, rop, self)
        if spec:
            f = kernel.Fault(spec)
            f.on_kill = kernel.real_kill
            task.fault = f
            if spec["kind"] == "alloc":
                ALLOC.arm(spec["n"], spec.get("min", 1), spec.get("sticky", False))
            elif spec["kind"] == "count":
                ALLOC.arm(0, spec.get("min", 1))
        try:
            raw = run_op(rop, self.w)
        except kernel.SimAbort:
            raise
        except (Exception, KeyboardInterrupt) as e:
            failed = Exc(e)
        finally:
            if spec:
                task.fault = None
                if spec["kind"] in ("alloc", "count"):
                    n, cnt = ALLOC.disarm()
                    if n:
                        f.fired = "alloc"
                if f.fired:
                    self.fired[key] = f.fired
                if spec["kind"] == "count":
                    f.mark(("end", 0), cnt)
                    self.counts[key] = (cnt, f.calls, list(f.alloc_sites.values()),
                                        list(f.call_sites.values()),
                                        [s[-1] for s in f.call_sites])
        if failed is None:
            raw = world.finish_op(rop, raw, self.w)
        if "_before" in rop:
            self.figures[key] = world.clean_plot(rop)
        out = failed if failed is not None else canon(raw, self.w, f"{key} {op['op']}")
        if self.on_op is not None:
            self.on_op(key, rop, out, raw, self)
        del raw
        return out

    def trace(self):
        t = Trace(outcomes=self.outcomes, fired=self.fired, counts=self.counts,
                  steps=sum(k.gsteps for k in self.kernels),
                  switches=[s for k in self.kernels for s in k.switches],
                  order=[k.policy.order for k in self.kernels if k.multi][-1:]
                  or [k.policy.order for k in self.kernels[-1:]],
                  figures=self.figures, failure=self.failure(), clock=CLOCK.reads)
        if self.ambient:
            t["ambient"] = self.ambient
        if self.plan.get("record"):
            t["sites"] = next((k.record for k in self.kernels if k.record), {})
        return t


def execute(plan, on_op=None, on_step=None, before_op=None):
    return Executor(plan, on_op, on_step, before_op).run()


# ----------------------------------------------------------------------- processes
def _send(fd, obj):
    b = pickle.dumps(obj, 5)
    b = struct.pack("<Q", len(b)) + b
    mv = memoryview(b)
    while mv:
        n = os.write(fd, mv)
        mv = mv[n:]


def _read(fd, n, deadline):
    buf = bytearray()
    while len(buf) < n:
        left = deadline - time.monotonic()
        if left <= 0:
            raise TimeoutError
        r, _, _ = select.select([fd], [], [], left)
        if not r:
            raise TimeoutError
        c = os.read(fd, n - len(buf))
        if not c:
            raise EOFError
        buf += c
    return bytes(buf)


def _recv(fd, deadline):
    n = struct.unpack("<Q", _read(fd, 8, deadline))[0]
    return pickle.loads(_read(fd, n, deadline))


def _answer(fd, pid):
    """What the process says; TimeoutError if it sleeps for ever (8 s without using any time)."""
    end, asleep, used = time.monotonic() + 60, 0, None
    while not select.select([fd], [], [], 0.5)[0]:
        with open(f"/proc/{pid}/stat") as f:
            st = f.read().rpartition(")")[2].split()
        asleep = asleep + 1 if st[0] == "S" and st[11:13] == used else 0
        used = st[11:13]
        if asleep >= 16 or time.monotonic() > end:
            raise TimeoutError
    return _recv(fd, time.monotonic() + 10)


class ChildDied(Exception):
    pass


def _quiet_child():
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    dn = os.open(os.devnull, os.O_RDWR)
    os.dup2(dn, 0)
    os.dup2(dn, 1)
    if not os.environ.get("DST_DEBUG"):
        os.dup2(dn, 2)


def fork_call(fn, timeout=90):
    """Run fn() in a forked child and return its value."""
    r, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            _quiet_child()
            try:
                res = ("ok", fn())
            except BaseException:
                res = ("err", traceback.format_exc())
            _send(wr, res)
            code = 0
        finally:
            os._exit(code)
    os.close(wr)
    try:
        kind, val = _recv(r, time.monotonic() + timeout)
    except (EOFError, TimeoutError) as e:
        try:
            os.kill(pid, signal.SIGKILL)
        except OSError:
            pass
        kind, val = type(e).__name__, None
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if kind == "ok":
        return val
    if kind == "err":
        raise ChildDied("harness error in child:\n" + val)
    raise ChildDied(f"child ended without an answer ({kind}, status {st})")


class Env:
    """What a check sees inside its run process."""

    def __init__(self, rfd, wfd):
        self.rfd, self.wfd = rfd, wfd
        self.stats = {}
        self.local = {}

    def pristine(self, plan):
        """Execute the plan in a process in which no package code has ever run."""
        _send(self.wfd, ("pristine", plan))
        kind, val = _recv(self.rfd, time.monotonic() + 200)
        if kind != "ok":
            raise ChildDied(val)
        return val

    def count(self, name, n=1):
        self.stats[name] = self.stats.get(name, 0) + n


class Server:
    """Runs checks' run functions in forked children and serves their pristine requests."""

    def __init__(self):
        self.cache = {}
        self.cache_bytes = 0
        self.pristine_runs = 0
        self.pristine_hits = 0
        self.others = {}

    def pristine(self, plan):
        key = json.dumps(plan, sort_keys=True, default=_unjson)
        if key in self.cache:
            self.pristine_hits += 1
            return self.cache[key]
        self.pristine_runs += 1
        if plan.get("hashseed"):
            t = self.elsewhere(plan)
        else:
            t = fork_call(lambda: execute(plan))
        if t["failure"] and t["failure"][0] == "harness":
            raise ChildDied(t["failure"][1])
        size = len(pickle.dumps(t))
        if size < 4_000_000:
            if self.cache_bytes > 200_000_000:
                self.cache.clear()
                self.cache_bytes = 0
            self.cache[key] = t
            self.cache_bytes += size
        return t

    def elsewhere(self, plan):
        """Execute in a process whose strings hash differently."""
        n = plan["hashseed"]
        if n not in self.others:
            r1, w1 = os.pipe()
            r2, w2 = os.pipe()
            code = f"from dst import engine; engine.serve({r1}, {w2})"
            p = subprocess.Popen(
                [sys.executable, "-c", code], pass_fds=(r1, w2), stdin=subprocess.DEVNULL,
                stdout=subprocess.DEVNULL, stderr=None if os.environ.get("DST_DEBUG")
                else subprocess.DEVNULL, cwd=os.path.dirname(os.path.dirname(__file__)),
                env=dict(os.environ, PYTHONHASHSEED=str(n)))
            os.close(r1)
            os.close(w2)
            self.others[n] = p, w1, r2
        _, wr, rd = self.others[n]
        _send(wr, plan)
        kind, val = _recv(rd, time.monotonic() + 180)
        if kind != "ok":
            raise ChildDied(val)
        return val

    def run(self, fn, timeout=150):
        """fn(env) in a child; returns (status, value)."""
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(r1)
                os.close(w2)
                _quiet_child()
                env = Env(r2, w1)
                try:
                    res = ("ok", fn(env))
                except BaseException:
                    res = ("err", traceback.format_exc())
                _send(w1, ("done", res))
                code = 0
            finally:
                os._exit(code)
        os.close(w1)
        os.close(r2)
        deadline = time.monotonic() + timeout
        out = None
        try:
            while True:
                m = _recv(r1, deadline)
                if m[0] == "pristine":
                    try:
                        _send(w2, ("ok", self.pristine(m[1])))
                    except ChildDied as e:
                        _send(w2, ("err", str(e)))
                elif m[0] == "done":
                    out = m[1]
                    break
        except TimeoutError:
            out = ("hang", None)
        except (EOFError, BrokenPipeError):
            out = ("died", None)
        if out[0] in ("hang", "died"):
            try:
                os.kill(pid, signal.SIGKILL)
            except OSError:
                pass
        os.close(r1)
        os.close(w2)
        _, st = os.waitpid(pid, 0)
        if out[0] == "died":
            out = ("died", f"status {st}")
        return out


def serve(rd, wr):
    """The other end of Server.elsewhere."""
    boot()
    while True:
        try:
            plan = _recv(rd, time.monotonic() + 10 ** 6)
        except EOFError:
            return
        try:
            _send(wr, ("ok", fork_call(lambda: execute(plan))))
        except ChildDied as e:
            _send(wr, ("err", str(e)))


def _unjson(o):
    if isinstance(o, bytes):
        return o.hex()
    raise TypeError(type(o))
