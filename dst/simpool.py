"""A process pool whose every interleaving is decided by the scheduler.

Workers are real forked processes running the real worker loop of
multiprocessing.pool, but only one process of the world runs at a time: a worker
runs only while the parent waits for it, until its slice of operations is used
up, and then parks on a pipe.  The front ends (map, imap, apply, ...) are the
real ones of multiprocessing.pool; only queues, handler threads and the waiting
primitives are replaced.
"""
import collections
import concurrent.futures
import concurrent.futures.process
import concurrent.futures.thread
import functools
import itertools
import multiprocessing
import multiprocessing.connection as mconn
import multiprocessing.context
import multiprocessing.popen_fork
import multiprocessing.queues
import multiprocessing.pool as mpool
import multiprocessing.synchronize as msync
import os
import select
import signal
import struct
import sys
import threading
import time
import weakref
from multiprocessing.reduction import ForkingPickler

from . import simlib, simthreads
from .simlib import K, W, lib

_loads = ForkingPickler.loads
REAL_POOL = mpool.Pool
# points (system calls, and lines where they are simulated) a worker passes before it is stopped (-1: to the end of the task);
# one table is drawn per run
QUANTA = [
    [-1, 0, 1, 2, 3, 5, 9, 17, 40, 100],
    [-1] + [0, 1, 2, 3, 5, 9, 17, 40] * 30,
    [-1] + [0, 0, 1, 1, 2, 3] * 40,
    [-1] + [5, 20, 50, 100, 200, 400] * 20,
    [-1],
]


def _read_exact(fd, n):
    b = b""
    while len(b) < n:
        d = os.read(fd, n - len(b))
        if not d:
            return None
        b += d
    return b


def _write_all(fd, b):
    while b:
        b = b[os.write(fd, b):]


class _Hang(BaseException):
    pass


class _InQueue:
    """worker side: ask for a task"""

    def __init__(self, rfd, wfd):
        self.r, self.w = rfd, wfd

    def get(self):
        _write_all(self.w, b"G\0\0\0\0")
        h = _read_exact(self.r, 9)
        if h is None:
            raise EOFError
        lib.sim_budget(struct.unpack("<q", h[1:])[0])
        if h[:1] == b"X":
            return None
        n = struct.unpack("<I", _read_exact(self.r, 4))[0]
        data = _read_exact(self.r, n)
        if lib.sim_point(K["TASK"]):
            raise KeyboardInterrupt
        return _loads(data)


class _OutQueue:
    def __init__(self, wfd):
        self.w = wfd

    def put(self, obj):
        data = bytes(ForkingPickler.dumps(obj))
        lib.sim_point(K["TASK"])
        _write_all(self.w, b"R" + struct.pack("<I", len(data)) + data)


class Worker:
    def __init__(self, core, idx):
        self.core, self.idx = core, idx
        self.state = "parked"
        pr, cw = os.pipe()
        cr, pw = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        W.spawned += 1
        self.no = W.spawned
        pid = os.fork()
        if pid == 0:
            os.close(pr)
            os.close(pw)
            for w in list(W.live.values()):
                os.close(w.r)
                os.close(w.w)
            W.live = {}
            CORES.clear()
            PROCS.clear()
            self._child(cr, cw)
        os.close(cr)
        os.close(cw)
        self.r, self.w, self.pid = pr, pw, pid
        W.live[pid] = self
        self.alive = True

    def _enter(self, cr, cw):
        W.worker = self.no
        W.threads = None
        lib.sim_process(self.no, cr, cw)
        h = _read_exact(cr, 9)
        lib.sim_budget(struct.unpack("<q", h[1:])[0])

    def _child(self, cr, cw):
        code = 1
        try:
            self._enter(cr, cw)
            proc = multiprocessing.process.current_process()
            proc.name = "PoolWorker-%d" % self.no
            proc._config = dict(proc._config, daemon=True)
            c = self.core
            mpool.worker(_InQueue(cr, cw), _OutQueue(cw), c.initializer, c.initargs, c.maxtasks, True)
            code = 0
        except SystemExit:
            pass
        except BaseException:
            import traceback
            traceback.print_exc()
        finally:
            try:
                sys.stdout.flush()
            except Exception:
                pass
            os._exit(code)

    # parent side
    def send(self, kind, budget, payload=None):
        b = kind + struct.pack("<q", budget)
        if payload is not None:
            b += struct.pack("<I", len(payload)) + payload
        self.state = "running"
        try:
            _write_all(self.w, b)
        except BrokenPipeError:
            pass
        self.pump()

    def pump(self):
        while True:
            h = _read_exact(self.r, 5)
            if h is None:
                self.dead()
                return
            t = h[:1]
            if t == b"Y":
                self.state = "parked"
                return
            if t == b"G":
                self.state = "idle"
                return
            if t == b"R":
                data = _read_exact(self.r, struct.unpack("<I", h[1:])[0])
                if data is None:
                    self.dead()
                    return
                self.core.on_result(data)

    def dead(self):
        self.state = "dead"
        self.reap()

    def reap(self):
        if not self.alive:
            return
        self.alive = False
        os.close(self.r)
        os.close(self.w)
        try:
            st = os.waitpid(self.pid, 0)[1]
            self.code = -os.WTERMSIG(st) if os.WIFSIGNALED(st) else os.WEXITSTATUS(st)
        except ChildProcessError:
            pass
        W.live.pop(self.pid, None)

    def kill(self):
        if self.alive:
            os.kill(self.pid, signal.SIGKILL)
            self.state = "dead"
            self.reap()

    # Process-like surface, for code that looks at pool._pool
    code = -9
    exitcode = property(lambda s: None if s.alive else s.code)
    name = property(lambda s: "PoolWorker-%d" % s.no)
    daemon = True
    sentinel = property(lambda s: s.r)

    def is_alive(self):
        return self.alive

    def terminate(self):
        self.kill()

    def join(self, timeout=None):
        pass


class _TaskQueue:
    def __init__(self, core):
        self.core = core

    def put(self, item):
        self.core.submitted.append([iter(item[0]), item[1], -1])
        self.core.background()


class Core:
    """What the handler threads hold on to; outlives the Pool object if a job is incomplete."""

    def __init__(self, n, initializer, initargs, maxtasks):
        self.initializer, self.initargs, self.maxtasks = initializer, initargs, maxtasks
        self.cache = {}
        self.submitted = []
        self.queue = []
        self.n = n
        self.closing = False
        self.terminated = False
        self.deaf = False
        self.mute = False
        self.respawns = 0
        self.source = None       # of an executor: hands over the next task, if there is one
        self.broken = None       # of an executor: called when a worker dies
        self.no = len(CORES)
        CORES.append(self)
        self.pool = [Worker(self, i) for i in range(n)]

    def on_result(self, data):
        if self.deaf:
            return
        try:
            job, i, obj = _loads(data)
        except (OSError, EOFError):
            W.note("handler-exit")
            self.deaf = True
            return
        except Exception as e:
            # kills the thread that receives the results, and nothing else
            W.note("handler-died", type(e).__name__)
            self.deaf = True
            if self.broken:
                self.broken()
            return
        W.note("done", self.no, i, "ok" if obj[0] else "raised")
        if self.terminated:
            return
        try:
            self.cache[job]._set(i, obj)
        except KeyError:
            pass

    def background(self):
        """some progress may happen while the parent goes on"""
        if W.sched and W.ch.s.chance(1, 3):
            for _ in range(W.ch.s.int(1, 4)):
                if not step():
                    break

    def events(self):
        ev = []
        if self.terminated:
            return ev
        for i, w in enumerate(self.pool):
            if w.state == "parked":
                ev.append(("resume", self, w))
        if self.queue:
            for w in self.pool:
                if w.state == "idle":
                    ev.append(("assign", self, w))
        for w in self.pool:
            if w.state == "dead":
                ev.append(("respawn", self, w))
        if self.submitted and not self.mute and len(self.queue) < 64:
            ev.append(("feed", self, None))
        if self.source is not None and len(self.queue) + len(self.submitted) <= self.n and self.source(False):
            ev.append(("source", self, None))
        return ev

    def do(self, what, w):
        b = -1
        if what in ("resume", "assign") and W.sched:
            if W.quanta is None:
                W.quanta = W.ch.s.pick(QUANTA)
            b = W.ch.s.pick(W.quanta)
        if what == "resume":
            W.note("resume", self.no, w.idx, b)
            w.send(b"B", b)
        elif what == "assign":
            job_i, data = self.queue.pop(0)
            W.note("assign", self.no, w.idx, job_i, b)
            w.send(b"T", b, data)
        elif what == "source":
            self.source(True)
        elif what == "respawn" and self.broken:
            W.note("broken", self.no, w.idx)
            self.broken()
        elif what == "respawn":
            self.respawns += w.exitcode != 0
            if self.respawns > 12:
                raise _Hang("workers keep dying")
            W.note("respawn", self.no, w.idx)
            i = self.pool.index(w)
            self.pool[i] = Worker(self, w.idx)
        elif what == "feed":
            seq = self.submitted[0]
            W.feeding = True
            try:
                task = next(seq[0])
            except StopIteration:
                self.submitted.pop(0)
                if seq[1]:
                    seq[1](seq[2] + 1)
                return
            except (SystemExit, KeyboardInterrupt, GeneratorExit) as e:
                # not caught by the pool: kills the thread that feeds the tasks
                if W.interrupted and isinstance(e, KeyboardInterrupt):
                    raise
                W.note("feeder-died", type(e).__name__)
                self.submitted.clear()
                self.mute = True
                return
            finally:
                W.feeding = False
            job, idx = task[:2]
            seq[2] = idx
            try:
                data = bytes(ForkingPickler.dumps(task))
            except Exception as e:
                try:
                    self.cache[job]._set(idx, (False, e))
                except KeyError:
                    pass
                return
            self.queue.append((idx, data))

    def shutdown(self):
        """close() + join(): every queued task is done first"""
        while self.cache or self.queue or self.submitted or any(w.state == "parked" for w in self.pool):
            if self.terminated:
                return
            if not step(self):
                hang("join of the pool")
        for w in self.pool:
            if w.state == "idle":
                w.send(b"X", -1)
            while w.alive and w.state == "parked":
                w.send(b"B", -1)
            w.kill()

    def terminate(self):
        if self.terminated:
            return
        self.terminated = True
        for w in self.pool:
            w.kill()
        self.queue.clear()
        self.submitted.clear()


CORES = []
PROCS = []      # processes started one by one


def hang(where):
    if W.worker:
        os._exit(9)
    W.note("hang", where)
    import traceback
    stack = "".join(traceback.format_stack(limit=14))
    W.report("hang", None, ("hang", where, stack, True))


def step(only=None):
    """one scheduling decision; False if nothing can ever happen"""
    W.steps += 1
    if W.steps > W.max_steps:
        hang("no progress after %d scheduling steps" % W.max_steps)
    exc = W.interrupts.pop(W.steps, None)
    if exc and W.threads is not None and W.threads.cur:
        W.flag[0] = 1            # signals reach the main thread
        exc = None
    if W.flag[0] and not W.worker and (W.threads is None or not W.threads.cur):
        W.flag[0] = 0
        exc = "KeyboardInterrupt"
    if exc and not W.worker:
        W.interrupted.append(exc)
        W.note("interrupt", exc)
        simlib.ctrl_c()
    ev = []
    for c in ([only] if only is not None else CORES + PROCS):
        ev.extend(c.events())
    if not ev:
        return False
    i = W.ch.s.draw(len(ev)) if (W.sched and len(ev) > 1) else 0
    what, core, w = ev[i]
    try:
        core.do(what, w)
    except _Hang as e:
        hang(str(e))
    return True


class SimEvent:
    def __init__(self):
        self.flag = False
        self.asked = 0

    def is_set(self):
        if not self.flag:
            self.asked += 1      # somebody may ask until it is
            if self.asked > 20000:
                hang("asking for a result that never arrives")
            T = simthreads.mine()
            if T is not None:
                T.point()
            if CORES and W.sched:
                CORES[0].background()
            elif CORES:
                step()
        return self.flag

    isSet = is_set

    def set(self):
        self.flag = True

    def clear(self):
        self.flag = False

    def wait(self, timeout=None):
        simthreads.wait(lambda: self.flag, timeout)
        return self.flag


def _limit(timeout):
    """steps a timed wait lasts: the workers may be so slow that hardly anything is done meanwhile"""
    if timeout is None:
        return None
    if W.sched and 0 < timeout <= 5:
        if not W.stall and W.expired < 6 and W.ch.s.chance(1, 12):
            W.stall = W.ch.s.pick((1, 1, 2, 4, 12))      # so many waits in a row
        if W.stall:
            W.stall -= 1
            W.expired += 1
            W.note("stalled", timeout)
            return W.ch.s.pick((0, 1, 2, 5)) if W.stall < 2 else 0
    return timeout * 1e3


def _advance(seconds):
    c = W.ctl
    c.set("now_ns", c.get("now_ns", "<q") + int(seconds * 1e9), "<q")


class SimCondition:
    def __init__(self, lock=None):
        self.gen = 0

    def __enter__(self):
        return True

    def __exit__(self, *a):
        return False

    def acquire(self, *a):
        return True

    def release(self):
        pass

    def notify(self, n=1):
        self.gen += 1

    notify_all = notify

    def wait(self, timeout=None):
        g = self.gen
        return simthreads.wait(lambda: self.gen != g, timeout)

    def wait_for(self, predicate, timeout=None):
        simthreads.wait(predicate, timeout)
        return predicate()


class _Threading:
    """stands for the threading module inside multiprocessing.pool"""
    Event = SimEvent
    Condition = SimCondition
    Lock = threading.Lock

    def __getattr__(self, k):
        return getattr(threading, k)


class SimPool(REAL_POOL):
    def __init__(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None, context=None):
        self._state = "INIT"
        self._ctx = context or multiprocessing.get_context()
        if processes is None:
            processes = 4
        if processes < 1:
            raise ValueError("Number of processes must be at least 1")
        if maxtasksperchild is not None:
            if not isinstance(maxtasksperchild, int) or maxtasksperchild <= 0:
                raise ValueError("maxtasksperchild must be a positive int or None")
        if initializer is not None and not callable(initializer):
            raise TypeError("initializer must be a callable")
        if W.worker:
            raise AssertionError("daemonic processes are not allowed to have children")
        self._processes = processes
        self._initializer, self._initargs = initializer, initargs
        self._maxtasksperchild = maxtasksperchild
        self._change_notifier = None
        W.note("pool", processes)
        self._core = Core(processes, initializer, initargs, maxtasksperchild)
        self._pool = self._core.pool
        self._cache = self._core.cache
        self._taskqueue = _TaskQueue(self._core)
        self._terminate = weakref.finalize(self, self._core.terminate)
        self._terminate.atexit = False
        self._state = mpool.RUN
        self._core.background()

    def __del__(self):
        pass

    def close(self):
        if self._state == mpool.RUN:
            self._state = mpool.CLOSE

    def terminate(self):
        self._state = mpool.TERMINATE
        W.note("terminate")
        self._core.terminate()

    def join(self):
        if self._state == mpool.RUN:
            raise ValueError("Pool is still running")
        elif self._state not in (mpool.CLOSE, mpool.TERMINATE):
            raise ValueError("In unknown state")
        if self._state == mpool.CLOSE:
            self._core.shutdown()
        W.note("join")

    def __reduce__(self):
        raise NotImplementedError("pool objects cannot be passed between processes or pickled")


def _ctx_pool(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None):
    return SimPool(processes, initializer, initargs, maxtasksperchild, context=self.get_context())


def _coop(sem):
    """A multiprocessing lock that gives way to the scheduler instead of blocking."""
    real = sem.acquire

    def acquire(block=True, timeout=None):
        n = 0
        while not real(False):
            if not block or (timeout is not None and n > 1000):
                return False
            n += 1
            if n > 5000:
                if W.worker:
                    os._exit(9)
                hang("deadlock on a lock")
            T = simthreads.mine()
            r = T.runnable() if T is not None else ()
            if r and n % 2:
                T.away(lambda: False, 1, r)
            elif W.worker:
                lib.sim_budget(0)
                lib.sim_point(K["TASK"])
            elif not step():
                if not r:
                    hang("deadlock on a lock")
                T.away(lambda: False, 1, r)
        return True
    return acquire


class Proc(Worker):
    """multiprocessing.Process"""

    def __init__(self, process_obj):
        self.process_obj = process_obj
        self.code = None
        PROCS.append(self)
        W.note("process")
        super().__init__(self, 0)

    def _child(self, cr, cw):
        code = 1
        try:
            self._enter(cr, cw)
            threading._shutdown = lambda: W.threads and simthreads.wait(lambda: all(W.threads.done[1:]), None, "a thread that never ends")
            code = self.process_obj._bootstrap(parent_sentinel=None)
        finally:
            os._exit(code)

    def on_result(self, data):
        pass

    def events(self):
        return [("resume", self, self)] if self.state == "parked" else []

    def do(self, what, w):
        b = -1
        if W.sched:
            if W.quanta is None:
                W.quanta = W.ch.s.pick(QUANTA)
            b = W.ch.s.pick(W.quanta)
        W.note("resume process", self.no, b)
        self.send(b"B", b)

    # the interface of popen_fork.Popen
    returncode = property(lambda s: None if s.alive else s.code)

    def poll(self, flag=0):
        if self.alive and W.sched and W.ch.s.chance(1, 2):
            step()
        return self.returncode

    def wait(self, timeout=None):
        simthreads.wait(lambda: not self.alive, timeout, "a process that never ends")
        return self.returncode

    def kill(self):
        super().kill()
        if self in PROCS:
            PROCS.remove(self)

    terminate = kill

    def close(self):
        pass


def _readable(fds):
    r = []
    for f in fds:
        try:
            if select.select([f], [], [], 0)[0]:
                r.append(f)
        except ValueError:
            r.append(f)
    return r


def _await(pred, timeout=None):
    if not W.worker:
        return simthreads.wait(pred, timeout, "a message that never arrives")
    n = 0
    while not pred():
        n += 1
        if timeout is not None and n > 50:
            _advance(timeout)
            return pred()
        T = simthreads.mine()
        r = T.runnable() if T is not None else ()
        if r and n % 2:
            T.away(pred, timeout, r)
        else:
            lib.sim_budget(0)
            lib.sim_point(K["TASK"])
    return True


def _patch_connections():
    orig = mconn.Connection._recv

    def recv(self, size, *a):
        if W.ctl is not None and not _readable([self._handle]):
            _await(lambda: _readable([self._handle]))
        return orig(self, size, *a)
    mconn.Connection._recv = recv
    orig_wait = mconn.wait

    def wait(object_list, timeout=None):
        object_list = list(object_list)
        if W.ctl is None:
            return orig_wait(object_list, timeout)

        def ready():
            return [o for o in object_list if (_gone(o) if _proc(o) else _readable([o]))]
        _await(ready, timeout)
        return ready()

    def _proc(o):
        return next((p for p in list(W.live.values()) if p.r == o), None) if isinstance(o, int) else None

    def _gone(o):
        return not _proc(o).alive
    mconn.wait = mpool.wait = wait


def _call(fn, args, kwargs):
    try:
        r = fn(*args, **kwargs)
        ForkingPickler.dumps(r)
        return True, r
    except BaseException as e:
        return False, mpool.ExceptionWithTraceback(e, e.__traceback__)


class SimExecutor(concurrent.futures.Executor):
    """concurrent.futures.ProcessPoolExecutor over the simulated pool"""

    def __init__(self, max_workers=None, mp_context=None, initializer=None, initargs=(), *, max_tasks_per_child=None):
        n = 4 if max_workers is None else max_workers
        if n <= 0:
            raise ValueError("max_workers must be greater than 0")
        if initializer is not None and not callable(initializer):
            raise TypeError("initializer must be a callable")
        self._max_workers = n
        self._sim = SimPool(n, initializer, initargs, max_tasks_per_child)
        self._pending = collections.deque()
        self._running = set()
        self._closed = False
        self._error = None
        self._sim._core.source, self._sim._core.broken = self._source, self._broken

    def _source(self, take):
        if take and self._pending:
            f, fn, args, kwargs = self._pending.popleft()
            if f.set_running_or_notify_cancel():
                self._running.add(f)
                self._sim.apply_async(_call, (fn, args, kwargs), callback=lambda r: self._done(f, r), error_callback=lambda e: self._done(f, (False, e)))
        if self._closed and not self._pending and not self._running:
            self._sim.close()        # done by the manager thread, whether anybody waits or not
        return bool(self._pending)

    def _done(self, f, r):
        if f in self._running:
            self._running.discard(f)
            if r[0]:
                f.set_result(r[1])
            else:
                f.set_exception(r[1])

    def _broken(self):
        self._error = concurrent.futures.process.BrokenProcessPool(
            "A process in the process pool was terminated abruptly while the future was running or pending.")
        self._sim._core.terminate()
        for f in list(self._running) + [p[0] for p in self._pending]:
            f.set_exception(self._error)
        self._running.clear()
        self._pending.clear()

    def submit(self, fn, /, *args, **kwargs):
        if self._error:
            raise concurrent.futures.process.BrokenProcessPool("A child process terminated abruptly, the process pool is not usable anymore")
        if self._closed:
            raise RuntimeError("cannot schedule new futures after shutdown")
        f = concurrent.futures.Future()
        self._pending.append((f, fn, args, kwargs))
        self._sim._core.background()
        return f

    def map(self, fn, *iterables, timeout=None, chunksize=1):
        if chunksize < 1:
            raise ValueError("chunksize must be >= 1.")
        p = concurrent.futures.process
        it = zip(*iterables)
        chunks = iter(lambda: tuple(itertools.islice(it, chunksize)), ())
        res = super().map(functools.partial(p._process_chunk, fn), chunks, timeout=timeout)
        return p._chain_from_iterable_of_lists(res)

    def shutdown(self, wait=True, *, cancel_futures=False):
        self._closed = True
        if cancel_futures:
            while self._pending:
                self._pending.popleft()[0].cancel()
        if wait:
            simthreads.wait(lambda: not self._running and not self._pending, None, "the shutdown of an executor")
            self._sim.close()
            self._sim.join()


def install():
    """Before the package is imported: everything that makes a Pool makes a SimPool."""
    mpool.threading = _Threading()
    mpool.Pool = SimPool
    mpool.ThreadPool.__init__ = lambda self, processes=None, initializer=None, initargs=(): REAL_POOL.__init__(self, processes, initializer, initargs)
    multiprocessing.Pool = lambda *a, **k: SimPool(*a, **k)
    multiprocessing.context.BaseContext.Pool = _ctx_pool
    concurrent.futures.ProcessPoolExecutor = concurrent.futures.process.ProcessPoolExecutor = SimExecutor
    multiprocessing.popen_fork.Popen = Proc
    _patch_connections()
    multiprocessing.cpu_count = os.cpu_count = lambda: 4
    if hasattr(os, "process_cpu_count"):
        os.process_cpu_count = os.cpu_count
    orig = msync.SemLock._make_methods

    def make(self):
        orig(self)
        self.acquire = _coop(self._semlock)
    msync.SemLock._make_methods = make
    orig_enter = msync.SemLock.__enter__
    msync.SemLock.__enter__ = lambda self: self.acquire()
