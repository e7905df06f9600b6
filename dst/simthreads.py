"""Threads whose every switch is decided by the scheduler.

Real threads, one baton: a thread runs only while it holds the baton and hands it
over at line events of the package, at lock operations and where it waits.  What a
thread waits for is a predicate, so nobody is woken in vain, and a world in which no
predicate can ever become true is reported as hanging.
"""
import concurrent.futures.thread
import logging
import os
import queue
import sys
import tempfile
import threading
import time
import _thread

from .simlib import W, lines_for_threads

_alloc = _thread.allocate_lock
_real_start = _thread.start_new_thread
_real_join = threading.Thread.join
_real_alive = threading.Thread.is_alive
_real_sleep = time.sleep
# lines a thread runs before the next switch is offered (-1: to its end); one table is drawn per run
QUANTA = [
    [-1, 0, 1, 2, 3, 5, 8, 13, 30],
    [-1] + [0, 1, 2, 3, 5, 8, 13, 21] * 40,
    [-1] + [3, 10, 30, 60, 100, 200, 400] * 20,
    [-1] + [0, 0, 1, 1, 2, 3] * 60,
    [-1] + [0, 1, 2, 4, 100, 250, 500, 1000] * 30,
]


def mine():
    """the scheduler of this process, if the calling thread is one of its threads"""
    T = W.threads
    return T if T is not None and _thread.get_ident() in T.ids else None


class SimLock:
    """threading.Lock / RLock"""

    def __init__(self, reentrant=False):
        self._l = _alloc()
        self._re = reentrant
        self._owner = None
        self._n = 0

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        if self._re and self._owner == me:
            self._n += 1
            return True
        T = mine()
        if T is not None:
            T.point()
        ok = self._l.acquire(False)
        if not ok and blocking and (W.ctl is None or (W.threads is not None and T is None)):
            ok = self._l.acquire(True, timeout)
        while not ok and blocking:
            if not wait(lambda: not self._l.locked(), timeout if timeout >= 0 else None, "a lock"):
                break
            ok = self._l.acquire(False)
        if ok:
            self._owner = me
            self._n = 1
        return ok

    def release(self):
        if self._re:
            if self._owner != _thread.get_ident():
                raise RuntimeError("cannot release un-acquired lock")
            self._n -= 1
            if self._n:
                return
        self._owner = None
        self._l.release()
        T = mine()
        if T is not None:
            T.point()

    def locked(self):
        return self._l.locked()

    def _is_owned(self):
        return self._owner == _thread.get_ident()

    def _at_fork_reinit(self):
        self._l = _alloc()
        self._owner = None
        self._n = 0

    def _release_save(self):
        n, self._n, self._owner = self._n, 0, None
        self._l.release()
        return n

    def _acquire_restore(self, n):
        self.acquire()
        self._n = n

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()


def wait(pred, timeout=None, what="a result that can no longer arrive", limit=None):
    """until pred() holds; meanwhile other threads, worker processes and pools go on"""
    from . import simpool
    if limit is None:
        limit = simpool._limit(timeout)
    n = 0
    while not pred():
        if limit is not None and n >= limit:
            simpool._advance(timeout)
            return pred()
        n += 1
        T = mine()
        others = T.runnable() if T is not None else ()
        if others and (W.ch.s.chance(1, 2) if W.sched else True):
            T.away(pred, timeout, others)
        elif simpool.step():
            pass
        elif others:
            T.away(pred, timeout, others)
        elif timeout is not None:
            simpool._advance(timeout)
            return pred()
        else:
            late = T.timed() if T is not None else ()
            if not late:
                simpool.hang("waiting for " + what)
            T.away(pred, timeout, late)
    return True


class Threads:
    """The scheduler of one process; its first thread is the one that makes it."""

    def __init__(self):
        self.ids = {_thread.get_ident(): 0}
        self.gates = [_alloc()]
        self.gates[0].acquire()
        self.done = [False]
        self.waits = [None]
        self.objs = [None]
        self.quanta = W.ch.s.pick(QUANTA) if W.sched else None
        self.budget = -1
        self.cur = 0
        self.switches = 0
        self.idle = 0

    def runnable(self):
        """the others that can go on"""
        return [i for i, d in enumerate(self.done) if not d and i != self.cur and (self.waits[i] is None or self.waits[i][0]())]

    def timed(self):
        return [i for i, d in enumerate(self.done) if not d and i != self.cur and self.waits[i] is not None and self.waits[i][1] is not None]

    def _give(self, i):
        self.cur = i
        self.budget = W.ch.s.pick(self.quanta) if W.sched else -1
        self.switches += 1
        W.note("thread", i, self.budget)
        self.gates[i].release()

    def _one(self, c):
        return c[W.ch.s.draw(len(c))] if W.sched and len(c) > 1 else c[0]

    def away(self, pred, timeout, others):
        me = self.cur
        self.waits[me] = (pred, timeout)
        self._give(self._one(others))
        self.gates[me].acquire()
        self.waits[me] = None

    def point(self):
        me = self.ids.get(_thread.get_ident())
        if me is None or me != self.cur or self.budget < 0:
            return
        if self.budget > 0:
            self.budget -= 1
            return
        r = self.runnable()
        if not r:
            if all(self.done[1:]):
                self.budget = -1
            return
        W.steps += 1
        nxt = self._one(sorted(r + [me]))
        if nxt == me:
            self.budget = W.ch.s.pick(self.quanta) if W.sched else -1
            return
        self._give(nxt)
        self.gates[me].acquire()

    def sleep(self):
        """the others may get far while this one sleeps"""
        self.idle += 1
        if self.idle > 20000:
            from . import simpool
            simpool.hang("no progress: threads only sleep and wait")
        r = self.runnable()
        if r:
            me = self.cur
            self._give(self._one(r))
            self.gates[me].acquire()

    def spawn(self, fn, args=(), kwargs=None):
        i = len(self.gates)
        g = _alloc()
        g.acquire()
        self.gates.append(g)
        self.done.append(False)
        self.waits.append(None)
        self.objs.append(None)

        def body():
            g.acquire()
            try:
                fn(*args, **(kwargs or {}))
            except SystemExit:
                pass
            except BaseException:
                if not W.worker:
                    sys.excepthook(*sys.exc_info())
            self.done[i] = True
            c = self.runnable() or self.timed()
            if not c:
                # everybody waits for workers, or for nothing that can happen; who gets the baton finds out
                c = [j for j, d in enumerate(self.done) if not d]
            self._give(self._one(c))
        W.note("start", i)
        # (the new thread cannot touch anything before it gets the baton)
        self.ids[_real_start(body, ())] = i
        if self.budget < 0 and W.sched:
            self.budget = W.ch.s.pick(self.quanta)
        return i

    def run(self, fns):
        """the calling thread only waits for these; results in order"""
        res = [None] * len(fns)

        def one(k):
            try:
                res[k] = ("ok", fns[k]())
            except BaseException as e:
                res[k] = ("exc", type(e).__name__ + ": " + str(e)[:200])
        mineids = [self.spawn(one, (k,)) for k in range(len(fns))]
        wait(lambda: all(self.done[i] for i in mineids), None, "threads that wait for each other (deadlock)")
        return res


def scheduler():
    if W.threads is None:
        W.threads = Threads()
        lines_for_threads()
    return W.threads


def run(fns):
    """(results, switches)"""
    T = scheduler()
    n = T.switches
    return T.run(fns), T.switches - n


def _start(fn, args=(), kwargs=None):
    if W.ctl is None:
        return _real_start(fn, args, kwargs or {})
    t = scheduler()
    if mine() is None:
        return _real_start(fn, args, kwargs or {})
    i = t.spawn(fn, args, kwargs)
    o = getattr(fn, "__self__", None)
    if isinstance(o, threading.Thread):
        o._sim = (t, i)
    return i


def _is_mine(th):
    s = getattr(th, "_sim", None)
    return s if s is not None and s[0] is W.threads else None


def _join(self, timeout=None):
    s = _is_mine(self)
    if s is None:
        return _real_join(self, timeout)
    T, i = s
    if self is threading.current_thread():
        raise RuntimeError("cannot join current thread")
    wait(lambda: T.done[i], timeout, "a thread that never ends")
    if T.done[i]:
        _real_join(self)


def _alive(self):
    s = _is_mine(self)
    if s is None:
        return _real_alive(self)
    s[0].point()
    return not s[0].done[s[1]]


def _sleep(seconds):
    _real_sleep(seconds)
    T = mine()
    if T is not None:
        T.sleep()
    elif W.ctl is not None and not W.worker:
        from . import simpool
        for _ in range(W.ch.s.int(0, 6) if W.sched else 3):
            if not simpool.step():
                break


def _executor_lock():
    concurrent.futures.thread._global_shutdown_lock = SimLock()


def install():
    """Before the package is imported."""
    threading.Lock = SimLock
    threading.RLock = lambda: SimLock(True)
    threading._allocate_lock = SimLock
    threading._start_new_thread = _start
    threading.Thread.join = _join
    threading.Thread.is_alive = _alive
    time.sleep = _sleep
    queue.SimpleQueue = queue._PySimpleQueue
    logging._lock = SimLock(True)       # locks that were made before
    tempfile._once_lock = SimLock()
    _executor_lock()
    os.register_at_fork(after_in_child=_executor_lock)
