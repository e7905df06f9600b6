"""P03: the progress-tracked map is an exactly-once map whose errors and workers never get away."""
import mmap
import multiprocessing
import os
import struct

from ..simlib import A, K, Violation, W

ID = "P03"
RUNS = {"quick": 10000, "thorough": 60000}
RULE = ("one run = one call of a progress-tracked map (serial, ordered or unordered parallel, iterator) with drawn "
        "task count, form, worker count, chunk size, options and failure plan, under a drawn interleaving; non-trivial: "
        "more than one worker interleaved or a fault fired")
REAL = ["pyEdgeEval.utils.progressbar, timer", "multiprocessing.pool front ends, result objects and worker loop", "pickle", "forked worker processes"]
STUB = ["pool handler threads, queues and waiting primitives (scheduler-driven)", "clock"]
ASSUMES = ["fork start method", "workers are preempted at task boundaries, file operations and package lines"]
PROBES = ("equal_tasks", "case:task_error", "case:interrupt", "case:worker_killed", "case:bad_iterable", "case:unpicklable_result", "case:none", "fault:INTERRUPT", "fault:KILLSELF")

COUNTS = None
OFFSET = 0


class TaskError(Exception):
    pass


class OddError(Exception):
    """cannot be unpickled"""

    def __init__(self, a, b):
        super().__init__("odd")


class OddResult:
    def __reduce__(self):
        return int, ("odd",)


class OddTask:
    def __init__(self, x):
        self.x = x

    def __reduce__(self):
        return int, ("odd",)


def _init(v):
    global OFFSET
    OFFSET = v


def _work(x, **kw):
    i, plan, nap = x
    struct.pack_into("<I", COUNTS, 4 * i, struct.unpack_from("<I", COUNTS, 4 * i)[0] + 1)
    if nap:
        import time
        time.sleep(nap)
    from pyEdgeEval.utils.timer import Timer
    t = Timer()
    t.since_start()
    if plan == "raise":
        raise TaskError("task %d" % i)
    if plan == "exit":
        raise KeyError(i)
    if plan == "sysexit":
        raise SystemExit(3)
    if plan == "stop":
        raise StopIteration
    if plan == "timeout":
        raise multiprocessing.TimeoutError("task")
    if plan == "ctrl-c":
        raise KeyboardInterrupt
    if plan == "genexit":
        raise GeneratorExit
    if plan == "odd_error":
        raise OddError(1, 2)
    if plan == "odd_result":
        return OddResult()
    if plan == "eof":
        raise EOFError("task")
    if plan == "assertion":
        assert i < 0
    if plan == "lambda":
        return lambda: i
    if plan == "none":
        return None
    return (i, i * i + OFFSET, bytes([i % 256]) * (i % 5))


BAD = {"TaskError": TaskError("iterable"), "SystemExit": SystemExit(3), "TimeoutError": multiprocessing.TimeoutError("iterable"),
       "OddError": OddError(1, 2), "GeneratorExit": GeneratorExit("iterable")}


def _gen(tasks, bad, kind):
    for k, t in enumerate(tasks):
        if k == bad:
            raise BAD[kind]
        yield t


class Sized:
    def __init__(self, tasks):
        self.tasks = tasks

    def __len__(self):
        return len(self.tasks)

    def __iter__(self):
        return iter(self.tasks)


def _tally(x):
    """the same task gives another result each time"""
    n = struct.unpack_from("<I", COUNTS, 0)[0]
    struct.pack_into("<I", COUNTS, 0, n + 1)
    return x, n


def scenario(p):
    global COUNTS
    COUNTS = mmap.mmap(-1, 4096)
    from pyEdgeEval.utils import progressbar as pb
    if p["equal"]:
        t = list(p["equal"])
        kw = dict(bar_width=p["bar"], no_bar=p["no_bar"])
        if p["mode"] == "serial":
            return pb.track_progress(_tally, t, **kw)
        if p["mode"] == "iter":
            return [_tally(x) for x in pb.track_iter_progress(t, bar_width=p["bar"])]
        return pb.track_parallel_progress(_tally, t, p["nproc"], chunksize=p["chunk"], skip_first=p["skip_first"], keep_order=p["mode"] == "ordered", **kw)
    tasks = [(i, p["plans"][i], p["naps"][i]) for i in range(p["n"])]
    if p["bad_task"] >= 0:
        tasks[p["bad_task"]] = (p["bad_task"], OddTask(1) if p["odd_task"] else lambda: 0, 0)
    form = p["form"]
    if form == "list":
        t = tasks
    elif form == "gen":
        t = (_gen(tasks, p["bad_iter"], p["bad_kind"]), p["n"])
    elif form == "pair":
        t = (tasks, p["n"])
    else:
        t = Sized(tasks)
    kw = dict(bar_width=p["bar"], no_bar=p["no_bar"])
    out = {}
    try:
        if p["mode"] == "serial":
            res = pb.track_progress(_work, t, **kw)
        elif p["mode"] == "iter":
            res = [_work(x) for x in pb.track_iter_progress(t, bar_width=p["bar"])]
        else:
            res = pb.track_parallel_progress(
                _work, t, p["nproc"], initializer=_init if p["init"] else None,
                initargs=(p["init"],) if p["init"] else None,
                chunksize=p["chunk"], skip_first=p["skip_first"], keep_order=p["mode"] == "ordered", **kw)
        out["result"] = list(res)
    except BaseException as e:
        out["raised"] = (type(e).__name__, str(e)[:200])
    live = len(W.live)
    out["live"] = live
    out["counts"] = list(struct.unpack_from("<%dI" % max(1, p["n"]), COUNTS, 0))[:p["n"]]
    return out


SERIAL_ERRORS = ["stop", "raise", "exit", "sysexit", "timeout", "assertion", "eof", "ctrl-c", "odd_error"]
PAR_ERRORS = ["raise", "exit", "raise", "sysexit", "stop", "timeout", "ctrl-c", "genexit", "odd_error", "assertion", "eof"]
TIED = {"TaskError", "KeyError", "AssertionError", "EOFError", "TimeoutError"}
NAMES = {"raise": "TaskError", "exit": "KeyError", "assertion": "AssertionError", "eof": "EOFError", "timeout": "TimeoutError"}


def ok_names(p):
    """the ordinary errors that this call may raise, if it raises one of TIED"""
    return {NAMES[x] for x in p["plans"] if x in NAMES} | {p["bad_kind"]}


def equal_tasks(sim, p):
    """tasks that are equal are still tasks of their own"""
    w = sim.w
    few = w.pick([["a"], ["a", "b"], [1, 1.0, True], [(0, "x"), (0, "x")], [None, "", ()]])
    want = p["equal"] = [few[w.draw(len(few))] for _ in range(p["n"])]
    sim.sample = [dict(p)]
    sim.count("equal_tasks")
    sim.count("mode:" + p["mode"])
    sim.interesting = p["nproc"] > 1
    o = sim.world(scenario, p, sched=True, label="equal")
    sim.marks.add(("equal", p["mode"], repr(want), p["nproc"], p["chunk"]))
    if o.kind == "timeout":
        return
    where = "%s(%r, nproc=%d, chunksize=%d, skip_first=%s)" % (p["mode"], want, p["nproc"], p["chunk"], p["skip_first"])
    if o.kind != "ok":
        raise Violation("fails-equal", "%s: %s %s" % (where, o.kind, o.exc and o.exc[:2]), tb=o.exc and o.exc[2], trace=o.trace)
    got = list(o.value)
    tasks = [x for x, _ in got]
    if (sorted(map(repr, tasks)) != sorted(map(repr, want)) if p["mode"] == "unordered" else repr(tasks) != repr(want)):
        raise Violation("wrong-result", "results are of the tasks %r: %s" % (tasks, where), trace=o.trace)
    counts = [n for _, n in got]
    if (sorted(counts) if p["mode"] in ("ordered", "unordered") else counts) != list(range(p["n"])):
        raise Violation("twice", "calls %r for %d tasks: %s" % (counts, p["n"], where), trace=o.trace)


def run(sim):
    w, f = sim.w, sim.f
    p = {}
    p["mode"] = w.pick(["ordered", "unordered", "serial", "ordered", "unordered", "iter"])
    par = p["mode"] in ("ordered", "unordered")
    p["n"] = w.pick([3, 0, 1, 2, 4, 5, 7, 9, 12]) if not w.chance(1, 12) else w.int(20, 90)
    p["nproc"] = w.pick([2, 1, 3, 4, 5])
    p["chunk"] = w.pick([1, 1, 2, 3, 5])
    p["skip_first"] = w.chance(1, 4) and par
    p["no_bar"] = w.chance(1, 2)
    p["bar"] = w.pick([50, 10, 1])
    p["form"] = w.pick(["list", "gen", "pair", "sized"])
    p["init"] = w.pick([0, 0, 7]) if par else 0
    p["naps"] = [w.pick([0, 0, 1, 30, 4000]) for _ in range(p["n"])]
    p["equal"] = []
    if p["n"] and w.chance(1, 10):
        return equal_tasks(sim, p)
    p["plans"] = ["ok" if not w.chance(1, 8) else "none" for _ in range(p["n"])]
    p["bad_task"] = p["bad_iter"] = -1
    p["bad_kind"] = None
    p["odd_task"] = False
    case = f.pick(["none", "none", "task_error", "interrupt", "worker_killed", "bad_iterable", "unpicklable_result",
                   "unpicklable_task"])
    plans, interrupts, jumps = [], {}, []
    n = p["n"]
    expect = None          # exception types allowed; None = must succeed
    if not par and case not in ("none", "task_error", "bad_iterable"):
        case = "none"
    if n == 0 and case != "none":
        case = "none"
    if case == "task_error":
        for _ in range(f.int(1, 2)):
            p["plans"][f.draw(n)] = f.pick(PAR_ERRORS if par else SERIAL_ERRORS)
        expect = any
    elif case == "unpicklable_result":
        p["plans"][f.draw(n)] = f.pick(["lambda", "odd_result"])
        expect = any
    elif case == "unpicklable_task":
        p["bad_task"] = f.draw(n)
        p["odd_task"] = f.chance(1, 2)
        expect = any
    elif case == "bad_iterable":
        p["form"] = "gen"
        p["bad_iter"] = f.draw(n)
        p["bad_kind"] = f.pick(["TaskError", "TaskError", "SystemExit", "TimeoutError", "OddError", "GeneratorExit"])
        expect = any
    elif case == "interrupt":
        interrupts = {f.int(1, 6 + 4 * n): "KeyboardInterrupt"}
    elif case == "worker_killed":
        plans = [(K["TASK"], f.draw(2 * n + 1), A["KILLSELF"], 0)]
    if f.chance(1, 3):
        jumps = [(f.draw(12), f.pick([-3600, 86400, -10 ** 6]) * 10 ** 9)]
    sim.sample = [dict(p, case=case)]
    o = sim.world(scenario, p, plans=plans, jumps=jumps, sched=True, interrupts=interrupts, label=p["mode"])
    sim.count("case:" + case)
    sim.count("mode:" + p["mode"])
    sim.marks.add((case, p["mode"], n, p["nproc"], p["chunk"]))
    sim.interesting = (par and p["nproc"] > 1 and n > 1) or case != "none"
    where = "%s(n=%d, nproc=%d, chunksize=%d, skip_first=%s, form=%s), %s" % (
        p["mode"], n, p["nproc"], p["chunk"], p["skip_first"], p["form"], case)
    killed = any(a == "KILLSELF" for _, _, a, _ in o.fired)
    if o.kind == "timeout":
        return
    if o.kind == "hang":
        if killed:
            sim.count("hang_after_worker_death")      # P17
            return
        raise Violation("hang", "the call never returns: %s: %s" % (where, o.exc[1]), stack=o.exc[2], trace=o.trace)
    if o.kind == "native":
        raise Violation("native", "the process died: " + where)
    if o.kind == "exc":
        if o.exc[3]:
            raise Violation("escape:" + o.exc[0], "%s: %s" % (where, o.exc[1]), tb=o.exc[2])
        raise RuntimeError(o.exc[2])
    v = o.value
    if v["live"]:
        raise Violation("workers-left", "%d worker processes outlive the call: %s" % (v["live"], where), trace=o.trace)
    if any(c > 1 for c in v["counts"]):
        raise Violation("twice", "tasks executed %s times: %s" % (v["counts"], where), trace=o.trace)
    interrupted = bool(o.extra["interrupted"])
    if "raised" in v:
        name = v["raised"][0]
        if interrupted and name == "KeyboardInterrupt":
            return
        if killed:
            return
        if expect:
            if name not in ok_names(p) and (name in TIED or case == "task_error" and set(p["plans"]) <= set(NAMES) | {"ok", "none"}):
                raise Violation("wrong-error:" + name, "raised %s(%s): %s" % (v["raised"] + (where,)), trace=o.trace)
            return
        raise Violation("wrong-error:" + name, "raised %s(%s): %s" % (v["raised"] + (where,)), trace=o.trace)
    if expect is not None:
        raise Violation("error-lost", "the failure never reached the caller, who got %d of %d results: %s"
                        % (len(v["result"]), n, where), trace=o.trace)
    if interrupted:
        raise Violation("error-lost", "the interrupt never reached the caller: " + where, trace=o.trace)
    want = [None if p["plans"][i] == "none" else (i, i * i + p["init"], bytes([i % 256]) * (i % 5)) for i in range(n)]
    got = v["result"]
    if p["mode"] == "unordered":
        ok = sorted(map(repr, got)) == sorted(map(repr, want))
    else:
        ok = got == want
    if not ok:
        raise Violation("wrong-result", "got %r, expected %r: %s" % (got, want, where), trace=o.trace)
    if v["counts"] != [1] * n:
        raise Violation("not-once", "tasks executed %s times: %s" % (v["counts"], where), trace=o.trace)
