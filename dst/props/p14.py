"""P14: timer laps add up, and no clock can affect results."""
import re

from .. import simlib
from ..simlib import EPOCH, Violation

ID = "P14"
RUNS = {"quick": 12000, "thorough": 120000}
RULE = ("one run = either a drawn sequence of timer and checkpoint operations or one progress-tracked map, under a drawn clock (tick per reading, stalls, "
        "jumps placed at drawn readings, also inside an operation); what is reported must fit the simulated clock and, for maps, the tasks really done; "
        "non-trivial: the clock jumped or stood still")
REAL = ["pyEdgeEval.utils.timer, progressbar", "multiprocessing.pool front ends and forked workers"]
STUB = ["wall and monotonic clock, sleep", "terminal size (environment)", "pool handler threads"]
ASSUMES = ["an operation's instant is any clock value between its begin and its end"]
PROBES = ("timer", "checkpoints", "map:serial", "map:parallel", "map:iter", "bar", "fault:CLOCK_JUMP", "stalled", "backwards", "not_running")


def clocks():
    t = simlib.lib.sim_now()
    back = sum(d for at, fired, d in simlib.W.ctl.jumps_fired() if fired)
    return t / 1e9, (t - back) / 1e9


def timers(ops):
    """[(op, value or ('raised', type), clocks before, clocks after)]"""
    import time
    from pyEdgeEval.utils import timer as m
    out = []
    ts = {}
    for op in ops:
        k, name = op[0], op[1]
        if k == "nap":
            time.sleep(name)
            continue
        a = clocks()
        try:
            if k == "new":
                ts[name] = m.Timer(start=op[2])
                v = None
            elif k == "enter":
                v = None
                ts[name].__enter__()
            elif k == "exit":
                v = None
                ts[name].__exit__(None, None, None)
            elif k == "start":
                v = None
                ts[name].start()
            elif k == "lap":
                v = ts[name].since_last_check()
            elif k == "total":
                v = ts[name].since_start()
            elif k == "running":
                v = ts[name].is_running
            else:
                v = m.check_time(name)
            v = ("ok", v if v is None or isinstance(v, bool) else float(v))
        except m.TimerError:
            v = ("refused",)
        except Exception as e:
            v = ("raised", type(e).__name__, str(e)[:200])
        out.append((op, v, a, clocks()))
    return out


class Recorder:
    def __init__(self):
        self.text = []

    def write(self, s):
        self.text.append(s)

    def flush(self):
        pass


REC = None


def task(x):
    if REC is not None:
        REC.write("<%d>" % x)
    return x * 3


def maps(p):
    global REC
    from pyEdgeEval.utils import progressbar as pb
    REC = rec = Recorder()
    n = p["n"]
    if p["how"] == "serial":
        res = pb.track_progress(task, list(range(n)), bar_width=p["bar"], file=rec)
    elif p["how"] == "iter":
        res = [task(x) for x in pb.track_iter_progress(list(range(n)), bar_width=p["bar"], file=rec)]
    elif p["how"] == "bar":
        b = pb.ProgressBar(p["total"], p["bar"], file=rec)
        res = []
        for k in p["steps"]:
            for _ in range(k):
                res.append(task(len(res)))
            b.update(k)
    else:
        REC = None
        res = pb.track_parallel_progress(task, list(range(n)), p["nproc"], chunksize=p["chunk"], bar_width=p["bar"], keep_order=p["order"],
                                         skip_first=p["skip"], file=rec)
    return res, "".join(rec.text)


def clock(sim):
    f = sim.f
    kw = dict(tick=f.pick([1000, 0, 1, 10 ** 9, 37 * 10 ** 6, 10 ** 13]))
    kw["now"] = EPOCH + f.pick([0, 0, -EPOCH // 2, 10 ** 18]) if f.chance(1, 3) else EPOCH
    if kw["tick"] == 0:
        sim.count("stalled")
    if f.chance(2, 3):
        js = sorted((f.draw(30), f.pick([3600, -3600, 10 ** 8, -10 ** 8, -1, 1]) * 10 ** 9) for _ in range(f.int(1, 6)))
        js = [j for i, j in enumerate(js) if i == 0 or js[i - 1][0] != j[0]]
        kw["jumps"] = js
        if any(d < 0 for _, d in js):
            sim.count("backwards")
    return kw


def run(sim):
    w = sim.w
    if w.chance(1, 2):
        return run_timer(sim)
    run_map(sim)


def run_timer(sim):
    w = sim.w
    ops = []
    if w.chance(1, 3):
        names = w.pick([["a"], ["a", "b"], ["a", "ab", 1], ["x", ""]])
        for _ in range(w.int(2, 16)):
            ops.append(("check", w.pick(names)) if not w.chance(1, 3) else ("nap", w.pick([1, 0.25, 100])))
        sim.count("checkpoints")
    else:
        names = ["t", "u"][: w.int(1, 2)]
        for nm in names:
            ops.append(("new", nm, not w.chance(1, 3)))
        for _ in range(w.int(2, 16)):
            k = w.pick(["lap", "lap", "total", "nap", "start", "enter", "exit", "running"])
            ops.append((k, w.pick([1, 0.25, 100]) if k == "nap" else w.pick(names)))
        sim.count("timer")
    kw = clock(sim)
    o = sim.world(timers, ops, label="timer", **kw)
    sim.sample = [dict(ops=[" ".join(map(str, x)) for x in ops], clock=kw)]
    sim.marks.add((len(ops), str(ops[:3]), kw["tick"], str(kw.get("jumps"))))
    sim.interesting = bool(o.jumps) or kw["tick"] == 0
    if o.kind == "timeout":
        return
    if o.kind != "ok":
        raise Violation("fails", "%s: %s" % (o.kind, o.exc and o.exc[:2]), tb=o.exc and o.exc[2])
    err = ""
    for c in (0, 1):                 # the wall clock or the monotonic one: either will do, but one of them throughout
        err = fits(o.value, c, sim) or ""
        if not err:
            return
        first = err if c == 0 else first
    raise Violation("laps:" + first.split(":")[0], "%s (clock %s)" % (first, kw), ops=ops)


class T:
    def __init__(self):
        self.running, self.start, self.last, self.sum, self.t0 = False, None, None, None, None


def fits(log, c, sim):
    """'' if there are instants, one per operation within its window, that explain every reported number"""
    ts = {}
    eps = 2e-5 * (1 + 0)

    def win(a, b):
        return (min(a[c], b[c]), max(a[c], b[c]))

    for i, (op, v, a, b) in enumerate(log):
        k, name = op[0], op[1]
        lo, hi = win(a, b)
        big = 1e-6 * (1 + (abs(a[c]) + abs(b[c])) * 1e-9)
        tol = eps + big
        key = (type(name).__name__, name)
        if v[0] == "raised":
            return "error: %s raised %s" % (op, v[1:])
        if k == "new":
            t = ts[key] = T()
            if op[2]:
                begin(t, lo, hi)
            continue
        if k == "check":
            t = ts.get(key)
            if t is None:
                t = ts[key] = T()
                begin(t, lo, hi)
                if v != ("ok", 0.0):
                    return "first: the first check of %r reports %s" % (name, v)
                continue
            m = lap(t, v, lo, hi, tol)
            if m:
                return "check: " + m % (name,)
            continue
        t = ts[key]
        if k in ("start", "enter"):
            if t.running:
                t.anchor = None       # a lap begins here, without one having been reported
                t.last = (lo, hi)
                t.sum = 0.0
                t.base = (lo, hi)
            else:
                begin(t, lo, hi)
        elif k == "running":
            if v != ("ok", t.running):
                return "running: is_running is %s" % (v,)
        elif not t.running:
            sim.count("not_running")
            if v[0] != "refused":
                return "refuse: %s of a timer that is not running reports %s" % (k, v)
            # a refused exit leaves it stopped
        elif v[0] == "refused":
            return "refuse: %s of a running timer is refused" % k
        elif k == "exit":
            t.running = False
        elif k == "lap":
            m = lap(t, v, lo, hi, tol)
            if m:
                return "lap: " + m % (name,)
        elif k == "total":
            x = v[1]
            # total = instant - start
            if not (lo - t.t0[1] - tol <= x <= hi - t.t0[0] + tol):
                return "total: since_start reports %r, the clock passed between %r and %r since the start" % (x, lo - t.t0[1], hi - t.t0[0])
            # the start instant is one instant: narrow it
            t.t0 = (max(t.t0[0], lo - x - tol), min(t.t0[1], hi - x + tol))
            if t.t0[0] > t.t0[1] + tol:
                return "total: since_start reports do not agree on one start"
            # a total is also a check: the next lap begins at this instant, which is start + x
            t.base = (max(lo, t.t0[0] + x - tol), min(hi, t.t0[1] + x + tol))
            t.sum = 0.0
    return ""


def begin(t, lo, hi):
    t.running = True
    t.t0 = (lo, hi)
    t.base = (lo, hi)
    t.sum = 0.0


def lap(t, v, lo, hi, tol):
    if v[0] != "ok":
        return "%%r refused: %s" % (v,)
    t.sum += v[1]
    # base instant + sum of laps = this instant
    if not (lo - t.base[1] - tol <= t.sum <= hi - t.base[0] + tol):
        return "the laps of %%r add up to %r, the clock passed between %r and %r" % (t.sum, lo - t.base[1], hi - t.base[0])
    t.base = (max(t.base[0], lo - t.sum - tol), min(t.base[1], hi - t.sum + tol))
    return ""


def run_map(sim):
    w = sim.w
    p = dict(how=w.pick(["serial", "parallel", "iter", "bar"]), n=w.pick([3, 0, 1, 2, 5, 9]), bar=w.pick([50, 1, 10]), nproc=w.int(1, 4),
             chunk=w.pick([1, 2]), order=w.chance(1, 2), skip=w.chance(1, 4))
    if p["how"] == "bar":
        p["steps"] = [w.int(1, 3) for _ in range(w.int(0, 6))]
        p["n"] = sum(p["steps"])
        p["total"] = p["n"] if w.chance(2, 3) else 0
    kw = clock(sim)
    env = {"COLUMNS": w.pick(["80", "1", "20", "400"])}
    o = sim.world(maps, p, label=p["how"], sched=p["how"] == "parallel", environ=env, **kw)
    sim.count("map:" + p["how"] if p["how"] != "bar" else "bar")
    sim.marks.add((p["how"], p["n"], p["bar"], env["COLUMNS"], kw["tick"], str(kw.get("jumps"))))
    sim.interesting = bool(o.jumps) or kw["tick"] == 0
    sim.sample = [dict(p, clock=kw)]
    if o.kind == "timeout":
        return
    if o.kind != "ok":
        raise Violation("map-fails", "%s(%s) under the clock %s: %s %s" % (p["how"], p, kw, o.kind, o.exc and o.exc[:2]), tb=o.exc and o.exc[2])
    res, text = o.value
    want = [x * 3 for x in range(p["n"])]
    if (sorted(res) if p["how"] == "parallel" and not p["order"] else res) != want:
        raise Violation("map-result", "%s gives %s under the clock %s" % (p, res, kw))
    total = p.get("total", p["n"])
    if p["how"] == "parallel" and p["skip"]:
        return
    done, shown = 0, 0
    seen = []
    for m in re.finditer(r"<(\d+)>|(?:\] |\]\s*)(\d+)/(\d+),|completed: (\d+),", text):
        if m[1] is not None:
            done += 1
            continue
        k = int(m[2] if m[2] is not None else m[4])
        seen.append(k)
        if m[3] is not None and int(m[3]) != total:
            raise Violation("bar-total", "%s shows %s of %s under the clock %s" % (p["how"], k, m[3], kw), text=text)
        if p["how"] != "parallel" and k != done:
            raise Violation("bar-count", "%s shows %d completed when %d are, under the clock %s" % (p, k, done, kw), text=text)
        if k < shown:
            raise Violation("bar-back", "%s shows %d after %d" % (p, k, shown), text=text)
        shown = k
    if shown != p["n"]:
        raise Violation("bar-end", "%s ends showing %d of %d completed under the clock %s" % (p, shown, p["n"], kw), text=text)
