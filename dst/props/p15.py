"""P15: every log message is written exactly once."""
import os
import re

from .. import simthreads
from ..simlib import Violation

ID = "P15"
RUNS = {"quick": 9000, "thorough": 60000}
THREADS = True
RULE = ("one run = one to four threads that ask for loggers and log through the package's functions, under drawn names, levels and files, every switch "
        "between threads drawn at source lines and lock operations; each message's lines on the stream and in the log file are counted; non-trivial: "
        "several threads or names that extend each other")
REAL = ["pyEdgeEval.utils.logger", "the logging package, its handlers and files"]
STUB = ["locks and thread switches (cooperative, scheduler-driven)", "clock"]
ASSUMES = ["threads switch at package lines and lock operations", "the application configures no handlers on the root logger"]
PROBES = ("threads:1", "threads:2", "threads:3", "file", "child_first", "parent_first", "below", "race_init", "kind:print", "kind:str", "kind:obj", "kind:root", "asked_again", "relative_paths")

FAMILIES = [["a"], ["pyEdgeEval"], ["a", "ab"], ["a", "a.b"], ["a.b", "a"], ["a", "a.b", "a.b.c"], ["a.b.c", "a.b", "a"], ["a.b", "a.c", "a"],
            ["pyEdgeEval", "pyEdgeEval.x"], ["pyEdgeEval2", "pyEdgeEval"], ["a-b", "a"], ["pyEdgeEval.x", "pyEdgeEval"], ["a", "b", "c"]]


def program(files, levels, pre, progs):
    from pyEdgeEval.utils import logger as m

    def step(op, tid):
        k, name = op[0], op[1]
        if k == "get":
            m.get_logger(name, log_file=files.get(name), log_level=levels[name])
            return
        if k == "again":          # a logger that is there is returned as it is
            m.get_logger(name, log_file=op[2], log_level=op[3], file_mode="a")
            return
        msg, lv = op[2], op[3]
        if k == "print":
            m.print_log(msg)
        elif k == "silent":
            m.print_log(msg, logger="silent", level=lv)
        elif k == "str":
            m.print_log(msg, logger=name, level=lv)
        elif k == "root":
            m.print_log(msg, logger=m.get_root_logger(log_file=files.get("pyEdgeEval"), log_level=levels.get("pyEdgeEval", 20)), level=lv)
        else:
            m.print_log(msg, logger=m.get_logger(name, log_file=files.get(name), log_level=levels[name]), level=lv)

    for op in pre:
        step(op, -1)

    def body(tid):
        def f():
            for op in progs[tid]:
                step(op, tid)
        return f
    res, _ = simthreads.run([body(i) for i in range(len(progs))])
    import logging
    for x in list(logging._handlerList):
        h = x()
        if h is not None:
            h.flush()
    return res


def related(a, b):
    return a == b or a.startswith(b + ".") or b.startswith(a + ".")


def run(sim):
    w = sim.w
    sim.relative()
    names = list(w.pick(FAMILIES))
    hier = any(a != b and related(a, b) for a in names for b in names)
    nt = w.int(1, 4)
    levels, files = {}, {}
    fam = w.pick([20, 20, 30, 10, 40])
    for n in names:
        levels[n] = fam if hier or w.chance(1, 2) else w.pick([10, 20, 30])
        if w.chance(1, 2) and not any(n.startswith(o + ".") for o in names):
            files[n] = sim.path("log %s.txt" % n)
            sim.count("file")
    # a logger with a file or an unusual level is always asked for explicitly before it is used by name
    explicit = [n for n in names if n in files or levels[n] != 20]
    pre = []
    if w.chance(1, 2):
        pre = [("get", n) for n in names if w.chance(1, 2) or n in explicit]
    else:
        sim.count("race_init")
    ready = {n for _, n in pre}
    progs, msgs = [], []
    for t in range(nt):
        mine = []
        known = set(ready)
        for i in range(w.int(1, 5)):
            k = w.pick(["str", "obj", "get", "print", "root", "silent", "str", "obj"])
            n = w.pick(names)
            if k == "root" and not any(x == "pyEdgeEval" for x in names):
                k = "obj"
            if k == "root":
                n = "pyEdgeEval"
            if k == "get" and n in known and w.chance(1, 2):
                mine.append(("again", n, w.pick([None, files.get(n), sim.path("other %s.txt" % n)]), w.pick([10, 40, levels[n]])))
                sim.count("asked_again")
                continue
            if k == "get":
                mine.append(("get", n))
                known.add(n)
                continue
            if k in ("str", "obj", "root"):
                for x in names:          # its ancestors' settings must not depend on who comes first by accident
                    if x in explicit and related(x, n) and x not in known:
                        mine.append(("get", x))
                        known.add(x)
            lv = w.pick([20, 30, 40, 50, 10])
            text = "t%d-m%d-%s" % (t, i, k)
            mine.append((k, n, text, lv))
            msgs.append((t, i, k, n, text, lv))
            sim.count("kind:" + k)
        progs.append(mine)
    o = sim.world(program, files, levels, pre, progs, sched=True, lines=True, label="threads")
    sim.count("threads:%d" % nt)
    if hier:
        first = next(a for a in names if any(a != b and related(a, b) for b in names))
        sim.count("child_first" if any(first.startswith(b + ".") for b in names) else "parent_first")
    desc = dict(names=names, levels=levels, files=sorted(files), pre=pre, threads=progs)
    sim.marks.add(str((names, levels, sorted(files), len(pre), [len(p) for p in progs])))
    sim.interesting = nt > 1 or hier
    sim.sample = [desc]
    if o.kind == "timeout":
        return
    if o.kind == "hang":
        raise Violation("hang", "the threads wait for each other: %s" % desc, trace=o.trace)
    if o.kind != "ok":
        if o.exc and o.exc[0] == "harness":
            raise RuntimeError(o.exc[1])
        raise Violation("fails", "%s: %s; %s" % (o.kind, o.exc and o.exc[:2], desc), tb=o.exc and o.exc[2])
    for t, (kind, v) in enumerate(o.value):
        if kind != "ok":
            raise Violation("raises", "thread %d: %s; %s" % (t, v, desc), trace=o.trace)
    stream = o.stdout.splitlines()
    text = {n: (open(p).read().splitlines() if os.path.exists(p) else None) for n, p in files.items()}
    last = {}
    for t, i, k, n, msg, lv in msgs:
        c = sum(1 for ln in stream if re.search(r"(^|\s)%s$" % re.escape(msg), ln))
        if k == "silent":
            want = 0
        elif k == "print":
            want = 1
        else:
            want = 1 if lv >= levels[n] else 0
            if not want:
                sim.count("below")
        if c != want:
            raise Violation("stream", "%r (level %d, logger %r at level %s) is on the stream %d times: %s" % (msg, lv, n, levels[n], c, desc),
                            stream="\n".join(stream), trace=o.trace)
        if n in files and k not in ("silent", "print"):
            if text[n] is None:
                raise Violation("file-missing", "the log file of %r was not made: %s" % (n, desc), trace=o.trace)
            c = sum(1 for ln in text[n] if re.search(r"(^|\s)%s$" % re.escape(msg), ln))
            if c != want:
                raise Violation("file", "%r (level %d, logger %r at level %s) is in the log file %d times: %s" % (msg, lv, n, levels[n], c, desc),
                                file="\n".join(text[n]), trace=o.trace)
        if want:
            for what, lns in (("stdout" if k == "print" else "stream", stream), ("file " + n, text.get(n) if k != "print" else None)):
                if lns is None:
                    continue
                at = next(j for j, ln in enumerate(lns) if re.search(r"(^|\s)%s$" % re.escape(msg), ln))
                if last.get((t, what), -1) >= at:
                    raise Violation("order", "%r comes before an earlier message of its thread in the %s: %s" % (msg, what, desc), trace=o.trace)
                last[(t, what)] = at
