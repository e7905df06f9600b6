"""P07: an interrupted evaluation changes nothing that a rerun does not repair."""
import os

from .. import faults, gen, leftover, oracles
from ..simlib import Violation, diff_snap, snapshot

ID = "P07"
RUNS = {"quick": 2000, "thorough": 25000}
RULE = ("one run = one drawn evaluation killed (all its processes) before, inside or after a drawn file operation, once or twice, after which a drawn subset "
        "of what it had written is cut, zeroed or reverted, and then run again to the end; the rerun's metrics and files are compared with a "
        "reference model, and predictions, ground truth and lists with their state before; non-trivial: the kill struck")
REAL = ["evaluators, pooling, result writers, directory helpers, command-line helpers", "matcher, thinning, suppression", "Python file objects",
        "multiprocessing.pool with forked workers"]
STUB = ["process death and loss of unsynced writes", "pool handler threads", "clock"]
ASSUMES = ["a kill takes the whole process group", "written data may be lost per file as a cut, zeroed or reverted end; directories survive", "fork start method"]
PROBES = ("relative_paths", "killed", "lost", "killed_twice", "fault:TORN@WRITE", "fault:CRASH_BEFORE", "fault:CRASH_AFTER", "inside_inputs", "among_inputs")


def run(sim):
    w, f = sim.w, sim.f
    sim.relative()
    sc = gen.scenario(sim, sim.root, max_samples=4)
    nproc = w.pick([1, 1, 2, 3])
    where = w.pick(["apart", "apart", "apart", "pred", "data", "the predictions", "the data"])
    out = {"apart": sim.path("out", "res"), "pred": os.path.join(sc.pred, "eval out"), "data": os.path.join(sc.root, "eval out"),
           "the predictions": sc.pred, "the data": sc.root}[where]
    shared = where.startswith("the")
    if where != "apart":
        sim.count("among_inputs" if shared else "inside_inputs")
    how = leftover.make(sim, sc, out, allow_dir=False) if not shared and w.chance(1, 3) else []
    cnt, thr = oracles.counts(sim, sc)
    what = "%s evaluation (%s, nproc=%d)" % (sc.kind, sc.api, nproc)
    sim.count("kind:" + sc.kind)

    def inputs():
        s = {}
        for top in (sc.root, sc.pred):
            for k, v in snapshot(top).items():
                if not k.startswith("eval out"):
                    s[os.path.basename(top) + "/" + k] = v
        return s

    before = inputs()

    def untouched(label):
        now = inputs()
        d = diff_snap(before, {k: v for k, v in now.items() if k in before} if shared else now)
        if d:
            raise Violation("inputs-changed", "%s, %s, changed its inputs: %s" % (what, label, d))

    dry = sim.path("dry", "res")
    leftover.copy(out, dry)
    a = sim.world(gen.evaluate, sc.call(), dry, nproc, sched=nproc > 1, label="undisturbed")
    if a.kind == "timeout":
        return
    if a.kind != "ok":
        raise Violation("fails:" + (a.exc[0] if a.exc else a.kind), "%s: %s %s" % (what, a.kind, a.exc and a.exc[:2]), tb=a.exc and a.exc[2])
    untouched("undisturbed")
    story = []
    for k in range(f.pick([1, 1, 1, 2])):
        plan = faults.crash(f, a.kcount)
        had = snapshot(out) if os.path.isdir(out) else {}
        b = sim.world(gen.evaluate, sc.call(), out, nproc, sched=nproc > 1, plans=plan, label="killed")
        if b.kind == "timeout":
            return
        if b.kind not in ("killed", "ok"):
            raise Violation("fails:" + (b.exc[0] if b.exc else b.kind), "%s, to be killed at %s after %s: %s" % (what, plan, story, b.exc and b.exc[:2]),
                            tb=b.exc and b.exc[2], trace=b.trace)
        story.append("%s at %s" % (b.kind, b.fired))
        if b.kind == "killed":
            sim.count("killed")
            if k:
                sim.count("killed_twice")
            if f.chance(2, 3):
                lost = faults.power_loss(f, b.log, sim.root, out, had)
                if lost:
                    sim.count("lost")
                    story.append("lost: " + ", ".join(lost))
        sim.interesting = sim.interesting or b.kind == "killed"
        untouched("killed")
    n2 = w.pick([nproc, 1, 2])
    c = sim.world(gen.evaluate, sc.call(), out, n2, sched=n2 > 1, label="rerun")
    sim.marks.add((sc.kind, sc.api, len(sc.names), tuple(how), tuple(story)))
    sim.sample = [dict(sc.brief(), nproc=nproc, earlier=how, story=story, save_dir=where)]
    if c.kind == "timeout":
        return
    if c.kind != "ok":
        raise Violation("rerun-fails:" + (c.exc[0] if c.exc else c.kind), "%s, run again after %s: %s %s" % (what, story, c.kind, c.exc and c.exc[:2]),
                        tb=c.exc and c.exc[2], trace=c.trace)
    m = oracles.check_all(sc, cnt, thr, c.value, leftover.relevant(sc, gen.results(out)))
    if m:
        raise Violation("not-repaired", "%s, run again after %s, %s" % (what, story, m), trace=c.trace)
    untouched("rerun")
