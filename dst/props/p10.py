"""P10: a conversion that returns is complete; a killed one can be rerun."""
import os

from .. import conv, faults
from ..simlib import Violation, diff_snap, snapshot

ID = "P10"
RUNS = {"quick": 1400, "thorough": 16000}
RULE = ("one run = a conversion of a drawn Cityscapes or SBD tree, first undisturbed, then with drawn failing operations or killed (all its processes) once or twice "
        "at a drawn operation with a drawn subset of its writes lost, then run again to the end; after every normal return all outputs are decoded "
        "and compared with an independent model, inputs are compared after every step; non-trivial: the fault or kill struck")
REAL = ["pyEdgeEval.helpers.convert_cityscapes, convert_sbd, scripts/convert_datasets/sbd.py", "cityscapesscripts json2labelImg, scipy.io, PIL, cv2", "Python file objects",
        "multiprocessing.pool with forked workers"]
STUB = ["failing system calls, process death, loss of unsynced writes", "pool handler threads and queues", "clock"]
ASSUMES = ["a kill takes the whole process group", "written data may be lost per file as a cut, zeroed or reverted end; directories survive", "fork start method",
           "short writes that no later error follows are retried by the writer (Python) or reported"]
PROBES = ("relative_paths", "kind:city", "kind:sbd", "killed", "lost", "refused", "survived", "fault:TORN@WRITE", "fault:ERRNO@WRITE", "fault:SHORT@WRITE", "fault:ERRNO@CLOSE_W", "fault:ERRNO@MKDIR",
          "fault:ERRNO@OPEN_W", "fault:ERRNO@READ", "fault:CRASH_BEFORE", "fault:CRASH_AFTER", "parallel", "serial", "ext:bin", "ext:tif")


def run(sim):
    w, f = sim.w, sim.f
    sim.relative()
    t = conv.city_tree(sim, max_images=2) if w.chance(1, 2) else conv.sbd_tree(sim, max_samples=2)
    cfg = t.cfg
    sim.count("kind:" + t.kind)
    if t.kind == "city":
        sim.count("ext:" + cfg["ext"])
    want = conv.reference(sim, t)
    if want is None:
        return
    before = conv.inputs_of(t, snapshot(t.root))
    nproc = w.pick([1, 1, 2, 3])
    sim.count("parallel" if nproc > 1 else "serial")
    what = "%s conversion (%s, nproc=%d)" % (t.kind, {k: v for k, v in cfg.items()}, nproc)
    # outputs of an earlier conversion of the same tree may be there already
    earlier = w.chance(1, 4)
    made = []
    if earlier:
        names = list(want)
        d = cfg.get("proc_dirname") or cfg["out"]
        for n in names:
            if w.chance(1, 2):
                p = os.path.join(t.root, d, n)
                os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, "wb") as h:
                    h.write(b"old\n" * w.pick([1, 0, 4000]))
                made.append(os.path.join(d, n))

    def inputs(label):
        files = snapshot(t.root)
        m = diff_snap(before, conv.inputs_of(t, files))
        if m:
            raise Violation("inputs-changed", "%s, %s, changed its inputs: %s" % (what, label, m))
        return files

    def restore():
        import shutil
        for x in ("splits", "reanno_val.txt", cfg.get("proc_dirname") or cfg["out"]):
            p = os.path.join(t.root, x)
            if os.path.isdir(p):
                shutil.rmtree(p)
            elif os.path.exists(p):
                os.unlink(p)
        for p in made:
            p = os.path.join(t.root, p)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "wb") as h:
                h.write(b"old\n")

    def go(label, n=nproc, plan=()):
        o = sim.world(conv.convert, t.kind, t.root, cfg, n, sched=n > 1, plans=plan, timeout=120, label=label)
        if o.kind == "timeout":
            return None
        files = inputs(label)
        if o.kind in ("hang", "native"):
            raise Violation(o.kind, "%s, %s with %s: %s" % (what, label, o.fired or plan, o.exc[:2]), trace=o.trace, tb=o.exc[2])
        if o.kind == "exc" and not o.fired:
            raise Violation("fails:" + o.exc[0], "%s, %s: %s" % (what, label, o.exc[:2]), tb=o.exc[2], trace=o.trace)
        if o.kind == "ok":
            m = conv.judge(t, cfg, want, files, made)
            if m:
                raise Violation(m[0], "%s returned, %s (%s): %s" % (what, label, o.fired, m[1]), trace=o.trace)
        if (o.extra or {}).get("live"):
            raise Violation("workers-left", "%s, %s (%s), left %d workers" % (what, label, o.fired, o.extra["live"]))
        return o

    a = go("undisturbed")
    if a is None:
        return
    story = []
    crash = f.chance(1, 2)
    kills = 0
    for k in range(f.pick([1, 1, 2])):
        if k == 0 or not crash:
            restore()
        had = snapshot(t.root)
        if crash:
            plan = faults.crash(f, a.kcount)
        else:
            plan = faults.one(f, a.kcount, ["WRITE"] * 3 + ["CLOSE_W"] + faults.WRITE_SIDE + faults.READ_SIDE, soft=True)
            if f.chance(1, 5):
                plan = (plan + faults.one(f, a.kcount, ["WRITE"] * 3 + faults.WRITE_SIDE, soft=True))[:16]
        b = go("disturbed", plan=plan)
        if b is None:
            return
        story.append("%s %s" % (b.kind, b.fired))
        sim.interesting = sim.interesting or bool(b.fired)
        if b.kind == "killed":
            kills += 1
            sim.count("killed")
            if f.chance(2, 3):
                lost = faults.power_loss(f, b.log, sim.root, t.root, {x: v for x, v in had.items() if v is not None})
                if lost:
                    sim.count("lost")
                    story.append("lost: " + ", ".join(lost))
            inputs("power loss")
        elif b.fired:
            sim.count("refused" if b.kind == "exc" else "survived")
    c = go("rerun after %s" % story, n=w.pick([nproc, 1, 2]))
    if c is not None and c.kind != "ok":
        raise Violation("rerun-fails", "%s, run again after %s: %s %s" % (what, story, c.kind, c.exc and c.exc[:2]), trace=c.trace)
    sim.marks.add((t.kind, tuple(sorted(map(str, cfg.items()))), nproc, tuple(story)))
    sim.sample = [dict(conv.brief(t), nproc=nproc, story=story, earlier=len(made))]
