"""P09: the SBD conversion is complete and independent of its schedule."""
import os

from .. import conv, faults
from ..simlib import Violation, diff_snap, snapshot

ID = "P09"
RUNS = {"quick": 1800, "thorough": 25000}
RULE = ("one run = one or two conversions of a drawn SBD tree by the conversion script under drawn worker counts, interleavings, directory orders, clock jumps and "
        "earlier content, optionally with a missing, truncated or failing source; every output is decoded and compared with an independent model of its "
        "sample; non-trivial: several workers or a damaged source")
REAL = ["scripts/convert_datasets/sbd.py", "pyEdgeEval.helpers.convert_sbd, edge_tools, utils, common.multi_label", "scipy.io, PIL, cv2", "multiprocessing.pool with forked workers"]
STUB = ["pool handler threads and queues", "clock", "directory order", "failing reads"]
ASSUMES = ["fork start method", "the thinning kernel is used as its own reference (P02, P12 decide its purity)", "reads of .mat files by scipy pass through the simulated system calls"]
PROBES = ("relative_paths", "parallel", "serial", "reanno", "original", "stale", "damage:missing", "damage:cut", "damage:empty", "damage:list", "fault:ERRNO@READ", "refused")


def damage(sim, t):
    """remove or cut one source file; a description, or ''"""
    f = sim.f
    names = t.lists["train"] + t.lists["val"]
    cand = [os.path.join(s, n + ".mat") for n in names for s in ("cls_orig", "inst_orig")]
    if t.cfg["reanno"]:
        cand += [os.path.join("gt_reanno_" + v, s, n + ".mat") for v in ("raw", "thin") for n in t.reanno_names for s in ("cls", "inst")]
        cand += ["gt_reanno_raw/test.mat", "gt_reanno_thin/test.mat"]
    how = f.pick(["missing", "cut", "empty", "list"])
    sim.count("damage:" + how)
    p = cand[f.draw(len(cand))]
    if how == "list":
        p = f.pick(["train.txt", "val.txt"])
        full = os.path.join(t.root, p)
        if f.chance(1, 2):
            os.unlink(full)
            return "no " + p
        with open(full, "a") as h:
            h.write("\nnot_there\n")
        return p + " lists a sample that is not there"
    full = os.path.join(t.root, p)
    if how == "missing":
        os.unlink(full)
    elif how == "empty":
        os.truncate(full, 0)
    else:
        os.truncate(full, os.path.getsize(full) // 2)
    return "%s %s" % (how, p)


def run(sim):
    w, f = sim.w, sim.f
    sim.relative()
    t = conv.sbd_tree(sim)
    cfg = t.cfg
    sim.count("reanno" if cfg["reanno"] else "original")
    want = conv.reference(sim, t)
    if want is None:
        return
    made = []
    if w.chance(1, 3):
        names = list(want)
        for _ in range(w.int(1, 5)):
            p = os.path.join(cfg["out"], names[w.draw(len(names))]) if w.chance(3, 4) else "reanno_val.txt"
            os.makedirs(os.path.dirname(os.path.join(t.root, p)) or ".", exist_ok=True)
            with open(os.path.join(t.root, p), "wb") as h:
                h.write(b"old\n" * w.pick([1, 0, 4000]))
            made.append(p)
        sim.count("stale")
    bad = damage(sim, t) if f.chance(1, 4) else ""
    before = conv.inputs_of(t, snapshot(t.root))
    reads = not bad and f.chance(1, 5)
    story = []
    for k in range(w.pick([1, 1, 2])):
        nproc = w.pick([1, 2, 3, 4])
        sim.count("serial" if nproc == 1 else "parallel")
        sim.interesting = sim.interesting or nproc > 1 or bool(bad)
        jumps = [(f.draw(40), f.pick([-3600, 86400, -10 ** 6]) * 10 ** 9)] if f.chance(1, 4) else []
        plan = []
        if reads:
            plan = faults.one(f, {x: 60 for x in range(16)}, ["READ", "OPEN_R"], soft=True)
        o = sim.world(conv.convert_sbd, t.root, cfg, nproc, sched=True, dir_seed=sim.s.draw(1 << 16), jumps=jumps, plans=plan, lines=sim.s.chance(1, 3),
                      npseed=f.draw(9), pyseed=f.draw(9), timeout=120, label="nproc=%d" % nproc)
        what = "conversion (%s, nproc=%d) after %s%s%s" % (cfg, nproc, made, ", " + bad if bad else "", ", %s" % o.fired if o.fired else "")
        story.append("nproc=%d: %s %s" % (nproc, o.kind, o.fired))
        if o.kind == "timeout":
            return
        files = snapshot(t.root)
        d = diff_snap(before, conv.inputs_of(t, files))
        if d:
            raise Violation("inputs-changed", "%s: %s" % (what, d))
        if (o.extra or {}).get("live"):
            raise Violation("workers-left", "%s left %d workers" % (what, o.extra["live"]))
        if bad:
            if o.kind == "ok":
                raise Violation("left-out", "%s returned" % what)
            if o.kind != "exc":
                raise Violation(o.kind, "%s: %s %s" % (what, o.kind, o.exc and o.exc[:2]), trace=o.trace)
            sim.count("refused")
            break
        if o.kind == "exc" and o.fired:
            continue
        if o.kind != "ok":
            raise Violation("fails:" + (o.exc[0] if o.exc else o.kind), "%s: %s %s" % (what, o.kind, o.exc and o.exc[:2]), tb=o.exc and o.exc[2], trace=o.trace)
        m = conv.judge(t, cfg, want, files, made)
        if m:
            raise Violation(m[0], "%s: %s" % (what, m[1]), trace=o.trace)
    sim.marks.add((tuple(story), cfg["reanno"], tuple(len(x) for x in t.lists.values()), bad))
    sim.sample = [dict(conv.brief(t), story=story, earlier=made, damage=bad)]
