"""P06: a missing or unreadable input is never silently left out."""
import os
import sys

from .. import faults, gen, oracles
from ..simlib import Violation

ID = "P06"
RUNS = {"quick": 3500, "thorough": 30000}
RULE = ("one run = one drawn evaluation of which an input file is missing, empty, cut off at a drawn byte, replaced by a directory or removed while the evaluation runs, or whose "
        "reads fail, are interrupted or come short at drawn points, serial or parallel; if it returns, metrics and saved files must be those of the "
        "intact inputs; non-trivial: the damage or fault was in place and met")
REAL = ["evaluators, dataset loaders, decoders (PIL, scipy.io), pooling, saving, command-line helpers", "matcher, thinning, suppression",
        "multiprocessing.pool with forked workers"]
STUB = ["failing file operations (EACCES, EIO, EMFILE, ENOENT, ESTALE, short reads, EINTR)", "pool handler threads", "clock"]
ASSUMES = ["a damaged file is one that is missing, a directory, or a proper prefix of its content", "fork start method"]
PROBES = ("fault:ERRNO@OPEN_R", "fault:ERRNO@READ", "fault:SHORTREAD@READ", "damage:missing", "damage:cut", "damage:empty", "damage:dir", "damage:vanishing", "raised", "survived")


def inputs(sc):
    """the files an evaluation of this scenario may read for its samples"""
    out = []
    for top in (sc.root, sc.pred):
        for dp, ds, fs in os.walk(top):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(dp, f)
                if f.endswith((".png", ".mat")):
                    out.append(p)
    return out


def stem(sc, name):
    return os.path.basename(name)


def damage(sim, sc):
    """damage one file of one listed sample; (what, path) or None"""
    f = sim.f
    files = inputs(sc)
    name = sc.names[f.draw(len(sc.names))]
    own = [p for p in files if os.path.basename(p).startswith(os.path.basename(name))]
    preds = [p for p in own if p.startswith(sc.pred)]
    gts = [p for p in own if not p.startswith(sc.pred) and "/README" not in p]
    pool = preds if f.chance(1, 2) and preds else gts
    if not pool:
        return None
    p = pool[f.draw(len(pool))]
    how = f.pick(["cut", "missing", "empty", "dir", "cut"])
    if sc.kind == "bsds" and sc.explicit is None and how == "missing" and p.endswith(".mat"):
        how = "cut"           # the listing of this directory is the list of samples
    if how in ("missing", "dir"):
        os.unlink(p)
        if how == "dir":
            os.mkdir(p)
    else:
        n = os.path.getsize(p)
        k = 0 if how == "empty" else n - 1 - f.draw(min(n - 1, 40)) if f.chance(1, 3) else f.draw(n)
        os.truncate(p, k)
        how = how if k else "empty"
    return how, os.path.relpath(p, sim.root)


VANISH = []


def _vanish(event, args):
    """the k-th file opened by a process is the last moment of this file"""
    if VANISH and event == "open" and isinstance(args[0], str) and VANISH[2] in args[0]:
        VANISH[0] -= 1
        if VANISH[0] == 0:
            path = VANISH[1]
            del VANISH[:]
            try:
                os.unlink(path)
            except OSError:
                pass


def vanishing(c, out, nproc, vanish):
    if vanish:
        VANISH[:] = vanish
        sys.addaudithook(_vanish)
    return gen.evaluate(c, out, nproc)


def run(sim):
    w, f = sim.w, sim.f
    sc = gen.scenario(sim, sim.root, max_samples=4)
    nproc = w.pick([1, 1, 2, 3])
    with_save = sc.api != "category" or w.chance(1, 2)
    what = "%s evaluation (%s, nproc=%d, %r)" % (sc.kind, sc.api, nproc, dict(sc.params, thin=sc.thin))
    cnt, thr = oracles.counts(sim, sc)
    sim.count("kind:" + sc.kind)
    plan, hurt, vanish = [], None, None
    if f.chance(1, 2):
        hurt = damage(sim, sc)
    elif f.chance(1, 3):         # it goes away while the evaluation runs
        files = [p for p in inputs(sc) if "/README" not in p and any(os.path.basename(p).startswith(os.path.basename(n)) for n in sc.names)]
        if sc.kind == "bsds" and sc.explicit is None:       # as above
            files = [p for p in files if not p.endswith(".mat")]
        if files:
            p = files[f.draw(len(files))]
            vanish = [1 + f.draw(4 * len(sc.names)), p, sim.root + "/"]
            hurt = "vanishing", os.path.relpath(p, sim.root)
    else:
        a = sim.world(gen.evaluate, sc.call(), sim.path("dry", "res") if with_save else None, nproc, sched=nproc > 1, label="undisturbed")
        if a.kind == "timeout":
            return
        if a.kind != "ok":
            raise Violation("fails:" + (a.exc[0] if a.exc else a.kind), "%s: %s %s" % (what, a.kind, a.exc and a.exc[:2]), tb=a.exc and a.exc[2])
        plan = faults.one(f, a.kcount, faults.READ_SIDE, soft=True)
        if f.chance(1, 4):
            plan += faults.one(f, a.kcount, faults.READ_SIDE, soft=True)
    if hurt:
        sim.count("damage:" + hurt[0])
    out = sim.path("out", "res")
    o = sim.world(vanishing, sc.call(), out if with_save else None, nproc, vanish, sched=nproc > 1, plans=plan, label="disturbed")
    sim.marks.add((sc.kind, sc.api, len(sc.names), hurt and hurt[0], hurt and hurt[1][-14:], tuple(o.fired)))
    sim.interesting = bool(hurt or o.fired)
    sim.sample = [dict(sc.brief(), nproc=nproc, damage=hurt, faults=plan)]
    if o.kind == "timeout":
        return
    if o.kind == "exc" and (hurt or o.fired):
        sim.count("raised")
        return
    if o.kind != "ok":
        raise Violation("fails:" + (o.exc[0] if o.exc else o.kind), "%s, damage %s, faults %s: %s %s" % (what, hurt, o.fired, o.kind, o.exc and o.exc[:2]),
                        tb=o.exc and o.exc[2], trace=o.trace)
    m = oracles.check_all(sc, cnt, thr, o.value, gen.results(out) if with_save else None)
    if m:
        raise Violation("left-out:" + (hurt[0] if hurt else "fault"), "%s returned although %s, and %s" % (
            what, "%s is %s" % (hurt[1], hurt[0]) if hurt else "reads failed: %s" % (o.fired,), m), trace=o.trace)
    sim.count("survived")
