"""P17: a killed worker process makes a parallel call fail instead of hanging."""
import os

from .. import conv, gen, ops
from ..simlib import A, K, Violation, snapshot

ID = "P17"
RUNS = {"quick": 2500, "thorough": 25000}
RULE = ("one run = one parallel call (progress-tracked map, metric pooling, dataset evaluation, conversion, edge extraction) of which one to three workers are killed, each at "
        "a drawn operation (taking a task, before returning a result, a file operation, a line, the initializer) under a drawn interleaving; the call "
        "must end, and what it returns or writes must equal the undisturbed call; non-trivial: a worker was killed")
REAL = ["pyEdgeEval.utils.progressbar, edge_tools.mask2edge_mp, evaluators, conversions", "front ends and worker loop of multiprocessing.pool, forked workers really killed"]
STUB = ["pool handler threads (a dead worker is replaced, its task is lost, as in the real pool) and queues", "clock"]
ASSUMES = ["fork start method", "a kill does not strike while a worker holds a queue lock"]
PROBES = ("relative_paths", "killed", "entry:map", "entry:metrics", "entry:evaluation", "entry:conversion", "entry:edges", "ended")


def work(x):
    return x * x


def call(c):
    """what the call returned, as a comparable value"""
    e = c["entry"]
    if e == "map":
        from pyEdgeEval.utils import track_parallel_progress
        r = track_parallel_progress(work, list(range(c["n"])), c["nproc"], chunksize=c["chunk"], keep_order=c["keep"])
        return r if c["keep"] else sorted(r)
    if e in ("metrics", "edges"):
        return ops.do(c["op"])
    if e == "evaluation":
        return gen.evaluate(c["sc"], c["out"], c["nproc"]), gen.results(c["out"])
    conv.convert(c["kind"], c["root"], c["cfg"], c["nproc"])
    return {k: v for k, v in snapshot(c["root"]).items() if v is not None}


def clean(c):
    import shutil
    if c["entry"] == "evaluation":
        shutil.rmtree(c["out"], ignore_errors=True)
    elif c["entry"] == "conversion":
        for x in ("splits", "reanno_val.txt", c["cfg"].get("proc_dirname") or c["cfg"]["out"]):
            p = os.path.join(c["root"], x)
            if os.path.isdir(p):
                shutil.rmtree(p)
            elif os.path.exists(p):
                os.unlink(p)


def run(sim):
    w, f = sim.w, sim.f
    sim.relative()
    e = w.pick(["map", "metrics", "evaluation", "conversion", "edges", "edges"])
    c = dict(entry=e, nproc=w.pick([2, 3, 4]))
    if e == "map":
        c.update(n=w.int(1, 9), chunk=w.pick([1, 1, 2, 3]), keep=w.chance(2, 3))
    elif e in ("metrics", "edges"):
        op = ops.draw(sim, sim.root, [e], nproc_max=4)
        op["nproc"] = c["nproc"]
        if e == "edges":
            op["how"] = "mp"
            op["cv2"] = w.chance(1, 2)
        c["op"] = op
    elif e == "evaluation":
        sc = gen.scenario(sim, sim.root, max_samples=3, cats_max=2)
        c.update(sc=sc.call(), out=sim.path("out"))
    else:
        t = conv.city_tree(sim, max_images=2) if w.chance(1, 2) else conv.sbd_tree(sim, max_samples=2)
        c.update(kind=t.kind, root=t.root, cfg=t.cfg)
    sim.count("entry:" + e)
    lines = w.chance(1, 3)
    a = sim.world(call, c, sched=True, lines=lines, timeout=120, label="undisturbed")
    if a.kind == "timeout":
        return
    if a.kind != "ok":
        raise Violation("fails", "%s: %s %s" % (e, a.kind, a.exc and a.exc[:2]), tb=a.exc and a.exc[2], trace=a.trace)
    clean(c)
    kinds = [k for k in ("TASK", "TASK", "TASK", "LINE", "LINE", "READ", "WRITE", "OPEN_W", "CLOSE_W", "MKDIR") if a.kcount[K[k]]]
    if not kinds:
        return
    plans = []
    for _ in range(f.pick([1, 1, 1, 2, 3])):
        k = f.pick(kinds)
        plans.append((K[k], f.draw(a.kcount[K[k]]), A["KILLSELF"], 0))
    o = sim.world(call, c, sched=True, lines=lines, plans=plans, timeout=120, label="worker killed")
    if o.kind == "timeout":
        return
    killed = [x for x in o.fired if x[2] == "KILLSELF"]
    if killed:
        sim.count("killed", len(killed))
    sim.interesting = bool(killed)
    what = "%s (%s) whose workers are killed at %s" % (e, {k: v for k, v in c.items() if k in ("nproc", "n", "chunk", "keep", "kind")}, [x[:2] for x in killed])
    sim.marks.add((e, c["nproc"], tuple(killed), o.kind))
    sim.sample = [dict(call=e, nproc=c["nproc"], killed=[list(x) for x in killed], outcome=o.kind)]
    if o.kind == "hang":
        raise Violation("hang:" + e if killed else "hang-without-kill", "%s never ends: %s" % (what, o.exc[1]), stack=o.exc[2], trace=o.trace)
    sim.count("ended")
    if o.kind == "native":
        raise Violation("native", "%s: the process died" % what, trace=o.trace)
    if (o.extra or {}).get("live"):
        raise Violation("workers-left", "%s left %d workers" % (what, o.extra["live"]), trace=o.trace)
    if o.kind == "exc":
        sim.count("raised:" + o.exc[0])
        if not killed:
            raise Violation("fails", "%s: %s" % (what, o.exc[:2]), tb=o.exc[2], trace=o.trace)
        return
    sim.count("complete")
    if repr(o.value) != repr(a.value):
        raise Violation("wrong", "%s returns another result than undisturbed: %s instead of %s" % (what, repr(o.value)[:300], repr(a.value)[:300]), trace=o.trace)
