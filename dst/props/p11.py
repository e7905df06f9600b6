"""P11: parallel edge extraction equals the serial one under every interleaving."""
from .. import ops
from ..simlib import Violation

ID = "P11"
RUNS = {"quick": 4500, "thorough": 30000}
RULE = ("one run = one to four edge extractions in one process (parallel ones, mixed with serial and failing ones), the workers preempted at drawn "
        "source lines, each parallel result compared with the serial extraction of the same input in a fresh process, at once and again after the "
        "later calls; non-trivial: at least two workers")
REAL = ["pyEdgeEval.edge_tools, utils", "multiprocessing.pool front ends and worker loop, RawArray shared memory, forked workers", "cv2 distance transform"]
STUB = ["pool handler threads and queues (scheduler-driven)", "clock"]
ASSUMES = ["fork start method", "workers are preempted at package lines, task boundaries and queue operations, not inside numpy or cv2 calls"]
PROBES = ("parallel", "inst", "noinst", "failed_between", "several_mp", "few_labels_many_workers")


def calls(seq):
    out = []
    for op in seq:
        try:
            out.append(("ok", ops.edges(op, op.get("bad"))))
        except ops.Mutated as e:
            out.append(("mutated", str(e)))
        except Exception as e:
            out.append(("raised", type(e).__name__, str(e)[:200]))
    return out, ops.kept_unchanged()


def run(sim):
    w = sim.w
    n = w.int(1, 4)
    seq = []
    same = w.chance(1, 3)            # calls on inputs of one shape: the likeliest to share memory wrongly
    h, wd = w.int(8, 30), w.int(8, 30)
    for i in range(n):
        op = dict(op="edges", seed=w.draw(1 << 20), h=h if same else w.int(8, 30), w=wd if same else w.int(8, 30))
        op.update(ops.edges_args(w, 6))
        op["how"] = "mp" if i == n - 1 or w.chance(2, 3) else "loop"
        if i < n - 1 and w.chance(1, 6):
            op["bad"] = w.pick(["ndim", "radius"])
        if same and seq:
            op.update(labels=seq[0]["labels"], n=seq[0]["n"], inst=seq[0]["inst"] if w.chance(2, 3) else op["inst"])
        op["thin"] = op["internal"] = False
        seq.append(op)
    ref = sim.world(calls, [dict(op, how="loop") for op in seq if not op.get("bad")], label="serial")
    o = sim.world(calls, seq, sched=True, lines=w.chance(2, 3), label="parallel", timeout=120)
    desc = ["%s%s(%d labels, inst=%s, nproc=%d)%s" % (op["how"], "!" if op.get("bad") else "", op["n"], op["inst"], op["nproc"], "") for op in seq]
    nmp = sum(1 for op in seq if op["how"] == "mp")
    for op in seq:
        if op["how"] == "mp":
            sim.count("inst" if op["inst"] else "noinst")
            if op["nproc"] > 1:
                sim.count("parallel")
                sim.interesting = True
            if op["nproc"] > op["n"]:
                sim.count("few_labels_many_workers")
        if op.get("bad"):
            sim.count("failed_between")
    if nmp > 1:
        sim.count("several_mp")
    sim.marks.add(tuple(desc))
    sim.sample = [dict(calls=desc)]
    if "timeout" in (ref.kind, o.kind):
        return
    if ref.kind != "ok":
        raise RuntimeError("serial: %s %s" % (ref.kind, ref.exc))
    if o.kind != "ok":
        raise Violation(o.kind, "%s: %s %s" % (desc, o.kind, o.exc and o.exc[:2]), tb=o.exc and o.exc[2], trace=o.trace)
    vals, kept = o.value
    want = iter(ref.value[0])
    for op, d, v in zip(seq, desc, vals):
        if op.get("bad"):
            continue          # an invalid call: only its effect on the others matters
        x = next(want)
        if x[0] != "ok":
            if v[0] != x[0]:
                raise Violation("raises-differently", "%s: serial %s, parallel %s" % (d, x[:3], v[0]))
            continue
        if v[0] != "ok":
            raise Violation("raises", "%s of %s: %s" % (d, desc, v), trace=o.trace)
        if v[1] != x[1]:
            raise Violation("differs", "call %s of %s differs from the serial extraction: %s" % (d, desc, first(v[1], x[1])), trace=o.trace, op=op)
    if kept:
        raise Violation("changed-later", "%d results changed when later calls were made: %s" % (kept, desc), trace=o.trace)


def first(a, b):
    import numpy as np
    if a[:3] != b[:3]:
        return "shape/dtype %s vs %s" % (a[1:3], b[1:3])
    x, y = (np.frombuffer(v[3], v[2]).reshape(v[1]) for v in (a, b))
    i = np.argwhere(x != y)
    return "%d pixels, first at %s: %s instead of %s" % (len(i), tuple(int(q) for q in i[0]), x[tuple(i[0])], y[tuple(i[0])])
