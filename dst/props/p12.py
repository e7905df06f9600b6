"""P12: calls made at the same time from several threads do not disturb each other."""
from .. import gen, ops, simthreads
from ..simlib import Violation, W

ID = "P12"
RUNS = {"quick": 4000, "thorough": 30000}
THREADS = True
RULE = ("one run = two to four threads, each making one to three drawn calls on its own data (matching, suppression, thinning, edge extraction, boundary "
        "evaluation, metric pooling, serial dataset evaluations), switched at drawn source lines and lock operations; each thread's results are compared with "
        "those of the same calls made alone in a fresh process; non-trivial: at least one switch between threads that were both running")
REAL = ["pyEdgeEval.common, edge_tools, preprocess, evaluators, utils, _lib", "logging", "real threads"]
STUB = ["thread switching (at package lines and lock operations)", "threading locks (cooperative)", "clock"]
ASSUMES = ["a thread is switched at package lines and lock operations, not inside compiled calls, which hold the interpreter lock"]
PROBES = ("relative_paths", "op:caller", "op:match", "op:nms", "op:thin", "op:edges", "op:bounds", "op:metrics", "op:eval", "same_kind", "three_threads")

KINDS = ["match", "nms", "thin", "edges", "edges", "bounds", "bounds", "metrics", "caller"]


def calls(seq):
    out = []
    for op in seq:
        try:
            out.append(("ok", ops.do(op)))
        except ops.Mutated as e:
            out.append(("mutated", str(e)))
        except Exception as e:
            out.append(("raised", type(e).__name__, str(e)[:200]))
    return out


def together(seqs):
    res, switches = simthreads.run([lambda s=s: calls(s) for s in seqs])
    return res, switches, ops.kept_unchanged()


def run(sim):
    w = sim.w
    sim.relative(4)
    nt = w.pick([2, 2, 3, 4])
    focus = w.pick([KINDS, KINDS + ["eval", "eval"], ["eval"], ["edges"], ["bounds", "metrics"], ["nms", "thin"], ["caller", "metrics", "bounds", "nms"], ["caller", "edges", "eval"]])
    same = w.chance(1, 3)
    seqs = []
    for i in range(nt):
        slots = []
        if "eval" in focus:
            slots = [gen.scenario(sim, sim.path("t%d" % i), apis=("evaluate", "category"), max_samples=2, cats_max=2)]
        seq = []
        for _ in range(w.int(1, 3) if focus != ["eval"] else 1):
            op = ops.draw(sim, sim.root, focus, slots, fail=w.chance(1, 8), nproc_max=1)
            if same and i and op["op"] != "eval":
                op = dict(seqs[0][0], seed=op["seed"]) if seqs[0][0]["op"] != "eval" else op
            op["owner"] = i
            seq.append(op)
        seqs.append(seq)
    desc = [[op["op"] + ("!" + op["bad"] if op.get("bad") else "") for op in s] for s in seqs]
    alone = [sim.world(calls, s, label="alone") for s in seqs]
    o = sim.world(together, seqs, sched=True, lines=True, label="together", timeout=90)
    for s in seqs:
        for op in s:
            sim.count("op:" + op["op"])
    if same:
        sim.count("same_kind")
    if nt > 2:
        sim.count("three_threads")
    sim.marks.add(repr(desc))
    sim.sample = [dict(threads=desc)]
    if any(x.kind == "timeout" for x in alone + [o]):
        return
    for x in alone:
        if x.kind != "ok":
            raise RuntimeError("alone: %s %s" % (x.kind, x.exc))
    if o.kind != "ok":
        raise Violation("hang" if o.kind == "hang" else "dies", "threads %s: %s %s" % (desc, o.kind, o.exc and o.exc[:2]), tb=o.exc and o.exc[2], trace=o.trace)
    res, switches, kept = o.value
    sim.count("thread_switches", switches)
    sim.interesting = switches > nt
    for i, (r, a) in enumerate(zip(res, alone)):
        if r[0] != "ok":
            raise Violation("thread-fails", "thread %d of %s: %s" % (i, desc, r[1]), trace=o.trace)
        for op, got, want in zip(seqs[i], r[1], a.value):
            if want[0] == "mutated":
                raise Violation("mutated", "%s: %s" % (op["op"], want[1]))
            if got != want:
                raise Violation("differs:" + op["op"], "%s in thread %d of %s gives %s; alone %s" % (op["op"], i, desc, brief(got, want), brief(want, got)),
                                op=op, trace=o.trace)
    if kept:
        raise Violation("changed-later", "%d returned arrays changed later: %s" % (kept, desc), trace=o.trace)


def brief(a, b):
    if a[0] != "ok" or b[0] != "ok":
        return str(a)[:300]
    x, y = repr(a), repr(b)
    i = next((i for i, (p, q) in enumerate(zip(x, y)) if p != q), 0)
    return "..." + x[max(0, i - 20):i + 100]
