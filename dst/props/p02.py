"""P02: no call depends on what the process did before, and none changes its arguments."""
from .. import gen, ops
from ..simlib import Violation

ID = "P02"
RUNS = {"quick": 6000, "thorough": 30000}
RULE = ("one run = a drawn history of one to six public calls (matching, suppression, thinning, edge extraction, boundary evaluation, metric "
        "pooling, dataset evaluations with reused or new evaluator objects; some failing) in one process, whose last call is compared with the "
        "same call in a fresh process; the files of the dataset may change between calls and change back before the last; arguments are compared before and after every call; non-trivial: at least two different calls")
REAL = ["all of pyEdgeEval reached by these calls, including its C++ and Cython parts", "multiprocessing.pool with forked workers"]
STUB = ["pool handler threads and queues", "clock"]
ASSUMES = ["fork start method"]
PROBES = ("relative_paths", "op:match", "op:nms", "op:thin", "op:edges", "op:bounds", "op:metrics", "op:eval", "failed_before", "reused", "files_changed")

KINDS = ["match", "nms", "thin", "edges", "bounds", "metrics", "eval", "eval", "eval", "caller"]


def again(w, hist, n=3):
    """one of the earlier calls, on the same or on other data, with the same or other options"""
    if not hist or not w.chance(1, n):
        return None
    op = dict(hist[w.draw(len(hist))])
    if w.chance(1, 2):
        op["seed"] = w.draw(1 << 20)
    if op["op"] == "eval" and op["sc"].get("params") and w.chance(2, 3):      # with other options
        p = dict(op["sc"]["params"])
        for k in sorted(p):
            if isinstance(p[k], bool) and w.chance(1, 2):
                p[k] = not p[k]
        if "eval_mode" in p and w.chance(1, 2):
            p["eval_mode"] = w.pick([None, "post-seal", "pre-seal"])
        if "max_dist" in p and w.chance(1, 4):
            p["max_dist"] = w.pick([0.0075, 0.05, 0.1])
        op["sc"] = dict(op["sc"], params=p)
    elif op["op"] in OPTIONS and w.chance(1, 2):
        k = w.pick(sorted(OPTIONS[op["op"]]))
        op[k] = w.pick(OPTIONS[op["op"]][k])
    return op


OPTIONS = dict(bounds=dict(dt=["float64", "float32"], nms=[True, False], thin=[True, False], kill=[True, False], skip=[True, False], which=["bin", "multi", "gts"]),
               nms=dict(dt=["float64", "uint8", "float32"], half=[True, False], u8=[True, False], r=[1, 2], s=[5, 0, 3]),
               match=dict(max_dist=[0.05, 0.0075, 0.1, 0.3], cost=[100.0, 5.0], pdt=["bool", "uint8", "float64"]),
               thin=dict(dt=["bool", "uint8"], iters=[None, 1, 2]),
               edges=dict(thin=[True, False], internal=[True, False], cv2=[True, False], radius=[1, 2, 3], l2t=[True, False], ignore=[[], [0], [1]]),
               metrics=dict(thr=[3, [0.5], [0.2, 0.6], 0.3], nproc=[1, 2]))


def swaps(sim, w, slots, hist, last):
    """some files have other contents during part of the history, and their own again before the last call"""
    i = w.draw(len(slots))
    alt = gen.alternates(slots[i], sim.path("alt%d" % i))
    what = w.pick([("pred",), ("gt",), ("list",), ("pred", "gt"), ("pred", "gt", "list")])
    pairs = [(a, b) for k, a, b in alt if k in what]
    if not pairs:
        return hist, last
    op = dict(op="swap", seed=0, pairs=pairs)
    if w.chance(3, 4):          # the same evaluation while the files are other ones
        last = ops.draw(sim, sim.root, ["eval"], [slots[i]], nproc_max=2)
        mid = dict(last, nproc=1)
        if w.chance(1, 3):
            mid["sc"] = dict(mid["sc"], thresholds=gen.thresholds(w))
        k = w.draw(len(hist) + 1)
        hist = hist[:k] + [mid] + hist[k:]
    a = 0 if w.chance(2, 3) else w.draw(len(hist))
    b = w.int(a + 1, len(hist))
    sim.count("files_changed")
    return hist[:a] + [op] + hist[a:b] + [op] + hist[b:], last


def history(hist, last):
    ended = []
    for op in hist:
        if op["op"] == "swap":
            ops.do(op)
            continue
        try:
            ops.do(op)
            ended.append("ok")
        except ops.Mutated as e:
            return dict(mutated=str(e), op=op["op"])
        except Exception as e:
            ended.append(type(e).__name__)
    try:
        v = ("ok", ops.do(last))
    except ops.Mutated as e:
        return dict(mutated=str(e), op=last["op"])
    except Exception as e:
        v = ("raised", type(e).__name__, str(e)[:200])
    return dict(value=v, ended=ended, kept=ops.kept_unchanged())


def run(sim):
    w = sim.w
    sim.relative()
    focus = w.pick([KINDS, KINDS, ["eval"], ["edges"], ["match", "nms", "thin", "bounds"]])
    slots = []
    if "eval" in focus:
        ks = w.pick([["bsds"], ["sbd", "reanno"], ["city", "half"], ["otf", "city"], gen.KINDS])
        slots = [gen.scenario(sim, sim.path("d%d" % i), kinds=ks, max_samples=3, cats_max=2) for i in range(w.int(1, 2))]
    n = w.int(1, 5)
    hist = []
    for _ in range(n):
        hist.append(again(w, hist) or ops.draw(sim, sim.root, focus, slots, fail=w.chance(1, 5), nproc_max=3))
    last = dict(again(w, hist, 2) or ops.draw(sim, sim.root, focus, slots, nproc_max=3))
    last.pop("bad", None)
    if slots and w.chance(1, 2):
        hist, last = swaps(sim, w, slots, hist, last)
    fresh = sim.world(history, [], last, sched=True, label="fresh")
    o = sim.world(history, hist, last, sched=True, label="history")
    for op in hist + [last]:
        sim.count("op:" + op["op"])
        if op.get("reuse"):
            sim.count("reused")
    sim.marks.add(tuple((op["op"], op.get("bad"), op.get("how"), op.get("which")) for op in hist + [last]))
    calls = [op for op in hist if op["op"] != "swap"]
    sim.interesting = any(op["op"] != last["op"] or op["seed"] != last["seed"] for op in calls)
    names = [op["op"] + ("!" + op["bad"] if op.get("bad") else "") for op in hist] + [last["op"]]
    sim.sample = [dict(calls=names)]
    if "timeout" in (fresh.kind, o.kind):
        return
    for x, what in ((fresh, "in a fresh process"), (o, "after " + ", ".join(names[:-1]))):
        if x.kind != "ok":
            raise Violation("dies", "%s %s: %s %s" % (last["op"], what, x.kind, x.exc and x.exc[:2]), tb=x.exc and x.exc[2])
        if "mutated" in x.value:
            raise Violation("mutated:" + x.value["op"], x.value["mutated"], calls=names)
        if x.value["kept"]:
            raise Violation("result-changed", "a later call changed an array returned by an earlier one: %s" % names)
    if any(e != "ok" for e in o.value["ended"]):
        sim.count("failed_before")
    sim.count("last_%s:%s" % (fresh.value["value"][0] if fresh.value["value"][0] == "ok" else "raised %s" % (fresh.value["value"][1:],), last["op"]))
    if fresh.value["value"] != o.value["value"]:
        a, b = fresh.value["value"], o.value["value"]
        raise Violation("history:" + last["op"], "%s after %s gives %s, in a fresh process %s" % (
            last["op"], names[:-1], brief(b, a), brief(a, b)), last=last, hist=hist)


def brief(a, b):
    if a[0] != "ok" or b[0] != "ok":
        return str(a)[:300]
    x, y = repr(a), repr(b)
    i = next((i for i, (p, q) in enumerate(zip(x, y)) if p != q), 0)
    return "..." + x[max(0, i - 20):i + 100]
