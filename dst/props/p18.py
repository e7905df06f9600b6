"""P18: a failed or interrupted call leaves the process usable."""
import gc
import logging
import os
import signal
import sys

import cv2
import numpy as np

from .. import conv, faults, gen, ops, simlib
from ..simlib import A, K, Violation, W, snapshot

ID = "P18"
RUNS = {"quick": 4000, "thorough": 20000}
RULE = ("one run = one process making a drawn call (edge extraction, metric pooling, boundary evaluation, dataset evaluation or conversion, serial or with "
        "workers) into which a KeyboardInterrupt or MemoryError is injected (up to six times, in as many calls) at a drawn point of the package where the interpreter looks for signals (function start, return of a C call; in the parent or a worker) or at a drawn "
        "scheduling step, and then one to three further calls, whose results are compared with a fresh process; workers, descriptors, signal handlers and process-wide settings (directory, streams, collector, numpy's errors ...) are looked at after "
        "the exception; non-trivial: the exception was delivered")
REAL = ["all of pyEdgeEval reached by these calls", "multiprocessing.pool with forked workers, terminate and finalizers", "Python's exception handling and reference counting"]
STUB = ["pool handler threads and queues", "delivery of the signal (at the interpreter's own check points in the package, and at scheduling steps)", "clock"]
ASSUMES = ["Ctrl-C that reaches a worker reaches the parent too (same process group)", "fork start method", "third-party libraries are not interrupted inside"]
PROBES = ("raised:KeyboardInterrupt", "raised:MemoryError", "op:edges", "op:metrics", "op:eval", "op:convert", "op:bounds", "hit:parent", "hit:worker", "hit:wait", "again", "several", "file_error", "relative_paths")


def outputs(t):
    d = t["cfg"].get("proc_dirname") or t["cfg"]["out"]
    return {k: v for k, v in snapshot(t["root"]).items() if v is not None and (k.startswith((d + "/", "splits/")) or k == "reanno_val.txt")}


def clean(t):
    import shutil
    for x in ("splits", "reanno_val.txt", t["cfg"].get("proc_dirname") or t["cfg"]["out"]):
        p = os.path.join(t["root"], x)
        if os.path.isdir(p):
            shutil.rmtree(p)
        elif os.path.exists(p):
            os.unlink(p)


def do(op):
    if op["op"] != "convert":
        return ops.do(op)
    conv.convert(op["kind"], op["root"], op["cfg"], op["nproc"])
    return ops.freeze(outputs(op))


def warm(op):
    """import what the call imports, so that no import is interrupted"""
    import pyEdgeEval.edge_tools.transforms  # noqa: F401
    import pyEdgeEval.helpers.convert_cityscapes  # noqa: F401
    import pyEdgeEval.helpers.convert_sbd  # noqa: F401
    import pyEdgeEval.helpers.evaluate_bsds500  # noqa: F401
    import pyEdgeEval.helpers.evaluate_cityscapes  # noqa: F401
    import pyEdgeEval.helpers.evaluate_sbd  # noqa: F401
    import pyEdgeEval.evaluators.half_cityscapes  # noqa: F401
    import pyEdgeEval.evaluators.otf_cityscapes  # noqa: F401
    import pyEdgeEval.evaluators.sbd  # noqa: F401


def open_files(root):
    out = []
    for n in os.listdir("/proc/self/fd"):
        try:
            p = os.readlink("/proc/self/fd/" + n)
        except OSError:
            continue
        if p.startswith(root) and not p.endswith(".log"):
            out.append(p[len(root):])
    return sorted(out)


def outcome(op):
    try:
        return "ok", do(op)
    except (Exception, KeyboardInterrupt) as e:
        return "raised", type(e).__name__, str(e)[:200]


def scene(op, attempts, later, root):
    """the call, disturbed once per attempt, and then later calls"""
    root = os.path.abspath(root) + "/"
    warm(op)
    collector()
    signal.signal(signal.SIGTERM, _told)
    signal.signal(signal.SIGUSR1, _told)
    tried = []
    was = settings()
    for att in attempts:
        if op["op"] == "convert":
            clean(op)
        before, steps, n, i = ops.kept_unchanged(), W.steps, len(W.interrupted), None
        if att and att[0] == "step":
            W.interrupts = {steps + att[1]: "KeyboardInterrupt"}
        elif att and att[0] == "file":
            i = W.ctl.add_plan(att[4], att[1], att[2], att[3])
        elif att:
            i = W.ctl.add_plan(K["LINE"], att[1], A["RAISE"], att[2])
        simlib.signals_on()
        got = outcome(op)
        simlib.lines_off()
        W.interrupts = {}
        gc.collect()
        where = ""
        if i is not None:
            p = W.ctl.plans()[i]
            where = "" if not p[4] else "worker" if p[5] else "parent"
            if not p[4]:
                W.ctl.cancel_plan(i)
        elif len(W.interrupted) > n:
            where = "wait"
        W.flag[0] = 0
        tried.append(dict(got=got, where=where, steps=W.steps - steps, left=len(W.live), fds=open_files(root), kept=ops.kept_unchanged() - before,
                          changed=sorted(k for k, x in settings().items() if x != was[k])))
        if tried[-1]["left"] or tried[-1]["fds"]:
            break
    res = []
    for o in later:
        if o["op"] == "convert":
            clean(o)
        res.append(outcome(o))
    return dict(tried=tried, later=res, kept=ops.kept_unchanged())


def _told(num, frame):
    """the caller's own handler: the process ends as if there was none"""
    signal.signal(num, signal.SIG_DFL)
    os.kill(os.getpid(), num)


def collector():
    """the simulator keeps the cyclic collector off; the calls see a switch of their own"""
    on = [True]
    gc.enable = lambda: on.__setitem__(0, True)
    gc.disable = lambda: on.__setitem__(0, False)
    gc.isenabled = lambda: on[0]


def settings():
    """what the whole process shares and a call may change for a while"""
    mask = os.umask(0o22)
    os.umask(mask)
    d = dict(cwd=os.getcwd(), umask=mask, gc=gc.isenabled(), recursion=sys.getrecursionlimit(), switch=sys.getswitchinterval(), numpy=np.geterr(), stdout=sys.stdout,
             stderr=sys.stderr, mask=sorted(signal.pthread_sigmask(signal.SIG_BLOCK, ())), logging=logging.root.manager.disable, trace=sys.gettrace(), profile=sys.getprofile(),
             excepthook=sys.excepthook, opencv=cv2.useOptimized())
    for x in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGUSR1, signal.SIGCHLD, signal.SIGPIPE, signal.SIGHUP):
        d[x.name] = signal.getsignal(x)
    return d


def fresh(op):
    warm(op)
    if op["op"] == "convert":
        clean(op)
    return outcome(op)


def pick_point(f, a):
    """a point of the undisturbed run: mostly a place in the code first, then one of the times it was passed"""
    if not a.sites or f.chance(1, 4):
        return f.draw(max(1, a.kcount[K["LINE"]]))
    at = {}
    for i, x in enumerate(a.sites):
        at.setdefault(x, []).append(i)
    times = at[f.pick(list(at))]
    return f.pick(times)


def run(sim):
    w, f = sim.w, sim.f
    sim.relative(3)
    kind = w.pick(["eval", "eval", "edges", "edges", "metrics", "convert", "convert", "bounds"])
    slots, tree = [], None
    if kind == "eval":
        slots = [gen.scenario(sim, sim.path("d%d" % i), max_samples=3, cats_max=2) for i in range(w.int(1, 2))]
    if kind == "convert":
        t = conv.city_tree(sim, max_images=1) if w.chance(1, 2) else conv.sbd_tree(sim, max_samples=1)
        tree = dict(op="convert", kind=t.kind, root=t.root, cfg=t.cfg, nproc=w.pick([2, 1, 1, 3]))
    others = ["edges", "metrics", "bounds", "match", "nms", "thin", "caller", "caller"] + (["eval", "eval"] if slots else [])

    def draw(kinds):
        o = dict(tree) if kinds == ["convert"] else ops.draw(sim, sim.root, kinds, slots, nproc_max=3)
        if o.get("how") == "loop" and kind == "edges" and w.chance(1, 2):
            o["how"] = "mp"
        return o

    op = draw([kind])
    later = []
    for _ in range(w.int(1, 3)):
        if w.chance(1, 2):
            later.append(dict(op))
            sim.count("again")
        else:
            later.append(draw(others))
    sim.count("op:" + op["op"])
    a = sim.world(scene, op, [None], [], sim.root, sched=True, timeout=120, label="undisturbed", sites=True)
    if a.kind == "timeout":
        return
    if a.kind != "ok":
        raise Violation("dies", "%s: %s %s" % (op["op"], a.kind, a.exc and a.exc[:2]), tb=a.exc and a.exc[2])
    undisturbed = a.value["tried"][0]
    if op["op"] == "convert":
        clean(op)
    attempts = []
    for _ in range(f.pick([1, 1, 2, 4, 6])):
        if undisturbed["steps"] and f.chance(1, 3):
            attempts.append(("step", 1 + f.draw(undisturbed["steps"])))
        elif op["op"] in ("eval", "convert") and f.chance(1, 4):
            plan = faults.one(f, a.kcount, faults.READ_SIDE + faults.WRITE_SIDE)
            attempts.append(("file",) + tuple(plan[0][1:]) + tuple(plan[0][:1]) if plan else None)
        else:
            attempts.append(("point", pick_point(f, a), f.pick([1, 2])))
    o = sim.world(scene, op, attempts, later, sim.root, sched=True, timeout=120, label="disturbed")
    if o.kind == "timeout":
        return
    what = "%s (nproc=%s)" % (op["op"] + ":" + str(op.get("how") or op.get("kind") or op.get("which") or (op.get("sc") or {}).get("kind")), op.get("nproc", 1))
    if o.kind != "ok":
        raise Violation(o.kind, "%s disturbed at %s: %s %s" % (what, attempts, o.kind, o.exc and o.exc[:2]), tb=o.exc and o.exc[2], trace=o.trace)
    v = o.value
    story = []
    for att, t in zip(attempts, v["tried"]):
        struck = bool(t["where"])
        sim.interesting = sim.interesting or struck
        sim.count("attempts")
        if struck:
            sim.count("hit:" + t["where"])
        sim.count("raised:" + t["got"][1] if t["got"][0] == "raised" else "finished")
        if att and att[0] == "file":
            sim.count("file_error", struck)
        story.append("%s %s, in %s: %s" % (att[0] if att else "no fault", att[1:2] if att else "", t["where"] or "nothing", t["got"][1:3] if t["got"][0] == "raised" else "returned"))
        tale = "%s disturbed at %s" % (what, "; ".join(story))
        if t["left"]:
            raise Violation("workers-left", "%s left %d worker processes" % (tale, t["left"]), trace=o.trace)
        if t["fds"]:
            raise Violation("files-open", "%s left files open: %s" % (tale, t["fds"][:4]))
        changed = [x for x in t["changed"] if x not in undisturbed["changed"]]
        if changed:
            raise Violation("settings", "after %s the process-wide %s are not as before" % (tale, ", ".join(changed)))
        if t["kept"]:
            raise Violation("result-changed", "after %s an earlier result changed" % tale)
        if t["got"][0] == "ok" and (not att or att[0] != "file") and t["got"] != undisturbed["got"]:
            raise Violation("swallowed", "%s: the exception vanished and the result is wrong" % tale, trace=o.trace)
        if not struck and t["got"] != undisturbed["got"]:
            raise Violation("unusable:" + op["op"], "%s (undisturbed this time) gives %s, at first %s" % (tale, str(t["got"])[:300], str(undisturbed["got"])[:300]), trace=o.trace)
    if len(attempts) > 1:
        sim.count("several")
    sim.marks.add((what, tuple(attempts), tuple(x["op"] for x in later), tuple(t["got"][1] if t["got"][0] == "raised" else "ok" for t in v["tried"])))
    sim.sample = [dict(call=what, story=story, later=[x["op"] for x in later])]
    if v["kept"]:
        raise Violation("result-changed", "after %s an earlier result changed" % tale)
    for x, got in zip(later, v["later"]):
        r = sim.world(fresh, x, sched=True, timeout=120, label="fresh " + x["op"])
        if r.kind == "timeout":
            return
        if r.kind != "ok":
            raise Violation("dies", "%s in a fresh process: %s %s" % (x["op"], r.kind, r.exc and r.exc[:2]), tb=r.exc and r.exc[2])
        if r.value != got:
            raise Violation("unusable:" + x["op"], "%s after %s gives %s, in a fresh process %s" % (x["op"], tale, str(got)[:300], str(r.value)[:300]), later=[y["op"] for y in later])
