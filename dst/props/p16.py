"""P16: batch suppression leaves one right output per input, also after a crash."""
import io
import os

import numpy as np
from PIL import Image

from .. import faults, gen
from ..simlib import Violation, diff_snap, snapshot

ID = "P16"
RUNS = {"quick": 5000, "thorough": 40000}
RULE = ("one run = a batch suppression of a drawn set of inputs in one of the two layouts, run one to four times over the same directories, each time "
        "undisturbed, killed at a drawn file operation or with a failing one, and finally once undisturbed; after every step the outputs are compared with the "
        "suppression of each input alone; non-trivial: a kill or a fault fired")
REAL = ["pyEdgeEval.preprocess.nms (Python, Cython, C)", "cv2/numpy/scipy encoders and loaders", "Python file objects"]
STUB = ["process death", "failing file operations", "directory order", "clock"]
ASSUMES = ["a kill loses no completed write", "inputs have different stems"]
PROBES = ("relative_paths", "killed", "fault:ERRNO@WRITE", "fault:TORN@WRITE", "fault:ERRNO@OPEN_W", "layout:all", "layout:plain", "raised", "kept_old", "repaired")

NAMES = ["a", "b.c", "im 1", "2008_1", "x_nms", "zz", "k"]
CLOSE = ["a", "A", " a", "a.b", "a_b", "a b", "a.B", "a-b", "0a", "a0"]      # names a careless rewriting would take for one


def loader_npy(p):
    return np.load(p)


def loader_mat(p):
    from scipy.io import loadmat
    return loadmat(p)["edge"]


def alone(imgs):
    from pyEdgeEval.preprocess import fast_nms
    return [fast_nms(i.copy(), r=1, s=5, m=1.01, return_as_uint8=True) for i in imgs]


def batch(p):
    from pyEdgeEval.preprocess.nms import fast_nms as m
    import sys
    m = sys.modules["pyEdgeEval.preprocess.nms.fast_nms"]
    if p["layout"] == "plain":
        m.nms_results(p["src"], p["dst"], loader_npy if p["fmt"] == ".npy" else loader_mat)
    else:
        m.nms_all_results(p["models"], p["src"], p["dst"], key="edge" if p["fmt"] == ".mat" else None, file_format=p["fmt"])


def run(sim):
    w, f = sim.w, sim.f
    sim.relative()
    p = dict(layout=w.pick(["plain", "all"]), fmt=w.pick([".npy", ".mat"]), src=sim.dir("in"), dst=sim.path("save", "here"))
    p["models"] = w.pick([["m1"], ["m1", "m two"], "solo"])
    models = [""] if p["layout"] == "plain" else p["models"] if isinstance(p["models"], list) else [p["models"]]
    n = w.int(1, 5)
    r = gen.rng(w)
    k = w.draw(len(CLOSE))
    names = NAMES if w.chance(2, 3) else CLOSE[k:] + CLOSE[:k]
    imgs = {}
    for i in range(n):
        h, wd = w.int(8, 30), w.int(8, 30)
        a = gen.prediction(r, gen.lines(r, h, wd, 4), 0)
        dt = w.pick(["float64", "float32", "uint8"])
        a = a if dt == "uint8" else (a / 255).astype(dt)
        imgs[names[i]] = a
        path = os.path.join(p["src"], names[i] + p["fmt"])
        if p["fmt"] == ".npy":
            np.save(path, a)
        else:
            from scipy.io import savemat
            savemat(path, {"edge": a, "other": np.ones(3)})
    if p["layout"] == "all" and w.chance(1, 3):
        open(os.path.join(p["src"], "notes.txt"), "w").write("not a result")
    finals = {os.path.join(m, s + ".png"): s for m in models for s in imgs}
    ref = sim.world(alone, list(imgs.values()), label="alone")
    if ref.kind != "ok":
        raise RuntimeError("alone: %s %s" % (ref.kind, ref.exc))
    want = dict(zip(imgs, ref.value))
    fixed = {}
    if w.chance(1, 3):                 # outputs that were there before
        for k in list(finals)[: w.int(1, len(finals))]:
            d = os.path.join(p["dst"], k)
            os.makedirs(os.path.dirname(d), exist_ok=True)
            Image.fromarray(np.full((3, 3), 7, np.uint8)).save(d)
            fixed[k] = open(d, "rb").read()
        sim.count("kept_old")
    old = set(fixed)
    sim.count("layout:" + p["layout"])
    before = snapshot(p["src"])
    story = []
    clean = True

    def judge(complete):
        have = snapshot(p["dst"]) if os.path.isdir(p["dst"]) else {}
        for k, s in finals.items():
            if k not in have:
                if k in fixed:
                    raise Violation("removed", "%s is gone after %s" % (k, story))
                if complete:
                    raise Violation("missing", "no output %s after %s" % (k, story))
                continue
            if k in fixed:
                if have[k] != fixed[k]:
                    raise Violation("rewritten", "%s, complete before, was changed by %s" % (k, story))
                continue
            bad = ""
            try:
                im = Image.open(io.BytesIO(have[k]))
                im.load()
                a = np.array(im)
            except Exception as e:
                bad = "cannot be read: %r" % (e,)
            else:
                if a.shape != want[s].shape or not np.array_equal(a, want[s]):
                    bad = "is not the suppression of its input (%s, %s)" % (a.shape, want[s].shape)
            if bad:
                raise Violation("damaged", "%s (%d bytes) %s after %s" % (k, len(have[k]), bad, story))
            fixed[k] = have[k]
        if complete and clean:
            extra = [k for k in have if have[k] is not None and k not in finals]
            if extra:
                raise Violation("extra", "unexpected files %s after %s" % (extra, story))
        d = diff_snap(before, snapshot(p["src"]))
        if d:
            raise Violation("inputs-changed", "%s after %s" % (d, story))

    for step in range(w.pick([1, 1, 2, 3])):
        dry = sim.world(batch, dict(p, dst=sim.path("dry%d" % step)), label="undisturbed")
        if dry.kind != "ok":
            if dry.kind == "timeout":
                return
            raise Violation("fails", "%s: %s" % (dry.kind, dry.exc and dry.exc[:2]), tb=dry.exc and dry.exc[2])
        how = f.pick(["none", "kill", "fault", "read", "kill", "fault"])
        plan = faults.crash(f, dry.kcount) if how == "kill" else faults.one(f, dry.kcount, faults.WRITE_SIDE, soft=True) if how == "fault" else \
            faults.one(f, dry.kcount, faults.READ_SIDE, soft=True) if how == "read" else []
        o = sim.world(batch, p, plans=plan, dir_seed=sim.s.draw(1 << 16), label=how)
        if o.kind == "timeout":
            return
        story.append("%s %s" % (o.kind, o.fired))
        if o.fired:
            sim.interesting = True
            clean = False
            sim.count({"killed": "killed", "exc": "raised", "ok": "survived"}.get(o.kind, o.kind))
        if o.kind == "exc" and not o.fired or o.kind in ("native", "hang"):
            raise Violation("fails", "%s after %s: %s" % (o.kind, story, o.exc[:2]), tb=o.exc[2])
        judge(o.kind == "ok")
    o = sim.world(batch, p, dir_seed=sim.s.draw(1 << 16), label="rerun")
    if o.kind == "timeout":
        return
    if o.kind != "ok":
        raise Violation("rerun-fails", "after %s: %s %s" % (story, o.kind, o.exc and o.exc[:2]), tb=o.exc and o.exc[2])
    if len(fixed) < len(finals):
        sim.count("repaired")
    story.append("rerun")
    judge(True)
    sim.marks.add((p["layout"], p["fmt"], n, len(models), len(old), tuple(story)))
    sim.sample = [dict(p, images={k: str(v.shape) for k, v in imgs.items()}, story=story)]
