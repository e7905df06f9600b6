"""Earlier content of a save directory: what longer, other or killed evaluations leave there."""
import os
import shutil

from . import faults, gen
from .simlib import snapshot

FILES = ["eval_bdry_img.txt", "eval_bdry_thr.txt", "eval_bdry.txt"]


def variant(sim, sc):
    """another evaluation of the same data: other thresholds, categories, samples, parameters"""
    w = sim.w
    c = sc.call()
    c["thresholds"] = w.pick([7, [0.1, 0.2, 0.3, 0.5, 0.7, 0.8], 4, [0.5]])
    c["params"] = dict(c["params"], max_dist=0.03)
    if sc.kind != "bsds" and w.chance(1, 2):
        c["categories"] = sc.categories[::-1][: w.int(1, len(sc.categories))]
    return c


def make(sim, sc, out, allow_dir=True):
    """fill `out`; returns the names of what was done ('dir' means that a result name is occupied by a directory)"""
    w = sim.w
    how = []
    if w.chance(1, 3):
        return how
    if w.chance(1, 2):
        o = sim.world(gen.evaluate, variant(sim, sc), out, 1, label="earlier")
        how.append("earlier evaluation (%s)" % o.kind)
        if w.chance(1, 2) and o.kind == "ok":
            plan = faults.crash(sim.f, o.kcount)
            sim.world(gen.evaluate, sc.call(), out, 1, plans=plan, label="earlier killed")
            how.append("killed evaluation %r" % plan)
    if w.chance(1, 2):
        names = list(FILES)
        if sc.kind != "bsds":
            names = ["class_%03d/%s" % (c, f) for c in sc.categories for f in FILES] + ["overall_eval_bdry.txt", "results.txt"]
        k = w.int(1, len(names))
        for i in range(k):
            n = names[w.draw(len(names))]
            p = os.path.join(out, n)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            if allow_dir and w.chance(1, 16) and not os.path.exists(p):
                os.mkdir(p)
                how.append("dir " + n)
            elif not os.path.isdir(p):
                with open(p, "wb") as f:
                    f.write(b"0.5 0.5 0.5 0.5 garbage\n" * w.pick([1, 0, 200]))
                how.append("old " + n)
    return how


def relevant(sc, files):
    """drop what belongs to categories that were not evaluated"""
    if sc.kind == "bsds":
        return files
    return {k: v for k, v in files.items() if not k.startswith("class_") or int(k[6:9]) in sc.categories}


def copy(a, b):
    shutil.rmtree(b, ignore_errors=True)
    if os.path.isdir(a):
        shutil.copytree(a, b)
