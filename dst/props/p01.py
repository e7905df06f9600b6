"""P01: an evaluation is a function of its inputs only."""
from .. import gen
from ..simlib import Violation, diff_snap, EPOCH

ID = "P01"
RUNS = {"quick": 2000, "thorough": 20000}
RULE = ("one run = the same drawn evaluation executed in two (sometimes three) fresh processes that differ in worker count, "
        "interleaving, clock, entropy, random-generator state, string-hash seed, environment, working directory and "
        "directory order; returned metrics and saved files must be identical; non-trivial: the second differs in schedule or hash seed")
REAL = ["evaluators, loaders, pooling, saving, helpers", "matcher and its random generator, thinning, suppression (C++/Cython)",
        "module initialisation (the package is imported afresh in every process)", "multiprocessing.pool with forked workers"]
STUB = ["clock", "entropy (getrandom, process ids are real)", "directory order", "pool handler threads and queues"]
ASSUMES = ["fork start method", "per-image lines compared as a set where the sample list comes from a directory listing"]
PREIMPORT = False
PROBES = ("relative_paths", "parallel", "hashseed", "kind:", "clockjump", "fault:CLOCK_JUMP")


def canon(files, unordered):
    out = dict(files)
    if unordered:
        for k in out:
            if k.endswith("eval_bdry_img.txt"):
                out[k] = b"\n".join(sorted(out[k].split(b"\n")))
    return out


def observe(o, out, unordered):
    if o.kind == "ok":
        return ("ok", repr(o.value)), canon(gen.results(out), unordered)
    return ("exc",) + tuple(o.exc[:2]), {}


def run(sim):
    w, s = sim.w, sim.s
    sc = gen.scenario(sim, sim.root, kinds=["bsds", "bsds", "sbd", "city", "half", "otf", "reanno"], max_samples=4, cats_max=2)
    unordered = sc.kind == "bsds" and sc.explicit is None
    what = "%s evaluation (%s, %r)" % (sc.kind, sc.api, dict(sc.params, thin=sc.thin))
    sim.count("kind:" + sc.kind)
    base = sim.world(gen.evaluate, sc.call(), sim.path("o0", "res"), 1, label="serial")
    if base.kind == "timeout":
        return
    ref, rfiles = observe(base, sim.path("o0", "res"), unordered)
    if base.kind != "ok":
        sim.count("baseline_failed")         # P04 decides whether it may
    for k in range(1, 2 + (1 if w.chance(1, 4) else 0)):
        nproc = w.pick([2, 1, 3, 4, 5])
        kw = dict(sched=nproc > 1)
        diff = ["nproc=%d" % nproc]
        if s.chance(1, 3):
            kw["hashseed"] = s.pick([1, 77])
            diff.append("hash seed %d" % kw["hashseed"])
            sim.count("hashseed")
        if s.chance(1, 2):
            kw["dir_seed"] = s.draw(1 << 16)
            diff.append("directory order")
        if s.chance(1, 2):
            kw["pyseed"], kw["npseed"] = s.draw(1 << 20), s.draw(1 << 20)
            kw["rnd_seed"] = 1 + s.draw(1 << 20)
            diff.append("random state")
        if s.chance(1, 2):
            kw["now"] = EPOCH + s.pick([-10 ** 9, 10 ** 8, 3 * 10 ** 7, 86399]) * 10 ** 9
            kw["tick"] = s.pick([1000, 0, 10 ** 9, 7])
            diff.append("clock")
        if s.chance(1, 2):
            kw["jumps"] = [(s.draw(60), s.pick([-7200, 10 ** 6, 0.5, -1]) * 10 ** 9) for _ in range(s.int(1, 3))]
            kw["jumps"] = sorted((a, int(d)) for a, d in kw["jumps"])
            diff.append("clock jumps %r" % kw["jumps"])
            sim.count("clockjump")
        if s.chance(1, 2):
            kw["environ"] = {"USER": "u%d" % s.draw(9), "HOME": "/", "COLUMNS": str(s.pick([20, 300])), "TZ": s.pick(["Asia/Tokyo", "UTC+7"]),
                             "OMP_NUM_THREADS": "3", "PYTHONHASHSEED": str(s.draw(9))}
            diff.append("environment")
        at = s.pick(["", "/", "", "relative"])
        if at == "/":
            kw["cwd"] = "/"
            diff.append("cwd")
        elif at:
            sim.rel = True
            sim.count("relative_paths")
            diff.append("relative paths")
        if nproc > 1:
            sim.count("parallel")
        out = sim.path("o%d" % k, "res")
        o = sim.world(gen.evaluate, sc.call(), out, nproc, label="variant", **kw)
        sim.rel = False
        if o.kind == "timeout":
            return
        got, files = observe(o, out, unordered)
        sim.marks.add((sc.kind, sc.api, len(sc.names), nproc, tuple(sorted(kw))))
        sim.interesting = sim.interesting or nproc > 1 or "hashseed" in kw
        if got != ref:
            raise Violation("differs", "%s: %s gives %s, serial gave %s" % (what, ", ".join(diff), got, ref), trace=o.trace, tb=o.exc and o.exc[2])
        d = diff_snap(rfiles, files)
        if d:
            raise Violation("files-differ", "%s: with %s the saved files differ: %s" % (what, ", ".join(diff), d), trace=o.trace)
    sim.sample = [dict(sc.brief(), variant=diff)]
