"""P04: metrics pool every sample once, each against its own ground truth (refinement of an independent model)."""
from .. import gen, oracles
from ..simlib import Violation

ID = "P04"
RUNS = {"quick": 3000, "thorough": 20000}
RULE = ("one run = one dataset tree with predictions (six evaluators, drawn sizes, options, thresholds, categories, split "
        "listing, entry point) evaluated under a drawn worker count and interleaving and compared, sample by sample, with "
        "a reference computed from the generated arrays; non-trivial: several samples or several workers")
REAL = ["evaluators, dataset loaders, metric pooling, saving, command-line helpers", "matcher, thinning, suppression (C++/Cython)",
        "multiprocessing.pool with forked workers"]
STUB = ["pool handler threads and queues (scheduler-driven)", "clock", "directory order"]
ASSUMES = ["the reference model uses the tree's own matcher, thinning and suppression kernels as leaf functions",
           "fork start method"]
PROBES = ("kind:bsds", "kind:sbd", "kind:reanno", "kind:city", "kind:half", "kind:otf", "api:cli", "api:category", "parallel")


def run(sim):
    w = sim.w
    sc = gen.scenario(sim, sim.root)
    nproc = w.pick([1, 2, 3, 4, 1, 2])
    with_save = sc.api != "category" or w.chance(1, 2)
    saved = sim.path("out", "results")
    cnt, thr = oracles.counts(sim, sc)
    dir_seed = sim.s.draw(1 << 16) if sim.s.chance(1, 2) else 0
    o = sim.world(gen.evaluate, sc.call(), saved if with_save else None, nproc, sched=nproc > 1, dir_seed=dir_seed, label="evaluation")
    sim.count("kind:" + sc.kind)
    sim.count("api:" + sc.api)
    if nproc > 1:
        sim.count("parallel")
    sim.marks.add((sc.kind, sc.api, len(sc.names), str(sc.thresholds), str(sc.categories), nproc))
    sim.interesting = len(sc.names) > 1 or nproc > 1
    sim.sample = [dict(sc.brief(), nproc=nproc)]
    what = "%s evaluation (%s, nproc=%d, %r)" % (sc.kind, sc.api, nproc, dict(sc.params, thin=sc.thin))
    if o.kind == "timeout":
        return
    if o.kind != "ok":
        raise Violation("fails:" + (o.exc[0] if o.exc else o.kind), "%s: %s %s" % (what, o.kind, o.exc and o.exc[:2]),
                        tb=o.exc and o.exc[2], trace=o.trace)
    m = oracles.check_all(sc, cnt, thr, o.value, gen.results(saved) if with_save else None)
    if m:
        raise Violation("metrics", "%s: %s" % (what, m), trace=o.trace, names=sc.names)
