"""P05: saved results are the returned results, or the evaluation fails."""
from .. import faults, gen, leftover, oracles
from ..simlib import Violation

ID = "P05"
RUNS = {"quick": 2000, "thorough": 25000}
RULE = ("one run = one drawn evaluation into a directory with drawn earlier content, once without and once with failing file operations "
        "(chosen among the operations the first one performed), and a rerun after a failure; what is on disk is compared with a reference "
        "model whenever the evaluation returns; non-trivial: earlier content or a fault fired")
REAL = ["evaluators, pooling, result writers, directory helpers, command-line helpers", "matcher, thinning, suppression", "Python file objects",
        "multiprocessing.pool with forked workers"]
STUB = ["failing file operations (ENOSPC, EIO, EDQUOT, EACCES, EROFS, EMFILE, short writes, EINTR, write-back loss at close)", "pool handler threads", "clock"]
ASSUMES = ["log files are not results: a failed write to a log may be ignored", "fork start method"]
PROBES = ("relative_paths", "fault:ERRNO@WRITE", "fault:ERRNO@OPEN_W", "fault:ERRNO@MKDIR", "fault:ERRNO@CLOSE_W", "raised", "survived", "leftover", "persistent")


def run(sim):
    w, f = sim.w, sim.f
    sim.relative()
    sc = gen.scenario(sim, sim.root, max_samples=4)
    nproc = w.pick([1, 1, 2, 3])
    start = sim.path("start", "res")
    how = leftover.make(sim, sc, start)
    dirs = any(h.startswith("dir ") for h in how)
    cnt, thr = oracles.counts(sim, sc)
    what = "%s evaluation (%s, nproc=%d)" % (sc.kind, sc.api, nproc)
    sim.count("kind:" + sc.kind)
    if how:
        sim.count("leftover")

    def judge(o, out, fired, label):
        """'' when it raised, 'ok' when everything is right"""
        if o.kind == "exc" and (fired or dirs):
            return ""
        if o.kind != "ok":
            raise Violation("fails:" + (o.exc[0] if o.exc else o.kind), "%s, %s, earlier content %s: %s %s" % (what, label, how, o.kind, o.exc and o.exc[:2]),
                            tb=o.exc and o.exc[2], trace=o.trace)
        m = oracles.check_all(sc, cnt, thr, o.value, leftover.relevant(sc, gen.results(out)))
        if m:
            raise Violation("untruthful", "%s, %s, earlier content %s, returned normally but %s" % (what, label, how, m), trace=o.trace)
        return "ok"

    dry, out = sim.path("dry", "res"), sim.path("out", "res")
    leftover.copy(start, dry)
    leftover.copy(start, out)
    a = sim.world(gen.evaluate, sc.call(), dry, nproc, sched=nproc > 1, label="undisturbed")
    if a.kind == "timeout":
        return
    judge(a, dry, [], "undisturbed")
    plan = faults.one(f, a.kcount, faults.WRITE_SIDE, soft=True)
    if f.chance(1, 5):
        plan = (plan + faults.one(f, a.kcount, faults.WRITE_SIDE, soft=True))[:16]
    if len(plan) > 2:
        sim.count("persistent")
    b = sim.world(gen.evaluate, sc.call(), out, nproc, sched=nproc > 1, plans=plan, label="disturbed")
    sim.marks.add((sc.kind, sc.api, len(sc.names), str(sc.categories), tuple(how), tuple(b.fired)))
    sim.interesting = bool(how or b.fired)
    sim.sample = [dict(sc.brief(), nproc=nproc, earlier=how, faults=plan)]
    if b.kind == "timeout":
        return
    r = judge(b, out, b.fired, "with %s" % (b.fired,))
    sim.count("survived" if r and b.fired else "raised" if b.fired else "no_fault")
    if not r:
        c = sim.world(gen.evaluate, sc.call(), out, 1, label="rerun")
        if c.kind != "timeout":
            judge(c, out, [], "rerun after %s raised %s" % (b.fired, b.exc[0]))
