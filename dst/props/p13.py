"""P13: a boundary matching is valid for every random stream."""
import numpy as np

from .. import gen
from ..simlib import Violation

ID = "P13"
RUNS = {"quick": 8000, "thorough": 60000}
RULE = ("one run = one to six matchings in one process of drawn pairs of edge maps under a drawn random stream (the repository's own, uniform, stuck at "
        "either end, alternating between the ends, constant, or equidistributed), each correspondence checked pixel by pixel and against optimal "
        "assignments computed independently; non-trivial: the matcher drew numbers from the simulated stream")
REAL = ["pyEdgeEval._lib correspond_pixels (Cython, C++: match, kofn, csa, Random)"]
STUB = ["the source of random numbers (erand48)", "clock"]
ASSUMES = ["random numbers reach the matcher through erand48"]
PROBES = ("mode:own", "mode:uniform", "mode:low", "mode:high", "mode:alternating", "mode:middle", "mode:golden", "large", "identical", "one_sided", "empty", "left_over")

MODES = ["own", "uniform", "low", "high", "alternating", "middle", "golden"]


def match(reqs):
    from pyEdgeEval._lib import correspond_pixels
    out = []
    for a, b, d, c in reqs:
        m1, m2, cost, oc = correspond_pixels(a, b, max_dist=d, outlier_cost=c)
        out.append((np.array(m1), np.array(m2), float(cost), float(oc)))
    return out


def pair(w, r, sim):
    big = w.chance(1, 6)
    h, wd = (w.int(24, 60), w.int(24, 60)) if big else (w.int(1, 24), w.int(1, 24))
    how = w.pick(["shifted", "shifted", "noise", "identical", "one_sided", "empty", "sparse", "dense"])
    e = gen.lines(r, h, wd, 8 if big else 3)
    if how == "identical":
        p = e.copy()
    elif how == "one_sided":
        p = gen.lines(r, h, wd, 12)
        if r.rand() < 0.5:
            e, p = p, e
    elif how == "empty":
        p = np.zeros_like(e)
        if r.rand() < 0.5:
            e, p = p, e
    elif how == "noise":
        p, e = r.rand(h, wd) < 0.3, r.rand(h, wd) < 0.2
    elif how == "dense":
        p, e = r.rand(h, wd) < 0.9, r.rand(h, wd) < 0.8
        if big:
            p, e = p & (r.rand(h, wd) < 0.4), e & (r.rand(h, wd) < 0.4)
    elif how == "sparse":
        p, e = r.rand(h, wd) < 0.05, r.rand(h, wd) < 0.05
    else:
        p = gen.prediction(r, e, 0) > 60
    if e.sum() and p.sum():
        sim.count(how)
    if how == "empty":
        sim.count("empty")
    if big:
        sim.count("large")
    return p, e


def judge(p, e, d, c, got, uniform, sim):
    """'' or (key, what is wrong)"""
    from scipy.optimize import linear_sum_assignment
    from scipy.sparse import coo_matrix
    from scipy.sparse.csgraph import maximum_bipartite_matching
    m1, m2, cost, oc = got
    h, w = p.shape
    tol = d * np.sqrt(h * h + w * w)
    if abs(oc - c * tol) > 1e-9 * max(1, oc):
        return "outlier-cost", "the returned outlier cost is %r, not %r" % (oc, c * tol)
    if m1.shape != p.shape or m2.shape != p.shape:
        return "shape", "maps of shape %s and %s for %s" % (m1.shape, m2.shape, p.shape)
    pairs = {}
    for m, here, there, what in ((m1, p, e, "first"), (m2, e, p, "second")):
        for y, x in zip(*np.nonzero(m)):
            v = m[y, x]
            if v != int(v) or not 1 <= v <= h * w:
                return "range", "the %s map holds %r at (%d, %d)" % (what, v, y, x)
            if not here[y, x]:
                return "not-an-edge", "the %s map matches (%d, %d), which is no edge pixel" % (what, y, x)
            x2, y2 = divmod(int(v) - 1, h)
            if not there[y2, x2]:
                return "not-an-edge", "the %s map matches (%d, %d) with (%d, %d), which is no edge pixel" % (what, y, x, y2, x2)
            if (y - y2) ** 2 + (x - x2) ** 2 > tol * tol * (1 + 1e-9) + 1e-9:
                return "too-far", "(%d, %d) and (%d, %d) are farther apart than %.4f" % (y, x, y2, x2, tol)
            q = ((y, x), (y2, x2)) if what == "first" else ((y2, x2), (y, x))
            pairs.setdefault(q, []).append(what)
    if any(len(v) != 2 for v in pairs.values()):
        q = next(q for q, v in pairs.items() if len(v) != 2)
        return "not-mutual", "%s is only recorded in the %s map" % (q, pairs[q][0])
    left, right = [a for a, b in pairs], [b for a, b in pairs]
    if len(set(left)) != len(left) or len(set(right)) != len(right):
        return "not-one-to-one", "a pixel is matched twice"
    # what could be matched
    P, E = np.argwhere(p), np.argwhere(e)
    D2 = ((P[:, None, :] - E[None, :, :]) ** 2).sum(2) if len(P) and len(E) else np.zeros((len(P), len(E)))
    ok = D2 <= tol * tol
    n = len(pairs)
    dist = sum(np.hypot(a[0] - b[0], a[1] - b[1]) for a, b in pairs)
    # distances that equal the tolerance up to rounding may fall on either side
    if not (D2 <= tol * tol * (1 + 1e-9)).any():
        want = 0.0
    else:
        want = oc * (len(P) + len(E) - 2 * n) + dist
    if abs(cost - want) > 1e-6 * max(1, abs(want)):
        if not (cost == 0 and not ok.any()):
            return "cost", "cost %r returned for a correspondence that costs %r (%d pairs of %d and %d pixels)" % (cost, want, n, len(P), len(E))
    if n:
        pi = {tuple(a): i for i, a in enumerate(P)}
        ei = {tuple(b): i for i, b in enumerate(E)}
        sub = D2[np.ix_([pi[a] for a in left], [ei[b] for b in right])].astype(float)
        cst = np.where(sub <= tol * tol * (1 + 1e-9), np.sqrt(sub), 1e6)
        i, j = linear_sum_assignment(cst)
        best = cst[i, j].sum()
        if dist > best + 0.011 * n + 1e-6:
            return "not-closest", "the %d pairs are %.3f apart in total; the same pixels can be paired at %.3f" % (n, dist, best)
    if ok.any():
        i, j = np.nonzero(ok)
        full = int((maximum_bipartite_matching(coo_matrix((np.ones(len(i)), (i, j)), shape=ok.shape).tocsr()) >= 0).sum())
        sim.count("possible_pairs", full)
        sim.count("made_pairs", n)
        if n < full:
            sim.count("left_over")
        if uniform and c >= 100 and n < full - 4 - 0.05 * full:
            return "too-few", "%d pairs where %d are possible (%d and %d pixels)" % (n, full, len(P), len(E))
    return ""


def run(sim):
    w, f = sim.w, sim.f
    r = gen.rng(w)
    reqs = []
    for _ in range(w.int(1, 6)):
        p, e = pair(w, r, sim)
        d = w.pick([0.05, 0.0075, 0.1, 0.02, 0.3, 0.5])
        c = w.pick([100.0, 5.0, 1.5, 1000.0])
        dt = w.pick(["bool", "uint8", "float64", "float32"])
        reqs.append((p.astype(dt), e.astype(w.pick(["uint8", "bool", "float64"])), d, c))
    mode = f.draw(len(MODES))
    o = sim.world(match, reqs, rand=(mode, f.draw(1 << 30)), label=MODES[mode])
    sim.count("mode:" + MODES[mode])
    sim.count("random_numbers", o.rand_calls)
    if mode and o.rand_calls:
        sim.count("fault:RANDOM_STREAM_%s" % MODES[mode])
    sim.interesting = bool(o.rand_calls) or (mode == 0)
    sim.marks.add((mode, tuple((a.shape, int((a > 0).sum()), int((b > 0).sum()), d) for a, b, d, c in reqs)))
    sim.sample = [dict(stream=MODES[mode], numbers=o.rand_calls, matchings=["%s %d/%d px, max_dist %g, outlier cost %g" % (
        a.shape, (a > 0).sum(), (b > 0).sum(), d, c) for a, b, d, c in reqs])]
    if o.kind == "timeout":
        return
    if o.kind != "ok":
        raise Violation("dies:" + o.kind, "%s under the %s stream: %s %s" % (sim.sample, MODES[mode], o.kind, o.exc and o.exc[:2]), tb=o.exc and o.exc[2])
    for q, ((a, b, d, c), got) in enumerate(zip(reqs, o.value)):
        bad = judge(a > 0, b > 0, d, c, got, MODES[mode] in ("own", "uniform"), sim)
        if bad:
            raise Violation(bad[0], "matching %d of %d under the %s stream (max_dist %g, outlier cost %g): %s" % (q + 1, len(reqs), MODES[mode], d, c, bad[1]))
