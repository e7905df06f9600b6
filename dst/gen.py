"""Workloads: small dataset trees with predictions, and the calls that evaluate them.

Every scenario is drawn from the run's workload stream; the arrays that were written are kept so that a reference
model can be computed from them without reading anything through the code under test.
"""
import os

import numpy as np
from PIL import Image

SBD_N, CITY_N = 20, 19
LABEL2TRAIN = {7: 0, 8: 1, 11: 2, 12: 3, 13: 4, 17: 5, 19: 6, 20: 7, 21: 8, 22: 9, 23: 10, 24: 11, 25: 12, 26: 13,
               27: 14, 28: 15, 31: 16, 32: 17, 33: 18}
INST_IDS = [24, 25, 26, 27, 28, 31, 32, 33]
NAMES = ["a", "b1", "zz", "im_10", "im_2", "k-9", "2008_000051", "x.y", "c"]


def rng(w):
    return np.random.RandomState(w.draw(1 << 24))


# ---------------------------------------------------------------- arrays
def lines(r, h, w, n):
    e = np.zeros((h, w), bool)
    for _ in range(n):
        y, x = r.randint(h), r.randint(w)
        dy, dx = [(0, 1), (1, 0), (1, 1), (1, -1), (0, -1), (-1, 0)][r.randint(6)]
        for _ in range(r.randint(3, max(4, (h + w) // 2))):
            if 0 <= y < h and 0 <= x < w:
                e[y, x] = True
            y, x = y + dy, x + dx
            if r.rand() < 0.2:
                dy, dx = [(0, 1), (1, 0), (1, 1), (1, -1), (0, -1), (-1, 0)][r.randint(6)]
    return e


def prediction(r, edge, levels):
    """a grey-level prediction that resembles `edge` (shifted, blurred, noisy)"""
    h, w = edge.shape
    p = np.zeros((h, w))
    e = np.roll(np.roll(edge, r.randint(-1, 2), 0), r.randint(-1, 2), 1)
    p[e] = r.randint(60, 256, (h, w))[e]
    q = np.roll(e, 1, r.randint(2)) & ~e
    p[q] = r.randint(0, 140, (h, w))[q]
    n = lines(r, h, w, r.randint(0, 4))
    p[n] = np.maximum(p, r.randint(0, 256, (h, w)))[n]
    keep = r.rand(h, w) < 0.9
    p = p * keep
    if levels:
        step = 256 // levels
        p = (p // step) * step
    elif r.rand() < 0.4:                    # exactly on thresholds: 51 / 255 = 0.2
        p = np.where(r.rand(h, w) < 0.6, np.round(p / 51.0) * 51, p)
    return p.astype(np.uint8)


def inst_numbers(r):
    """numbers of the instances of one class: mostly the first few, now and then with two or three digits"""
    if r.rand() < 0.6:
        return [0, 1, 2]
    return [int(v) for v in r.choice([0, 1, 2, 9, 10, 11, 12, 20, 99, 100, 101, 110, 123, 321, 999], 3, replace=False)]


def blocks(r, h, w, values, n=5):
    m = np.full((h, w), values[0], np.int64)
    for _ in range(n):
        y0, x0 = r.randint(h), r.randint(w)
        y1, x1 = y0 + r.randint(2, max(3, h // 2)), x0 + r.randint(2, max(3, w // 2))
        m[y0:y1, x0:x1] = values[r.randint(len(values))]
    return m


def encode_rgb(edges):
    n, h, w = edges.shape
    v = np.zeros((h, w), np.int64)
    for i in range(n):
        v |= edges[i].astype(np.int64) << i
    return np.stack([(v >> 16) & 255, (v >> 8) & 255, v & 255], 2).astype(np.uint8)


def save_png(path, a, mode=None):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if mode == "16":
        Image.fromarray(a.astype(np.uint16)).save(path)
    else:
        Image.fromarray(a).save(path)


# ---------------------------------------------------------------- scenarios
class Sc:
    """One evaluation: where its files are, how it is configured, and what was written (for the reference model)."""

    def __init__(self, **kw):
        self.__dict__.update(kw)

    def call(self):
        """what goes into the world (no arrays)"""
        return {k: v for k, v in self.__dict__.items() if k != "data"}

    def brief(self):
        c = self.call()
        return {k: c[k] for k in ("kind", "names", "thresholds", "params", "categories", "api", "thin", "split")}


KINDS = ["bsds", "sbd", "city", "half", "otf", "reanno"]


def thresholds(w, small=False):
    t = w.pick([3, [0.5], 2, 1, [0.2, 0.6], [0.1, 0.35, 0.6, 0.9], 5, 0.4, [0.7, 0.3], 9, 4, [0.2, 0.4, 0.6, 0.8], [0.6, 1.0]])
    return t


def scenario(sim, root, kinds=KINDS, max_samples=5, apis=("evaluate", "category", "cli"), options=True, big=False,
             min_samples=1, cats_max=3):
    w = sim.w
    kind = w.pick(list(kinds))
    n = w.int(min_samples, max_samples)
    r = rng(w)
    sc = Sc(kind=kind, root=os.path.join(root, "data"), pred=os.path.join(root, "pred"), data={}, thin=False,
            split="val", suffix=None, gt_dir=None, names=[], explicit=None, split_file=None, no_split_dir=False, api="evaluate")
    sc.thresholds = thresholds(w)
    p = {}
    p["apply_thinning"] = w.chance(1, 2)
    p["apply_nms"] = options and w.chance(1, 6)
    names = list(NAMES)
    for i in range(len(names) - 1, 0, -1):
        j = w.draw(i + 1) if options else i
        names[i], names[j] = names[j], names[i]
    names = names[:n]
    sc.api = w.pick(list(apis))
    sizes = [(w.int(16, 40), w.int(16, 40)) for _ in range(n)]
    if w.chance(1, 2):          # images of one size, as most datasets have
        sizes = sizes[:1] * n
    levels = w.pick([0, 8, 4, 0])
    if kind == "bsds":
        bsds(sc, w, r, p, names, sizes, levels, options)
    elif kind in ("sbd", "reanno"):
        sbd(sc, w, r, p, names, sizes, levels, options, cats_max)
    elif kind in ("city", "half"):
        city(sc, w, r, p, names, sizes, levels, options, cats_max)
    else:
        otf(sc, w, r, p, names, sizes, levels, options, cats_max)
    if sc.api == "cli":
        cli(sc, w)
    return sc


def bsds(sc, w, r, p, names, sizes, levels, options):
    sc.split = w.pick(["test", "val"])
    sc.no_split_dir = options and w.chance(1, 4)
    p["max_dist"] = w.pick([0.0075, 0.05, 0.1, 0.03])
    sc.params = p
    sc.names = [sc.split + "/" + x for x in names]
    from scipy.io import savemat
    for nm, (h, wd) in zip(names, sizes):
        base = lines(r, h, wd, r.randint(2, 6))
        k = r.randint(1, 4)
        gts = []
        cell = np.empty((1, k), dtype=object)
        for i in range(k):
            g = base ^ (lines(r, h, wd, 1) & (r.rand(h, wd) < 0.7))
            if i and r.rand() < 0.15:          # annotators that agree
                g = gts[r.randint(i)].astype(bool)
            elif r.rand() < 0.05:              # one who saw no boundary
                g[:] = False
            gts.append(g.astype(np.uint8))
            rec = np.zeros((1, 1), dtype=[("Segmentation", object), ("Boundaries", object)])
            rec["Segmentation"][0, 0] = np.ones((h, wd), np.uint16)
            rec["Boundaries"][0, 0] = gts[-1]
            cell[0, i] = rec
        d = os.path.join(sc.root, "groundTruth", sc.split)
        os.makedirs(d, exist_ok=True)
        savemat(os.path.join(d, nm + ".mat"), {"groundTruth": cell}, do_compression=bool(r.randint(2)))
        pr = prediction(r, base, levels)
        save_png(os.path.join(sc.pred, "" if sc.no_split_dir else sc.split, nm + ".png"), pr)
        sc.data[sc.split + "/" + nm] = dict(gts=gts, pred=pr)
    # decoys that an evaluation of this split must not look at
    other = "val" if sc.split == "test" else "test"
    if w.chance(1, 3):
        d = os.path.join(sc.root, "groundTruth", other)
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, names[0] + ".mat"), "wb").write(b"not a mat file")
    if w.chance(1, 3):
        open(os.path.join(sc.root, "groundTruth", sc.split, "README.txt"), "w").write("x")
    if options and w.chance(1, 3):
        k = w.int(1, len(sc.names))
        sc.explicit = sc.names[::-1][:k] if w.chance(1, 2) else sc.names[:k]
        sc.names = sc.explicit
    sc.categories = None


def pick_cats(w, n, cats_max):
    k = w.int(1, cats_max)
    cats = []
    for _ in range(k):
        c = w.int(1, n)
        if c not in cats:
            cats.append(c)
    return cats


def pred_files(sc, r, suffix, cats, n, full, edges_of, levels):
    for c in cats:
        for nm, (h, wd) in full.items():
            pr = prediction(r, edges_of(nm, c), levels)
            save_png(os.path.join(sc.pred, "class_%03d" % c, nm + suffix), pr)
            sc.data[nm].setdefault("pred", {})[c] = pr


def sbd(sc, w, r, p, names, sizes, levels, options, cats_max):
    N = SBD_N
    sc.split = "val" if sc.api == "cli" else w.pick(["val", "test"])
    sc.thin = w.chance(1, 2)
    sc.gt_dir = w.pick([None, None, "gtOther"]) if options else None
    sc.suffix = w.pick([None, None, "_p.png"]) if options else None
    p["instance_sensitive"] = w.chance(1, 2)
    if sc.kind == "sbd":
        p["eval_mode"] = w.pick([None, "pre-seal", "post-seal"])
        p["skip_if_nonexistent"] = w.chance(1, 3)
        p["kill_internal"] = w.chance(1, 2)
    p["max_dist"] = w.pick([0.02, 0.05, 0.0075, 0.1])
    p["scale"] = w.pick([1.0, 1.0, 0.5, 0.75]) if options else 1.0
    sc.params = p
    sc.categories = pick_cats(w, N, cats_max)
    pre = "_reanno" if sc.kind == "reanno" else ""
    other = "" if pre else "_reanno"
    d = os.path.join(sc.root, sc.gt_dir or "gtEval")
    full = {}
    for nm, (h, wd) in zip(names, sizes):
        h, wd = h + 6, wd + 6
        full[nm] = (h, wd)
        x = sc.data[nm] = dict(size=(h, wd))
        gt_variants(sc, r, x, d, nm, h, wd, N, ["%s_%s_%s.png" % (pre, a, b) for a in ("raw", "thin") for b in ("edge", "isedge")])
        seg = np.zeros((h, wd), np.int64)
        for _ in range(5):
            y0, x0 = r.randint(h), r.randint(wd)
            v = sc.categories[r.randint(len(sc.categories))] if r.rand() < 0.6 else r.randint(0, N + 1)
            seg[y0:y0 + r.randint(3, h), x0:x0 + r.randint(3, wd)] = v
        x["seg"] = seg.astype(np.uint8)
        save_png(os.path.join(d, nm + "_labelIds.png"), x["seg"])
    key = "%s_%s_%s.png" % (pre, "thin" if sc.thin else "raw", "edge")
    pred_files(sc, r, sc.suffix or ".png", sc.categories, N, full, lambda nm, c: sc.data[nm]["gt"][key][c - 1], levels)
    if sc.suffix:         # a decoy with the default suffix
        for c in sc.categories:
            save_png(os.path.join(sc.pred, "class_%03d" % c, names[0] + ".png"), r.randint(0, 256, full[names[0]]).astype(np.uint8))
    listing(sc, w, names, os.path.join(sc.root, sc.split + ".txt"), options)


def gt_variants(sc, r, x, d, nm, h, wd, N, suffixes):
    base = np.zeros((N, h, wd), bool)
    for c in range(N):
        if (c + 1) in sc.categories and r.rand() < 0.85 or r.rand() < 0.3:
            base[c] = lines(r, h, wd, r.randint(1, 5))
    x["gt"] = {}
    for s in suffixes:
        e = base.copy()
        for c in sc.categories:
            if e[c - 1].any():
                e[c - 1] ^= lines(r, h, wd, 1)
        x["gt"][s] = e
        save_png(os.path.join(d, nm + s), encode_rgb(e))


def listing(sc, w, names, default_file, options):
    order = list(names)
    how = w.pick(["file", "file", "names", "split_file"]) if options and sc.api != "cli" else "file"
    if how == "names":
        sc.explicit = order[: w.int(1, len(order))]
        sc.names = sc.explicit
        listed = names[:1]
    elif how == "split_file":
        sc.split_file = os.path.join(sc.root, "my list.txt")
        with open(sc.split_file, "w") as f:
            f.write("".join(x + "\n" for x in order))
        sc.names = order
        listed = names[:1]
    else:
        sc.names = order
        listed = order
    os.makedirs(os.path.dirname(default_file), exist_ok=True)
    with open(default_file, "w") as f:
        f.write("\n".join(listed) + ("\n" if w.chance(1, 2) else ""))


def city_name(r, names, rel, i):
    """<city>/<name>; the same name may occur in both cities"""
    cities = ["aachen", "bonn"]
    c = cities[r.randint(2)]
    if i and r.rand() < 0.35:
        other, nm = rel[r.randint(i)].split("/")
        nm = cities[1 - cities.index(other)] + "/" + nm
        if nm not in rel:
            return nm
    return c + "/" + names[i]


def city(sc, w, r, p, names, sizes, levels, options, cats_max):
    N = CITY_N
    sc.split = "val" if sc.api == "cli" else w.pick(["val", "test"])
    sc.thin = w.chance(1, 2)
    sc.gt_dir = w.pick([None, None, "gtOther"]) if options else None
    sc.suffix = w.pick([None, None, ".png"]) if options and sc.api != "cli" else None
    p["eval_mode"] = w.pick([None, "pre-seal", "post-seal"])
    p["instance_sensitive"] = w.chance(1, 2) if p["eval_mode"] != "pre-seal" else False
    p["skip_if_nonexistent"] = w.chance(1, 3)
    p["kill_internal"] = w.chance(1, 2)
    p["max_dist"] = w.pick([0.0035, 0.05, 0.02, 0.1])
    if sc.kind == "city":
        p["scale"] = w.pick([0.5, 1.0, 0.75])
    sc.params = p
    sc.categories = pick_cats(w, N, cats_max)
    half = "_half" if sc.kind == "half" else ""
    d = os.path.join(sc.root, sc.gt_dir or "gtEval", sc.split)
    full = {}
    rel = []
    for i, (nm, (h, wd)) in enumerate(zip(names, sizes)):
        nm = city_name(r, names, rel, i)
        rel.append(nm)
        full[nm] = (h, wd)
        x = sc.data[nm] = dict(size=(h, wd))
        gt_variants(sc, r, x, d, nm, h, wd, N,
                    ["_gtProc%s_%s_%s.png" % (half, a, b) for a in ("raw", "thin") for b in ("edge", "isedge")])
        other = "" if half else "_half"
        for a in ("raw", "thin"):
            for b in ("edge", "isedge"):       # decoys of the other resolution
                save_png(os.path.join(d, nm + "_gtProc%s_%s_%s.png" % (other, a, b)), r.randint(0, 256, (h, wd, 3)).astype(np.uint8))
        x["seg"] = blocks(r, h, wd, [255] + [c - 1 for c in sc.categories] + [r.randint(N)]).astype(np.uint8)
        save_png(os.path.join(d, nm + "_gtFine_labelTrainIds.png"), x["seg"])
    os.makedirs(os.path.join(sc.root, "gtFine", sc.split), exist_ok=True)
    key = "_gtProc%s_%s_edge.png" % (half, "thin" if sc.thin else "raw")
    pred_files(sc, r, sc.suffix or "_leftImg8bit.png", sc.categories, N, full, lambda nm, c: sc.data[nm]["gt"][key][c - 1], levels)
    listing(sc, w, rel, os.path.join(sc.root, "splits", sc.split + ".txt"), options)


def otf(sc, w, r, p, names, sizes, levels, options, cats_max):
    N = CITY_N
    sc.api = "evaluate" if sc.api == "cli" else sc.api
    sc.split = w.pick(["val", "test"])
    sc.thin = w.chance(1, 2)
    p["eval_mode"] = w.pick([None, "pre-seal", "post-seal"])
    p["instance_sensitive"] = w.chance(1, 2) if p["eval_mode"] != "pre-seal" else False
    p["skip_if_nonexistent"] = w.chance(1, 3)
    p["kill_internal"] = w.chance(1, 2)
    p["max_dist"] = w.pick([0.0035, 0.05, 0.02])
    p["scale"] = w.pick([1.0, 1.0, 0.9])
    sc.params = p
    sc.categories = pick_cats(w, N, cats_max)
    t2l = {v: k for k, v in LABEL2TRAIN.items()}
    want = [t2l[c - 1] for c in sc.categories]
    if w.chance(1, 2):
        sc.categories[0] = LABEL2TRAIN[INST_IDS[w.draw(8)]] + 1
        sc.categories = list(dict.fromkeys(sc.categories))
        want = [t2l[c - 1] for c in sc.categories]
    rel, full = [], {}
    for nm, (h, wd) in zip(names, sizes):
        h, wd = max(h, 40), max(wd, 24)
        nm = city_name(r, names, rel, len(rel))
        rel.append(nm)
        full[nm] = (h, wd)
        lab = blocks(r, h, wd, [0] + want + want + [2, 3] + [r.randint(34)], 7)
        inst = lab.copy()
        for l in INST_IDS:
            m = lab == l
            if m.any():
                k = blocks(r, h, wd, inst_numbers(r), 4)
                inst[m] = (l * 1000 + k)[m]
                if r.rand() < 0.2:
                    inst[m] = l            # a crowd without instances
        x = sc.data[nm] = dict(size=(h, wd), lab=lab.astype(np.uint8), inst=inst.astype(np.int64))
        d = os.path.join(sc.root, "gtFine", sc.split)
        save_png(os.path.join(d, nm + "_gtFine_labelIds.png"), x["lab"])
        save_png(os.path.join(d, nm + "_gtFine_instanceIds.png"), inst, "16")
    os.makedirs(os.path.join(sc.root, "gtEval", sc.split), exist_ok=True)

    def edges_of(nm, c):
        m = sc.data[nm]["lab"] == t2l[c - 1]
        return m & ~np.roll(m, 1, 0) | m & ~np.roll(m, 1, 1)
    pred_files(sc, r, "_leftImg8bit.png", sc.categories, N, full, edges_of, levels)
    listing(sc, w, rel, os.path.join(sc.root, "splits", sc.split + ".txt"), options)


def cli(sc, w):
    """restrict the configuration to what the command line can express"""
    p = sc.params
    if not isinstance(sc.thresholds, int) and not isinstance(sc.thresholds, list):
        sc.thresholds = [sc.thresholds]
    if sc.kind == "bsds":
        sc.explicit = None
        sc.names = sorted(sc.data)
    elif sc.kind == "sbd":
        p["eval_mode"] = p["eval_mode"] or "post-seal"
        p["apply_thinning"] = sc.thin
        p["scale"] = 1.0
        if p["eval_mode"] == "pre-seal":
            p["instance_sensitive"] = False
    elif sc.kind == "reanno":
        p["apply_thinning"] = sc.thin
        p["scale"] = 1.0
        p["max_dist"] = 0.0075
    elif sc.kind in ("city", "half"):
        p["eval_mode"] = p["eval_mode"] or "post-seal"
        if sc.kind == "city":
            if sc.thin:
                # `thin` implies the half-resolution evaluator
                sc.api = "evaluate"
                return
            p["apply_thinning"] = False
        else:
            p["apply_thinning"] = sc.thin


def effective(sc):
    """The parameters an evaluation of this scenario must use: max_dist, kill_internal, skip, instance_sensitive, scale."""
    p, k = sc.params, sc.kind
    e = dict(apply_thinning=p["apply_thinning"], apply_nms=p["apply_nms"], scale=p.get("scale", 1.0))
    if k == "bsds":
        e["max_dist"] = p["max_dist"]
        return e
    ins = p["instance_sensitive"]
    if k == "reanno":
        e.update(max_dist=p["max_dist"], kill=False, skip=False, inst=ins)
        return e
    m = p["eval_mode"]
    if m == "pre-seal":
        e.update(max_dist=0.02, kill=True, skip=True, inst=False)
    elif m == "post-seal":
        e.update(max_dist=0.02 if k == "sbd" else p["max_dist"], kill=not ins, skip=not ins, inst=ins)
    else:
        e.update(max_dist=p["max_dist"], kill=p["kill_internal"], skip=p["skip_if_nonexistent"], inst=ins)
    return e


def alternates(sc, alt):
    """Other contents for the files of a scenario (mirrored images, a reordered or shorter sample list), written under `alt`:
    [(what, path in use, path of the other content)]."""
    out = []

    def add(what, path):
        q = os.path.join(alt, "%d%s" % (len(out), os.path.splitext(path)[1]))
        os.makedirs(alt, exist_ok=True)
        if path.endswith(".png"):
            with Image.open(path) as im:
                im.transpose(Image.FLIP_LEFT_RIGHT).save(q)
        elif path.endswith(".mat"):
            from scipy.io import loadmat, savemat
            m = loadmat(path)["groundTruth"]
            for i in range(m.shape[1]):
                rec = m[0, i]
                rec["Boundaries"][0, 0] = np.ascontiguousarray(rec["Boundaries"][0, 0][:, ::-1])
            savemat(q, {"groundTruth": m})
        else:
            with open(path) as f:
                names = f.read().split("\n")
            names = [x for x in names if x]
            with open(q, "w") as f:
                f.write("\n".join(names[::-1][:max(1, len(names) - 1)]))
        os.utime(q, (1000000 + len(out), 1000000 + len(out)))     # unlike the file it replaces
        out.append((what, path, q))

    for what, top in (("pred", sc.pred), ("gt", sc.root)):
        for d, _, files in sorted(os.walk(top)):
            for f in sorted(files):
                path = os.path.join(d, f)
                if f.endswith(".png"):
                    add(what, path)
                elif f.endswith(".mat"):
                    with open(path, "rb") as g:
                        if g.read(6) == b"MATLAB":
                            add(what, path)
                elif f.endswith(".txt") and sc.kind != "bsds":
                    add("list", path)
    return out


# ---------------------------------------------------------------- inside a world
def make(c):
    from pyEdgeEval import evaluators as E
    k = c["kind"]
    if k == "bsds":
        ev = E.BSDS500Evaluator(dataset_root=c["root"], pred_root=c["pred"], split=c["split"])
        if c["explicit"] is not None:
            ev.set_sample_names(list(c["explicit"]))
    else:
        if k == "reanno":
            from pyEdgeEval.evaluators.sbd import ReannoSBDEvaluator as cls
        elif k == "otf":
            from pyEdgeEval.evaluators.otf_cityscapes import OTFCityscapesEvaluator as cls
        elif k == "half":
            from pyEdgeEval.evaluators.half_cityscapes import HalfCityscapesEvaluator as cls
        else:
            cls = {"sbd": E.SBDEvaluator, "city": E.CityscapesEvaluator}[k]
        ev = cls(dataset_root=c["root"], pred_root=c["pred"], split=c["split"], thin=c["thin"],
                 gt_dir=c["gt_dir"], pred_suffix=c["suffix"])
        if c["explicit"] is not None:
            ev.set_sample_names(sample_names=list(c["explicit"]))
        elif c["split_file"]:
            ev.set_sample_names(split_file=c["split_file"])
    ev.set_eval_params(**c["params"])
    return ev


def argv(c, save, nproc):
    p = c["params"]
    t = c["thresholds"]
    a = ["prog", c["root"], c["pred"], "--output-path", save, "--nproc", str(nproc), "--thresholds", str(t),
         "--max-dist", str(p["max_dist"])]
    if p["apply_nms"]:
        a.append("--apply-nms")
    if c["kind"] == "bsds":
        if c["split"] == "val":
            a.append("--use-val")
        if not p["apply_thinning"]:
            a.append("--raw")
        return a
    cats = c["categories"]
    a += ["--categories", str(cats[0]) if len(cats) == 1 else str(cats)]
    if not p["instance_sensitive"]:
        a.append("--nonIS")
    if c["kind"] in ("sbd", "reanno"):
        if not c["thin"]:
            a.append("--raw")
        if c["suffix"]:
            a += ["--pred-suffix", c["suffix"]]
    if p.get("eval_mode") == "pre-seal":
        a.append("--pre-seal")
    if c["kind"] in ("city", "half") and not c["thin"]:
        a += ["--scale", str(p.get("scale", 0.5))]
        if c["kind"] == "half":
            a.append("--half")
    return a


def plain(d):
    return {k: float(v) for k, v in d.items()}


def evaluate(c, save, nproc):
    """Run the evaluation; what it returned, as plain values."""
    if c["api"] == "cli":
        import importlib
        import sys
        sys.argv = argv(c, save, nproc)
        if not c["gt_dir"] and not c["no_split_dir"] and c["kind"] != "reanno":
            import runpy
            from .simlib import REPO
            name = {"bsds": "bsds500", "sbd": "sbd"}.get(c["kind"], "cityscapes_thin" if c["thin"] else "cityscapes_raw")
            runpy.run_path(os.path.join(REPO, "scripts", "evaluate", name + ".py"), run_name="__main__")
            return None
        name = {"bsds": "evaluate_bsds500", "sbd": "evaluate_sbd", "reanno": "evaluate_sbd"}.get(c["kind"], "evaluate_cityscapes")
        m = importlib.import_module("pyEdgeEval.helpers." + name)
        if c["kind"] == "bsds":
            m.evaluate_bsds500(no_split_dir=c["no_split_dir"])
        elif c["kind"] == "sbd":
            m.evaluate_sbd(gt_dir=c["gt_dir"] or "gtEval")
        elif c["kind"] == "reanno":
            m.evaluate_reanno_sbd(gt_dir=c["gt_dir"] or "gtEval")
        elif c["thin"]:
            m.evaluate_cityscapes_thin(gt_dir=c["gt_dir"] or "gtEval")
        else:
            m.evaluate_cityscapes_raw(gt_dir=c["gt_dir"] or "gtEval")
        return None
    ev = make(c)
    return evaluate_with(ev, c, save, nproc)


def evaluate_with(ev, c, save, nproc):
    if c["kind"] == "bsds":
        return plain(ev.evaluate(thresholds=c["thresholds"], nproc=nproc, save_dir=save, no_split_dir=c["no_split_dir"]))
    if c["api"] == "category":
        return [plain(ev.evaluate_category(category=x, thresholds=c["thresholds"], nproc=nproc, save_dir=save))
                for x in c["categories"]]
    cats = c["categories"]
    ev.evaluate(categories=cats[0] if len(cats) == 1 and c.get("int_cat") else list(cats), thresholds=c["thresholds"], nproc=nproc, save_dir=save)
    return None


def results(save):
    """the result files under a save directory, without logs: {relative path: bytes}"""
    from .simlib import snapshot
    return {k: v for k, v in snapshot(save).items() if v is not None and not k.endswith(".log")} if os.path.isdir(save) else {}
