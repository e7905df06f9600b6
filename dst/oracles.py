"""Reference models. Everything here is computed from the arrays that gen.py wrote, in a fresh simulated process; of the
code under test only the leaf functions are used (the matcher, the thinning and the suppression kernel, each decided by
other properties), never the evaluators, loaders, pooling, saving or parallel code."""
import numpy as np
from PIL import Image

from . import gen


def check_thr(t):
    if isinstance(t, int):
        return np.linspace(1.0 / (t + 1), 1.0 - 1.0 / (t + 1), t)
    if isinstance(t, float):
        return np.array([t])
    return np.array(t, dtype=float)


def near(a, hw):
    h, w = hw
    return np.array(Image.fromarray(a).resize((w, h), Image.Resampling.NEAREST))


def scaled(hw, s):
    return int(hw[0] * s + 0.5), int(hw[1] * s + 0.5)


def edt(z):
    """distance to the nearest zero of z; infinite when there is none"""
    from scipy.ndimage import distance_transform_edt
    if z.all():
        return np.full(z.shape, np.inf)
    return distance_transform_edt(z)


def bdry(m, ignore, radius):
    """pixels within `radius` of the border of mask m (both sides), except that ignored pixels are not a border"""
    d = edt((m | ignore)) + edt(~m)
    return (d > 0) & (d <= radius)


def ref_edge(lab_mask, inst, label, ignore_mask, radius, ignore_labels, inst_labels):
    """edges of one label; with an instance map also between instances"""
    z = np.zeros(lab_mask.shape, bool)
    if label in ignore_labels or not lab_mask.any():
        return z
    e = bdry(lab_mask, ignore_mask, radius)
    if inst is not None:
        for v in np.unique(inst):
            if v >= min(inst_labels) * 1000 and v // 1000 == label:
                e = e | bdry(inst == v, ignore_mask, radius)
    return e


def sample_inputs(sc, name, cat):
    """(pred float, list of gts, category segmentation or None)"""
    x = sc.data[name]
    e = gen.effective(sc)
    if sc.kind == "bsds":
        return x["pred"] * (1.0 / 255), [g.astype(bool) for g in x["gts"]], None
    hw = scaled(x["size"], e["scale"])
    pred = near(x["pred"][cat], hw) / 255
    seg = None
    if sc.kind == "otf":
        lab = near(x["lab"], hw)
        inst = np.array(Image.fromarray(x["inst"].astype(np.uint16)).resize((hw[1], hw[0]), Image.Resampling.NEAREST)).astype(int) if e["inst"] else None
        label = [k for k, v in gen.LABEL2TRAIN.items() if v == cat - 1][0]
        gt = ref_edge(lab == label, inst, label, (lab == 2) | (lab == 3), 1 if sc.thin else 2, (2, 3), gen.INST_IDS)
        if e["kill"]:
            seg = lab == label
    else:
        pre = {"sbd": "_", "reanno": "_reanno_", "city": "_gtProc_", "half": "_gtProc_half_"}[sc.kind]
        key = pre + ("thin" if sc.thin else "raw") + ("_isedge.png" if e["inst"] else "_edge.png")
        gt = near(x["gt"][key][cat - 1].astype(np.uint8), hw) > 0
        if e["kill"]:
            s = near(x["seg"], hw)
            seg = s == (cat if sc.kind in ("sbd", "reanno") else cat - 1)
        if sc.kind in ("sbd", "reanno"):
            pred = pred.copy()
            pred[:5] = pred[-5:] = 0
            pred[:, :5] = 0
            pred[:, -5:] = 0
    return pred, [gt], seg


def world_counts(jobs, thr):
    """(runs in a world) jobs: list of (pred, gts, seg, effective params, binary dataset?) -> counts per threshold"""
    from pyEdgeEval._lib import correspond_pixels
    from pyEdgeEval.preprocess import binary_thin, fast_nms
    out = []
    for pred, gts, seg, e, multi_gt in jobs:
        c = np.zeros((4, len(thr)))
        skip = not multi_gt and e.get("skip") and not gts[0].any()
        if e["apply_nms"] and not skip:
            pred = fast_nms(img=pred.copy(), r=1, s=5, m=1.01, half_prec=False)
        for i, t in enumerate(thr):
            if skip:
                break
            b = pred >= t
            if e["apply_thinning"]:
                b = binary_thin(b.copy()) > 0
            if not multi_gt and not gts[0].any():
                c[3, i] = b.sum()
                continue
            if e.get("kill"):
                from scipy.ndimage import distance_transform_edt
                far = distance_transform_edt(~gts[0]) > np.hypot(*b.shape) * e["max_dist"]
                b = b & ~(far & seg)
            acc = np.zeros(b.shape, bool)
            for g in gts:
                m1, m2, _, _ = correspond_pixels(b.copy(), g.astype(np.uint8), max_dist=e["max_dist"])
                acc |= m1 > 0
                c[0, i] += (m2 > 0).sum()
                c[1, i] += g.sum()
            c[2, i] = acc.sum()
            c[3, i] = b.sum()
        out.append(c)
    return out


def counts(sim, sc):
    """{(sample, category): 4 x T array of count_r, sum_r, count_p, sum_p}"""
    thr = check_thr(sc.thresholds)
    e = gen.effective(sc)
    keys = [(n, c) for c in (sc.categories or [None]) for n in sc.names]
    jobs = []
    for n, c in keys:
        p, g, s = sample_inputs(sc, n, c)
        jobs.append((p, g, s, e, sc.kind == "bsds"))
    o = sim.world(world_counts, jobs, thr, label="reference")
    if o.kind != "ok":
        raise RuntimeError("the reference model failed: %s %s" % (o.kind, o.exc))
    return dict(zip(keys, o.value)), thr


def rpf(c):
    r = c[0] / (c[1] + (c[1] == 0))
    p = c[2] / (c[3] + (c[3] == 0))
    d = p + r
    return r, p, 2 * p * r / (d + (d == 0))


def pooled(cnt, thr, names, cat):
    """the reference metrics of one category"""
    per = {}
    tot = np.zeros((4, len(thr)))
    best = np.zeros(4)
    ambiguous = False
    for n in names:
        c = cnt[(n, cat)]
        r, p, f = rpf(c)
        k = int(np.argmax(f))
        close = [i for i in range(len(thr)) if abs(f[i] - f[k]) < 1e-9]
        if any(not np.array_equal(c[:, i], c[:, k]) for i in close):
            ambiguous = True       # mathematically equal scores from different counts: either may be reported
        per[n] = dict(threshold=[thr[i] for i in close], exact=thr[k], recall=r[k], precision=p[k], f1=f[k], close=len(close))
        tot += c
        best += c[:, k]
    r, p, f = rpf(tot)
    cand = [(thr[0], r[0], p[0], f[0])]
    for i in range(1, len(thr)):
        for d in np.linspace(0, 1, 101):
            rr, pp = r[i] * d + r[i - 1] * (1 - d), p[i] * d + p[i - 1] * (1 - d)
            den = rr + pp
            cand.append((thr[i] * d + thr[i - 1] * (1 - d), rr, pp, 2 * rr * pp / den if den else 0.0))
    mx = max(c[3] for c in cand)
    ods = [c for c in cand if c[3] >= mx - 1e-9]
    br, bp, bf = [float(x) for x in rpf(best)]
    ur, ui = np.unique(r, return_index=True)
    auc = float(np.interp(np.arange(0, 1, 0.01), ur, p[ui], left=0.0, right=0.0).sum() * 0.01) if len(ur) > 1 else 0.0
    ap = sum((max([float(x) for x in p[r >= t]] or [0.0])) / 101 for t in np.arange(0, 1, 0.01))
    return dict(per=per, thr=[(thr[i], r[i], p[i], f[i]) for i in range(len(thr))], ods=ods, ois=(br, bp, bf),
                auc=auc, ap=float(ap), ambiguous=ambiguous)


FIELDS = ["ODS_threshold", "ODS_recall", "ODS_precision", "ODS_f1", "OIS_recall", "OIS_precision", "OIS_f1", "AUC", "AP"]


def eq(a, b, tol):
    return abs(float(a) - float(b)) <= tol


def check_overall(ref, got, tol):
    """'' or what is wrong with a reported overall metric (dict or list of nine numbers)"""
    if isinstance(got, dict):
        if set(got) != set(FIELDS):
            return "the overall metrics are %s" % sorted(got)
        got = [got[k] for k in FIELDS]
    if len(got) != 9:
        return "%d overall numbers: %r" % (len(got), got)
    if not any(eq(got[0], c[0], tol) and eq(got[1], c[1], tol) and eq(got[2], c[2], tol) and eq(got[3], c[3], tol) for c in ref["ods"]):
        return "ODS reported as %s, expected (threshold, recall, precision, f1) %s" % (got[:4], ["%.6f" % x for x in ref["ods"][0]])
    names = ["OIS recall", "OIS precision", "OIS f1", "AUC", "AP"]
    want = list(ref["ois"]) + [ref["auc"], ref["ap"]]
    for nm, a, b, free in zip(names, got[4:], want, (ref["ambiguous"],) * 3 + (False, False)):
        if not free and not eq(a, b, tol):
            return "%s reported as %r, expected %.6f" % (nm, a, b)
    return ""


def parse(data):
    return [ln.split() for ln in data.decode().splitlines()]


def check_files(ref, files, names, prefix=""):
    """compare the three per-category (or binary) result files with the reference; '' or what is wrong"""
    tol = 1.6e-6
    for f in ("eval_bdry_img.txt", "eval_bdry_thr.txt", "eval_bdry.txt"):
        if prefix + f not in files:
            return "%s is missing" % (prefix + f)
    rows = parse(files[prefix + "eval_bdry_img.txt"])
    if sorted(r[0] for r in rows) != sorted(names):
        return "%seval_bdry_img.txt lists the samples %s instead of %s" % (prefix, [r[0] for r in rows], list(names))
    for row in rows:
        if len(row) != 5:
            return "%seval_bdry_img.txt has the line %r" % (prefix, row)
        x = ref["per"][row[0]]
        v = [float(y) for y in row[1:]]
        if not any(eq(v[0], t, tol) for t in x["threshold"]) or (x["close"] == 1 or not ref["ambiguous"]) and not (
                eq(v[1], x["recall"], tol) and eq(v[2], x["precision"], tol)) or not eq(v[3], x["f1"], tol):
            return "%seval_bdry_img.txt has for sample %s the values %s, expected threshold %.6f recall %.6f precision %.6f f1 %.6f" % (
                prefix, row[0], row[1:], x["exact"], x["recall"], x["precision"], x["f1"])
    rows = parse(files[prefix + "eval_bdry_thr.txt"])
    if len(rows) != len(ref["thr"]):
        return "%seval_bdry_thr.txt has %d lines instead of %d" % (prefix, len(rows), len(ref["thr"]))
    for row, want in zip(rows, ref["thr"]):
        if len(row) != 4 or not all(eq(a, b, tol) for a, b in zip(row, want)):
            return "%seval_bdry_thr.txt has the line %s, expected %s" % (prefix, row, ["%.6f" % x for x in want])
    row = files[prefix + "eval_bdry.txt"].decode().split()
    m = check_overall(ref, [float(x) for x in row], tol)
    return (prefix + "eval_bdry.txt: " + m) if m else ""


def check_summary(refs, files, classes, cats):
    """overall_eval_bdry.txt and results.txt of a multi-label evaluation"""
    for f in ("overall_eval_bdry.txt", "results.txt"):
        if f not in files:
            return f + " is missing"
    row = [float(x) for x in files["overall_eval_bdry.txt"].decode().split()]
    if len(row) != 9:
        return "overall_eval_bdry.txt has %d numbers" % len(row)
    # the per-category numbers as saved are the reference for their mean: ties in ODS/OIS stay consistent
    per = [[float(x) for x in files["class_%03d/eval_bdry.txt" % c].decode().split()] for c in cats]
    mean = np.mean(np.array(per), axis=0)
    for nm, a, b in zip(FIELDS, row, mean):
        if not eq(a, b, 2.5e-6):
            return "overall_eval_bdry.txt has %s %r, the mean over the categories is %.6f" % (nm, a, b)
    text = files["results.txt"].decode()
    if "Per Class Results" not in text or "Summary" not in text:
        return "results.txt is incomplete"
    head, _, tail = text.partition("Summary")
    rows = [[c.strip() for c in ln.strip().strip("|").split("|")] for ln in head.splitlines() if ln.startswith("|")]
    if len(rows) != 1 + len(cats):
        return "results.txt has %d class rows instead of %d" % (len(rows) - 1, len(cats))
    col = {h: i for i, h in enumerate(rows[0])}
    for h in ("Class", "ODS_threshold", "ODS_recall", "ODS_precision", "ODS_f1"):
        if h not in col:
            return "results.txt has no column %s" % h
    for c, rw, pv in zip(cats, rows[1:], per):
        if rw[col["Class"]] != classes[c - 1]:
            return "results.txt has class %r where %r belongs" % (rw[col["Class"]], classes[c - 1])
        for h, k, mul, tol in (("ODS_recall", 1, 100, 7e-4), ("ODS_precision", 2, 100, 7e-4), ("ODS_f1", 3, 100, 7e-4), ("ODS_threshold", 0, 1, 5.1e-3)):
            if not eq(rw[col[h]], pv[k] * mul, tol):
                return "results.txt has %s %s for %s, saved %.6f" % (h, rw[col[h]], classes[c - 1], pv[k])
    rows = [[c.strip() for c in ln.strip().strip("|").split("|")] for ln in tail.splitlines() if ln.startswith("|")]
    if len(rows) != 2:
        return "results.txt has no summary"
    col = {h: i for i, h in enumerate(rows[0])}
    for h, k in (("ODS_recall", 1), ("ODS_precision", 2), ("ODS_f1", 3), ("AUC", 7)):
        if h not in col or not eq(rows[1][col[h]], mean[k] * 100, 1e-3):
            return "results.txt summary has %s" % dict(zip(rows[0], rows[1]))
    return ""


SBD_CLASSES = ["aeroplane", "bicycle", "bird", "boat", "bottle", "bus", "car", "cat", "chair", "cow", "dining table", "dog",
               "horse", "motor bike", "person", "potted plant", "sheep", "sofa", "train", "tv/monitor"]
CITY_CLASSES = ["road", "sidewalk", "building", "wall", "fence", "pole", "traffic light", "traffic sign", "vegetation",
                "terrain", "sky", "person", "rider", "car", "truck", "bus", "train", "motorcycle", "bicycle"]


def check_all(sc, cnt, thr, returned, files):
    """Everything an evaluation reported against the reference; '' or what is wrong."""
    if sc.kind == "bsds":
        ref = pooled(cnt, thr, sc.names, None)
        if returned is not None:
            m = check_overall(ref, returned, 1e-9)
            if m:
                return "returned: " + m
        return check_files(ref, files, sc.names) if files is not None else ""
    for i, c in enumerate(sc.categories):
        ref = pooled(cnt, thr, sc.names, c)
        if returned is not None:
            m = check_overall(ref, returned[i], 1e-9)
            if m:
                return "category %d returned: %s" % (c, m)
        if files is not None:
            m = check_files(ref, files, sc.names, "class_%03d/" % c)
            if m:
                return m
    if files is not None and sc.api != "category":
        m = check_summary(None, files, SBD_CLASSES if sc.kind in ("sbd", "reanno") else CITY_CLASSES, sc.categories)
        if m:
            return m
    if files is not None:
        extra = [f for f in files if f.startswith("class_") and int(f[6:9]) not in sc.categories]
        if extra:
            return "unexpected result files %s" % extra
    return ""


def multilabel_ref_edges(onehot, inst, ignore, radius, inst_labels):
    """reference edges for all labels of a one-hot mask"""
    n = len(onehot)
    ign = np.zeros(onehot.shape[1:], bool)
    for i in ignore:
        ign |= onehot[i] > 0
    return np.stack([ref_edge(onehot[l] > 0, inst, l, ign, radius, ignore, inst_labels) for l in range(n)])
