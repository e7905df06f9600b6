"""Dataset trees to convert, the conversions, and what they must write.

The expected edges come from an independent model (distance transforms on the arrays that were written to the tree); only the
thinning kernel of the code under test is used, in a world of its own.
"""
import io
import json
import os
import sys

import numpy as np
from PIL import Image

from . import gen, oracles
from .simlib import REPO, Violation

TRAIN_NAMES = ["road", "sidewalk", "building", "wall", "fence", "pole", "traffic light", "traffic sign", "vegetation", "terrain", "sky",
               "person", "rider", "car", "truck", "bus", "train", "motorcycle", "bicycle"]
NAME2TRAIN = {n: i for i, n in enumerate(TRAIN_NAMES)}
IGNORED = ["unlabeled", "ego vehicle", "static", "parking", "license plate", "caravan"]


class Tree:
    pass


# ---------------------------------------------------------------- Cityscapes
def city_tree(sim, big=False, max_images=3):
    w = sim.w
    r = gen.rng(w)
    t = Tree()
    t.kind = "city"
    t.root = sim.path(w.pick(["cityscapes", "gtFine_trainvaltest", "data set/city.scapes"]), "root")
    t.cfg = dict(proc_dirname=w.pick(["gtEval", "gtEval", "proc 2", "gtFineEval"]), inst_sensitive=w.chance(1, 2),
                 ext=w.pick(["png", "png", "tif", "bin"]), save_half_val=w.chance(2, 3), train_radius=w.pick([2, 1, 3]),
                 raw_val_radius=w.pick([2, 1, 3]), thin_val_radius=1, api=w.pick(["call", "call", "omit", "script"]))
    t.img = {"train": {}, "val": {}, "test": {}}
    cities = ["aachen", "bonn", "ulm x"]
    one_size = w.chance(1, 2)
    twins = w.chance(1, 3)      # names of one split again in another
    size = None
    for split in t.img:
        os.makedirs(os.path.join(t.root, "gtFine", split), exist_ok=True)
        for k in range(w.int(0, max_images) if split != "val" else w.int(1, max_images)):
            c = cities[w.draw(len(cities))]
            rel = w.pick(["%s/%s_%06d_%06d"] * 5 + ["%s/%s_x_%d_%06d_b", "%s/%s-%d.%d", "%s/_%s_%d_%d", "%s/%s_%d_gtFine_%d"]) % (c, c.split()[0], k, w.draw(50))
            if twins and split != "train" and t.img["train"] and w.chance(2, 3):
                rel = w.pick(sorted(t.img["train"]))
                if rel in t.img[split]:
                    continue
            drawn = (w.int(68, 80) if t.cfg["save_half_val"] else w.int(36, 60)), w.int(20, 44)   # the one-hot step needs 34 rows
            h, wd = size = size if one_size and size else drawn
            want = [7, 11, 13, 23, 24, 26, 33]
            lab = gen.blocks(r, h, wd, [0] + want[: r.randint(2, 8)] + [2, 3] + [r.randint(34)], 7)
            inst = lab.copy()
            for l in gen.INST_IDS:
                m = lab == l
                if m.any():
                    inst[m] = (l * 1000 + gen.blocks(r, h, wd, gen.inst_numbers(r), 4))[m]
                    if r.rand() < 0.2:
                        inst[m] = l
            objs = []
            for _ in range(r.randint(0, 6)):
                x0, y0 = r.randint(0, wd), r.randint(0, h)
                x1, y1 = x0 + r.randint(2, 20), y0 + r.randint(2, 20)
                nm = (TRAIN_NAMES + IGNORED + ["cargroup", "persongroup"])[r.randint(len(TRAIN_NAMES) + len(IGNORED) + 2)]
                objs.append(dict(label=nm, polygon=[[int(x0), int(y0)], [int(x1), int(y0)], [int(x1), int(y1)], [int(x0), int(y1)]],
                                 deleted=int(r.rand() < 0.1)))
            t.img[split][rel] = (lab.astype(np.uint8), inst.astype(np.int64), objs)
            b = os.path.join(t.root, "gtFine", split, rel)
            os.makedirs(os.path.dirname(b), exist_ok=True)
            with open(b + "_gtFine_polygons.json", "w") as f:
                json.dump(dict(imgHeight=h, imgWidth=wd, objects=objs), f)
            gen.save_png(b + "_gtFine_labelIds.png", lab.astype(np.uint8))
            gen.save_png(b + "_gtFine_instanceIds.png", inst, "16")
            with open(b + "_gtFine_color.png", "wb") as f:
                f.write(b"not read")
    return t


def city_outputs(t, cfg):
    """{path under the processed directory: (kind, split, rel, radius, thin, half)}"""
    out = {}
    e = "isedge" if cfg["inst_sensitive"] else "edge"
    x = "." + cfg["ext"]
    for rel in t.img["train"]:
        out["train/%s_gtProc_%s%s" % (rel, e, x)] = ("edge", "train", rel, cfg["train_radius"], False, False)
    for rel in t.img["val"]:
        for half in ([False, True] if cfg["save_half_val"] else [False]):
            p = "val/%s_gtProc_%s" % (rel, "half_" if half else "")
            out[p + "raw_" + e + x] = ("edge", "val", rel, cfg["raw_val_radius"], False, half)
            out[p + "thin_" + e + x] = ("edge", "val", rel, cfg["thin_val_radius"], True, half)
    for split in ("train", "val"):
        for rel in t.img[split]:
            out["%s/%s_gtFine_labelTrainIds.png" % (split, rel)] = ("ids", split, rel, 0, False, False)
    return out


def city_reference(imgs, cfg, outs):
    """in a world: {path: array}"""
    from pyEdgeEval.preprocess import binary_thin
    import cv2
    res = {}
    for path, (kind, split, rel, radius, thin, half) in outs.items():
        lab, inst, objs = imgs[split][rel]
        h, wd = lab.shape
        if kind == "ids":
            res[path] = train_ids(h, wd, objs)
            continue
        hw = oracles.scaled((h, wd), 0.5)
        if half and thin:
            lab = oracles.near(lab, hw)
            inst = np.array(Image.fromarray(inst.astype(np.uint16)).resize((hw[1], hw[0]), Image.Resampling.NEAREST)).astype(np.int64)
        ign = (lab == 2) | (lab == 3)
        e = np.zeros((19,) + lab.shape, np.uint8)
        for l, k in gen.LABEL2TRAIN.items():
            m = oracles.ref_edge(lab == l, inst if cfg["inst_sensitive"] and l in gen.INST_IDS else None, l, ign, radius, (2, 3), gen.INST_IDS)
            if thin and m.any():
                m = binary_thin(m.astype(np.uint8))
            e[k] = m
        if half and not thin:
            e = np.stack([cv2.resize(c, (hw[1], hw[0]), interpolation=cv2.INTER_NEAREST) for c in e])
        res[path] = e > 0
    return res


def train_ids(h, w, objs):
    from PIL import ImageDraw
    im = Image.new("L", (w, h), 255)
    d = ImageDraw.Draw(im)
    for o in objs:
        n = o["label"]
        if n.endswith("group"):
            n = n[:-5]
        if o["deleted"] or n == "license plate":
            continue
        d.polygon([tuple(p) for p in o["polygon"]], fill=NAME2TRAIN.get(n, 255))
    return np.array(im)


def city_decode(path, data, want):
    """'' or what is wrong with the file"""
    if path.endswith("_labelTrainIds.png"):
        im = Image.open(io.BytesIO(data))
        im.load()
        a = np.array(im)
        return "" if a.shape == want.shape and (a == want).all() else "is not the train-id image of its annotation"
    return edge_file(path, data, want)


def edge_file(path, data, want):
    n, h, w = want.shape
    code = sum((want[c].astype(np.int64) << c) for c in range(n))
    if path.endswith(".bin"):
        if len(data) != 4 * h * w:
            return "has %d bytes instead of %d" % (len(data), 4 * h * w)
        got = np.frombuffer(data, "<u4").reshape(h, w).astype(np.int64)
    else:
        im = Image.open(io.BytesIO(data))
        im.load()
        a = np.array(im).astype(np.int64)
        if path.endswith(".png"):
            if a.ndim != 3 or a.shape[2] != 3:
                return "is no RGB image: %s %s" % (im.mode, a.shape)
            got = (a[..., 0] << 16) + (a[..., 1] << 8) + a[..., 2]
        else:
            got = a & 0xFFFFFFFF
    if got.shape != (h, w):
        return "is %s instead of %s" % (got.shape, (h, w))
    if (got != code).any():
        y, x = np.argwhere(got != code)[0]
        bits = [c for c in range(n) if ((got ^ code) >> c & 1).any()]
        return "differs from the edges of its image in %d pixels, first (%d, %d), classes %s" % ((got != code).sum(), y, x, bits[:6])
    return ""


DEFAULTS = dict(inst_sensitive=True, ext="png", save_half_val=True, train_radius=2, raw_val_radius=2, thin_val_radius=1)


def convert_city(root, cfg, nproc):
    cfg = dict(cfg)
    api = cfg.pop("api")
    if api == "script" and (cfg["train_radius"], cfg["raw_val_radius"]) == (2, 2):
        import runpy
        sys.argv = ["cityscapes.py", "--root", root, "--nproc", str(nproc), "-o", cfg["proc_dirname"], "--ext", cfg["ext"]]
        sys.argv += (["--nonIS"] if not cfg["inst_sensitive"] else []) + (["--only-full-scale"] if not cfg["save_half_val"] else [])
        runpy.run_path(os.path.join(REPO, "scripts", "convert_datasets", "cityscapes.py"), run_name="__main__")
        return
    from pyEdgeEval.helpers.convert_cityscapes import convert_cityscapes
    if api == "omit":
        cfg = {k: v for k, v in cfg.items() if DEFAULTS.get(k, ()) != v}
    convert_cityscapes(cityscapes_root=root, nproc=nproc, **cfg)


def city_judge(t, cfg, want, files, earlier=(), complete=True):
    """Check a snapshot of the root; '' or (key, message). `want` from city_reference; `earlier`: paths that were there before."""
    d = cfg["proc_dirname"]
    seen = {k[len(d) + 1:]: v for k, v in files.items() if k.startswith(d + "/") and v is not None}
    for path, ref in want.items():
        if path not in seen:
            return "missing", "%s/%s was not written" % (d, path)
        try:
            bad = city_decode(path, seen[path], ref)
        except Exception as e:
            bad = "cannot be read: %s" % e
        if bad:
            return "wrong", "%s/%s (%d bytes) %s" % (d, path, len(seen[path]), bad)
    extra = [k for k in seen if k not in want and d + "/" + k not in earlier]
    if extra:
        return "extra", "unexpected outputs %s" % sorted(extra)[:3]
    for split in ("train", "val", "test"):
        k = "splits/%s.txt" % split
        if k not in files:
            return "missing", k + " was not written"
        names = files[k].decode().split("\n")
        if names[-1] != "" or sorted(names[:-1]) != sorted(t.img[split]):
            return "split", "%s lists %s instead of %s" % (k, names, sorted(t.img[split]))
    top = {k.split("/")[0] for k in files}
    extra = [k for k in top if k not in ("gtFine", "splits", d) and k not in {e.split("/")[0] for e in earlier}]
    if extra:
        return "extra", "unexpected outputs %s" % extra
    return ""


# ---------------------------------------------------------------- SBD
def objarr(xs):
    a = np.empty((len(xs), 1), object)
    for i, x in enumerate(xs):
        a[i, 0] = x
    return a


def mat_bytes(d, compress):
    from scipy.io import savemat
    b = io.BytesIO()
    savemat(b, d, do_compression=compress)
    return b.getvalue()


def sbd_tree(sim, max_samples=3, reanno=None):
    from scipy.sparse import csc_matrix
    w = sim.w
    r = gen.rng(w)
    t = Tree()
    t.kind = "sbd"
    t.root = sim.path("sbd", "root")
    t.smp, t.lists = {}, {"train": [], "val": []}
    os.makedirs(os.path.join(t.root, "cls_orig"))
    os.makedirs(os.path.join(t.root, "inst_orig"))
    names = ["2008_%06d" % (7 * i + 1) for i in range(4)] + ["a", "b.c", "x_y"]
    for split in ("train", "val"):
        for _ in range(w.int(1, max_samples)):
            nm = names.pop(w.draw(len(names)))
            h, wd = w.int(22, 44), w.int(18, 40)
            if w.chance(1, 2):
                h, wd = 30, 34
            cls = np.zeros((h, wd), np.uint8)
            inst = np.zeros((h, wd), np.uint8)
            cats = []
            for k in range(r.randint(0, 5)):
                c = int(r.choice([1, 2, 10, 20, r.randint(1, 21)]))
                y, x = r.randint(h), r.randint(wd)
                s = np.s_[y:y + r.randint(3, h), x:x + r.randint(3, wd)]
                cls[s], inst[s] = c, k + 1
                cats.append(c)
            present = sorted(set(cats))
            t.smp[nm] = (cls, inst, cats, present)
            t.lists[split].append(nm)
            B = objarr([csc_matrix((h, wd), dtype=np.uint8)] * 20)
            Bi = objarr([csc_matrix((h, wd), dtype=np.uint8)] * len(cats))
            comp = bool(r.rand() < 0.7)
            for sub, d in (("cls_orig", {"GTcls": {"Boundaries": B, "Segmentation": cls, "CategoriesPresent": np.array(present, np.uint8).reshape(-1, 1)}}),
                           ("inst_orig", {"GTinst": {"Segmentation": inst, "Boundaries": Bi, "Categories": np.array(cats, np.uint8).reshape(-1, 1)}})):
                with open(os.path.join(t.root, sub, nm + ".mat"), "wb") as f:
                    f.write(mat_bytes(d, comp))
        with open(os.path.join(t.root, split + ".txt"), "w") as f:
            f.write("\n".join(t.lists[split]) + "\n" * w.draw(2))
    t.reanno = {}
    t.cfg = dict(out="gtEval", reanno=w.chance(1, 2) if reanno is None else reanno)
    if w.chance(1, 3):
        t.cfg["out"] = "my gt"
    if t.cfg["reanno"]:
        # one list order for both variants, in the order of the val list
        ns = t.lists["val"][: w.int(1, len(t.lists["val"]))]
        t.reanno_names = ns
        for v in ("raw", "thin"):
            base = os.path.join(t.root, "gt_reanno_" + v)
            os.makedirs(os.path.join(base, "cls"))
            os.makedirs(os.path.join(base, "inst"))
            for nm in ns:
                cls, inst, cats, present = t.smp[nm]
                h, wd = cls.shape
                pres = present or [1]
                present2 = np.array(pres, np.uint8)
                cb = np.zeros((20, h, wd), np.uint8)
                ib = np.zeros((20, h, wd), np.uint8)
                for c in present2:
                    cb[c - 1] = gen.lines(r, h, wd, 3)
                    ib[c - 1] = gen.lines(r, h, wd, 2)
                t.reanno[v, nm] = (cb, ib, present2)
                with open(os.path.join(base, "cls", nm + ".mat"), "wb") as f:
                    f.write(mat_bytes({"GTcls": {"Boundaries": objarr([csc_matrix(b) for b in cb]), "Segmentation": cls, "CategoriesPresent": present2.reshape(-1, 1)}}, True))
                with open(os.path.join(base, "inst", nm + ".mat"), "wb") as f:
                    f.write(mat_bytes({"GTinst": {"Segmentation": inst, "Boundaries": objarr([csc_matrix(b) for b in ib]), "Categories": present2.reshape(-1, 1)}}, True))
            lst = np.empty((len(ns), 1), object)
            for i, nm in enumerate(ns):
                lst[i, 0] = nm
            with open(os.path.join(base, "test.mat"), "wb") as f:
                f.write(mat_bytes({"listTest": lst}, True))
    return t


def sbd_reference(smp, lists, reanno, names):
    """in a world: {file name: array}; edges are boolean stacks, images integer arrays"""
    from pyEdgeEval.preprocess import binary_thin
    res = {}
    for nm in lists["train"] + lists["val"]:
        cls, inst, cats, present = smp[nm]
        lab = cls.copy()
        lab[:5] = lab[-5:] = 21
        lab[:, :5] = lab[:, -5:] = 21
        ids = np.zeros(cls.shape, np.int64)
        no = {}
        for k, c in enumerate(cats):
            ids[inst == k + 1] = c * 1000 + no.setdefault(c, 0)
            no[c] += 1
        for thin in (False, True):
            for how in ("edge", "isedge"):
                e = np.zeros((20,) + cls.shape, bool)
                for c in range(1, 21):
                    m = oracles.ref_edge(lab == c, ids if how == "isedge" else None, c, lab == 21, 1 if thin else 2, (21,), [1])
                    if thin and m.any():
                        m = binary_thin(m.astype(np.uint8)) > 0
                    e[c - 1] = m
                res["%s_%s_%s.png" % (nm, "thin" if thin else "raw", how)] = e
        res[nm + "_labelIds.png"] = lab
        tr = np.full(lab.shape, 255, np.int64)
        m = (lab >= 1) & (lab <= 20)
        tr[m] = lab[m].astype(np.int64) - 1
        res[nm + "_trainIds.png"] = tr
        res[nm + "_instanceIds.png"] = ids
    for nm in names:
        for v in ("raw", "thin"):
            cb, ib, present = reanno[v, nm]
            res["%s_reanno_%s_edge.png" % (nm, v)] = cb > 0
            e = cb > 0
            for c in present:
                e[c - 1] |= ib[c - 1] > 0
            res["%s_reanno_%s_isedge.png" % (nm, v)] = e
    return res


def convert_sbd(root, cfg, nproc):
    import runpy
    sys.argv = ["sbd.py", "--root", root, "-o", cfg["out"], "--nproc", str(nproc)] + (["--reanno"] if cfg["reanno"] else [])
    runpy.run_path(os.path.join(REPO, "scripts", "convert_datasets", "sbd.py"), run_name="__main__")


def sbd_judge(t, cfg, want, files, earlier=(), complete=True):
    d = cfg["out"]
    seen = {k[len(d) + 1:]: v for k, v in files.items() if k.startswith(d + "/") and v is not None}
    for path, ref in want.items():
        if path not in seen:
            return "missing", "%s/%s was not written" % (d, path)
        try:
            if ref.ndim == 3:
                bad = edge_file(path, seen[path], ref)
            else:
                im = Image.open(io.BytesIO(seen[path]))
                im.load()
                a = np.array(im).astype(np.int64)
                bad = "" if a.shape == ref.shape and (a == ref).all() else "is not the image of its sample"
        except Exception as e:
            bad = "cannot be read: %s" % e
        if bad:
            return "wrong", "%s/%s (%d bytes) %s" % (d, path, len(seen[path]), bad)
    extra = [k for k in seen if k not in want and d + "/" + k not in earlier]
    if extra:
        return "extra", "unexpected outputs %s" % sorted(extra)[:3]
    if cfg["reanno"]:
        if "reanno_val.txt" not in files:
            return "missing", "reanno_val.txt was not written"
        if files["reanno_val.txt"].decode() != "".join(n + "\n" for n in t.reanno_names):
            return "split", "reanno_val.txt holds %r, not %r" % (files["reanno_val.txt"], t.reanno_names)
    return ""


# ---------------------------------------------------------------- both
INPUTS = {"city": ("gtFine/",), "sbd": ("cls_orig/", "inst_orig/", "train.txt", "val.txt", "gt_reanno_")}


def inputs_of(t, files):
    return {k: v for k, v in files.items() if k.startswith(INPUTS[t.kind])}


def reference(sim, t, cfg=None):
    cfg = cfg or t.cfg
    if t.kind == "city":
        o = sim.world(city_reference, t.img, cfg, city_outputs(t, cfg), label="reference")
    else:
        o = sim.world(sbd_reference, t.smp, t.lists, t.reanno, t.reanno_names if cfg["reanno"] else [], label="reference")
    if o.kind == "timeout":
        return None
    if o.kind != "ok":
        raise RuntimeError("reference: %s %s" % (o.kind, o.exc))
    return o.value


def convert(kind, root, cfg, nproc):
    (convert_city if kind == "city" else convert_sbd)(root, cfg, nproc)


def judge(t, cfg, want, files, earlier=()):
    return (city_judge if t.kind == "city" else sbd_judge)(t, cfg, want, files, earlier)


def brief(t):
    if t.kind == "city":
        return dict(kind="city", images={s: sorted(x) for s, x in t.img.items()}, **t.cfg)
    return dict(kind="sbd", samples=t.lists, **t.cfg)
