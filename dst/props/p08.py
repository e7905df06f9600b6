"""P08: the Cityscapes conversion is complete and independent of its schedule."""
import os

from .. import conv
from ..simlib import Violation, diff_snap, snapshot

ID = "P08"
RUNS = {"quick": 1600, "thorough": 20000}
RULE = ("one run = one to three conversions of a drawn Cityscapes tree (format, mode, radii, half scale, output name drawn) under drawn worker counts, "
        "interleavings, directory orders and clock jumps, over directories with drawn earlier content; every output is decoded and compared "
        "with an independent model of its image; non-trivial: several workers")
REAL = ["pyEdgeEval.helpers.convert_cityscapes, edge_tools, utils, common.multi_label encoders", "cityscapesscripts, PIL, cv2", "multiprocessing.pool with forked workers"]
STUB = ["pool handler threads and queues", "clock", "directory order"]
ASSUMES = ["fork start method", "the thinning kernel is used as its own reference (P02, P12 decide its purity)"]
PROBES = ("relative_paths", "ext:png", "ext:tif", "ext:bin", "inst", "noinst", "half", "parallel", "serial", "stale", "bad_label", "hidden_dir", "gtFine_in_root")


def garbage(sim, t, cfg, outs):
    """earlier content: outputs of other runs, longer files, other names"""
    w = sim.w
    names = list(outs)
    made = []
    for _ in range(w.int(1, 6)):
        k = w.draw(3)
        if k == 0 and names:
            p = os.path.join(cfg["proc_dirname"], names[w.draw(len(names))])
        elif k == 1:
            p = "splits/%s.txt" % w.pick(["train", "val", "test"])
        else:
            p = os.path.join(cfg["proc_dirname"], "val", "old", "x_gtProc_raw_edge.png")
        full = os.path.join(t.root, p)
        os.makedirs(os.path.dirname(full), exist_ok=True)
        with open(full, "wb") as f:
            f.write(b"old/content_000\n" * w.pick([1, 0, 3000]))
        made.append(p)
    return made


def run(sim):
    w, f = sim.w, sim.f
    sim.relative()
    t = conv.city_tree(sim)
    cfg = t.cfg
    outs = conv.city_outputs(t, cfg)
    if "gtFine" in os.path.dirname(t.root):
        sim.count("gtFine_in_root")
    made = garbage(sim, t, cfg, outs) if w.chance(1, 3) else []
    if made:
        sim.count("stale")
    if w.chance(1, 12):         # hidden files are no annotations
        sim.count("hidden_dir")
        for sp in ("train", "val"):
            d = os.path.join(t.root, "gtFine", sp, "ulm x")
            os.makedirs(d, exist_ok=True)
            for s in ("polygons.json", "labelIds.png"):
                open(os.path.join(d, "._ulm_000000_000000_gtFine_" + s), "w").write("resource fork")
    bad = None
    if w.chance(1, 12):
        ann = [(s, rel) for s in ("train", "val") for rel in t.img[s]]
        bad = ann[w.draw(len(ann))]
        p = os.path.join(t.root, "gtFine", bad[0], bad[1] + "_gtFine_polygons.json")
        how = w.pick(["label", "json", "empty"])
        text = open(p).read()
        open(p, "w").write({"label": '{"imgHeight": 9, "imgWidth": 9, "objects": [{"label": "no such thing", "polygon": [[0,0],[1,1],[2,0]], "deleted": 0}]}',
                            "json": text[: len(text) // 2], "empty": ""}[how])
        sim.count("bad_label")
    plain = conv.reference(sim, t)
    if plain is None:
        return
    before = conv.inputs_of(t, snapshot(t.root))
    sim.count("ext:" + cfg["ext"])
    sim.count("inst" if cfg["inst_sensitive"] else "noinst")
    if cfg["save_half_val"]:
        sim.count("half")
    earlier = set(made)
    story = []
    for k in range(w.pick([1, 1, 2, 3])):
        nproc = w.pick([1, 2, 3, 4])
        c, want = dict(cfg), plain
        if k and w.chance(1, 2):     # another configuration into the same directories
            c.update(inst_sensitive=w.chance(1, 2), ext=w.pick(["png", "tif", "bin"]), raw_val_radius=w.pick([1, 2, 3]), save_half_val=cfg["save_half_val"] and w.chance(1, 2))
            want = conv.reference(sim, t, c)
            if want is None:
                return
        sim.count("serial" if nproc == 1 else "parallel")
        sim.interesting = sim.interesting or nproc > 1
        jumps = [(f.draw(40), f.pick([-3600, 86400, -10 ** 6]) * 10 ** 9)] if f.chance(1, 4) else []
        o = sim.world(conv.convert_city, t.root, c, nproc, sched=True, dir_seed=sim.s.draw(1 << 16), jumps=jumps, lines=sim.s.chance(1, 3),
                      npseed=f.draw(9), pyseed=f.draw(9), timeout=120, label="nproc=%d" % nproc)
        story.append("nproc=%d: %s" % (nproc, o.kind))
        what = "conversion %d (%s, nproc=%d) after %s" % (k + 1, c, nproc, made)
        if o.kind == "timeout":
            return
        if bad:
            if o.kind == "ok":
                raise Violation("bad-accepted", "%s returned although the annotation of %s cannot be read" % (what, bad))
            if o.kind != "exc":
                raise Violation(o.kind, "%s, unreadable annotation: %s %s" % (what, o.kind, o.exc and o.exc[:2]), trace=o.trace)
            break
        if o.kind != "ok":
            raise Violation("fails:" + (o.exc[0] if o.exc else o.kind), "%s: %s %s" % (what, o.kind, o.exc and o.exc[:2]), tb=o.exc and o.exc[2], trace=o.trace)
        files = snapshot(t.root)
        m = conv.judge(t, c, want, files, earlier)
        if m:
            raise Violation(m[0], "%s: %s" % (what, m[1]), trace=o.trace)
        d = diff_snap(before, conv.inputs_of(t, files))
        if d:
            raise Violation("inputs-changed", "%s: %s" % (what, d))
        if o.extra["live"]:
            raise Violation("workers-left", "%s left %d workers" % (what, o.extra["live"]))
        earlier |= set(files)
    sim.marks.add((tuple(story), cfg["ext"], cfg["inst_sensitive"], tuple(len(x) for x in t.img.values())))
    sim.sample = [dict(conv.brief(t), story=story, earlier=made, bad=bad)]
