"""Single calls of the public functions, drawn from a stream, executed inside a world and reduced to a comparable value."""
import numpy as np

from . import gen


def draw(sim, root, kinds, slots=None, fail=False, nproc_max=1):
    """one operation: a plain dict"""
    w = sim.w
    k = w.pick(list(kinds))
    op = dict(op=k, seed=w.draw(1 << 20), h=w.int(8, 30), w=w.int(8, 30))
    if k == "match":
        op.update(max_dist=w.pick([0.05, 0.0075, 0.1, 0.3]), cost=w.pick([100.0, 5.0]), pdt=w.pick(["bool", "uint8", "float64"]))
        if fail:
            op["bad"] = w.pick(["shape", "dist", "cost"])
    elif k == "nms":
        op.update(dt=w.pick(["float64", "uint8", "float32"]), half=w.chance(1, 4), u8=w.chance(1, 2), r=w.pick([1, 2]), s=w.pick([5, 0, 3]))
        if fail:
            op["bad"] = w.pick(["dtype", "empty"])
    elif k == "thin":
        op.update(dt=w.pick(["bool", "uint8"]), iters=w.pick([None, None, 1, 2]), bw=w.chance(1, 5))
        if fail:
            op["bad"] = "ndim"
    elif k == "edges":
        op.update(edges_args(w, nproc_max))
        if fail:
            op["bad"] = w.pick(["ndim", "radius"])
    elif k == "bounds":
        op.update(which=w.pick(["bin", "multi", "gts"]), max_dist=w.pick([0.05, 0.0075, 0.2]), thin=w.chance(1, 2), nms=w.chance(1, 3),
                  kill=w.chance(1, 2), skip=w.chance(1, 4), thr=w.pick([[0.5], [0.2, 0.5, 0.8], [0.9, 0.1]]), dt=w.pick(["float64", "float64", "float32"]), kwargs=w.pick([0, 0, 1, 2]))
        if fail:
            op["bad"] = w.pick(["shape", "seg"])
    elif k == "caller":
        op["word"] = "w%d" % w.draw(1000)
    elif k == "metrics":
        op.update(n=w.int(1, 5), thr=w.pick([3, [0.5], [0.2, 0.6], 0.3]), nproc=w.int(1, nproc_max), which=w.pick(["binary_label", "multi_label"]))
        if fail:
            op["bad"] = w.pick(["task", "thr"])
    elif k == "eval":
        sc = slots[w.draw(len(slots))]
        op.update(sc=sc.call(), nproc=w.int(1, nproc_max), reuse=w.chance(1, 2))
        if sc.kind != "bsds" and len(sc.categories) > 1 and w.chance(1, 2):
            op["sc"]["categories"] = sc.categories[: w.int(1, len(sc.categories))]
            if w.chance(1, 2):
                op["sc"]["categories"] = op["sc"]["categories"][::-1]
        if w.chance(1, 3):
            op["sc"]["thresholds"] = gen.thresholds(w)
        if w.chance(1, 2) and sc.api != "cli":
            op["sc"]["params"] = dict(sc.params, apply_thinning=w.chance(1, 2), apply_nms=w.chance(1, 5),
                                      max_dist=w.pick([0.0075, 0.05, 0.1]))
            if sc.kind not in ("bsds", "half", "otf"):
                op["sc"]["params"]["scale"] = w.pick([1.0, 0.5, 0.75])
            if sc.kind not in ("bsds", "reanno"):
                op["sc"]["params"]["eval_mode"] = w.pick([None, "post-seal", "pre-seal"])
                op["sc"]["params"]["kill_internal"] = w.chance(1, 2)
                op["sc"]["params"]["skip_if_nonexistent"] = w.chance(1, 2)
                op["sc"]["params"]["instance_sensitive"] = w.chance(1, 2)
        if sc.api != "cli" and w.chance(1, 3) and len(sc.names) > 1:
            op["sc"]["explicit"] = sc.names[: w.int(1, len(sc.names))]
        if fail:
            op["bad"] = w.pick(["thr", "missing", "category", "names"])
    return op


def edges_args(w, nproc_max):
    labels = w.pick([[0, 1, 2, 3], [1, 2, 3], list(range(1, 8)), [24, 25, 26, 0], [7, 24, 25, 11], [26, 33, 0, 31]])
    return dict(how=w.pick(["loop", "loop", "class", "mp"]) if nproc_max > 1 else w.pick(["loop", "class"]),
                inst=w.chance(1, 2), labels=labels, n=len(labels), radius=w.pick([2, 1, 3, 5]), thin=w.chance(1, 4),
                ignore=w.pick([[], [0], [1], [0, 2]]), cv2=not w.chance(1, 5), dense=w.pick([5, 3, 8]),
                nproc=w.int(1, max(1, nproc_max)), l2t=w.chance(1, 2), internal=w.chance(1, 6))


def mask_data(op):
    """(label image, one-hot mask indexed by position, instance map with ids label*1000+k)"""
    r = np.random.RandomState(op["seed"])
    n = max(op["labels"]) + 1 if op["inst"] else op["n"]
    h, w = max(op["h"], n), op["w"]
    lab = gen.blocks(r, h, w, [op["labels"][i] for i in range(op["n"])], op["dense"])
    if not op["inst"]:
        lab = np.searchsorted(np.arange(max(op["labels"]) + 1), lab)
        lab = np.array([{v: i for i, v in enumerate(op["labels"])}[v] for v in lab.ravel()]).reshape(h, w)
    onehot = np.stack([lab == i for i in range(n)]).astype(np.uint8)
    inst = lab * 1000 + gen.blocks(r, h, w, gen.inst_numbers(r), 4)
    if r.rand() < 0.3:
        inst[lab == op["labels"][0]] = op["labels"][0]
    if op["inst"] and r.rand() < 0.4:      # the two maps need not agree: instances that reach over other classes, or cover part of theirs
        k = r.randint(h)
        inst = np.roll(inst, k, axis=r.randint(2))
        if r.rand() < 0.5:
            one = op["labels"][r.randint(op["n"])]
            inst[(inst // 1000 == one) & (inst % 1000 > 0)] = one * 1000
    return lab, onehot, inst.astype(np.int32)


def freeze(x):
    """a hashable picture of a value, arrays by content"""
    if isinstance(x, np.ndarray):
        return ("array", x.shape, x.dtype.str, x.tobytes())
    if isinstance(x, dict):
        return ("dict",) + tuple((k, freeze(v)) for k, v in x.items())
    if isinstance(x, (list, tuple)):
        return (type(x).__name__,) + tuple(freeze(v) for v in x)
    if isinstance(x, (np.floating, np.integer, np.bool_)):
        return repr(x)
    return repr(x)


class Mutated(Exception):
    pass


SLOTS = {}
_KEEP = []


def guarded(fn, *args, **kw):
    """call, then check that no argument changed"""
    before = freeze([args, kw])
    try:
        return fn(*args, **kw)
    finally:
        if freeze([args, kw]) != before:
            raise Mutated("%s changed its arguments" % getattr(fn, "__name__", fn))


def _task(x):
    if x.get("bad"):
        raise ValueError("task failed")
    r = np.random.RandomState(x["seed"])
    t = x["t"]
    s = r.randint(0, 30, (4, t)).astype(float)
    return np.minimum(s[0], s[1]), s[1], np.minimum(s[2], s[3]), s[3]


def do(op):
    """execute; the result as a comparable value (raises what the call raises)"""
    k = op["op"]
    if k == "swap":           # not a call: the files of a dataset change between calls, or change back
        import os
        for a, b in op["pairs"]:
            os.rename(a, b + "~")
            os.rename(b, a)
            os.rename(b + "~", b)
        return None
    r = np.random.RandomState(op["seed"])
    h, w = op["h"], op["w"]
    bad = op.get("bad")
    if k == "match":
        from pyEdgeEval._lib import correspond_pixels
        e = gen.lines(r, h, w, 4)
        p = (gen.prediction(r, e, 0) > 60)
        if bad == "shape":
            p = p[:-1]
        return freeze(guarded(correspond_pixels, p.astype(op["pdt"]), e.astype(np.uint8),
                              max_dist=0.0 if bad == "dist" else op["max_dist"], outlier_cost=1.0 if bad == "cost" else op["cost"]))
    if k == "nms":
        from pyEdgeEval.preprocess import fast_nms
        e = gen.lines(r, h, w, 4)
        p = gen.prediction(r, e, 0)
        a = p if op["dt"] == "uint8" else (p / 255).astype(op["dt"])
        if bad == "dtype":
            a = p.astype(np.int32)
        if bad == "empty":
            a = np.zeros((0, 0))
        return freeze(guarded(fast_nms, a, r=op["r"], s=op["s"], half_prec=op["half"], return_as_uint8=op["u8"]))
    if k == "thin":
        from pyEdgeEval.preprocess import binary_thin, bwmorph_thin
        a = (r.rand(h, w) < r.choice([0.3, 0.6, 0.9])).astype(op["dt"])
        if bad:
            a = a[None]
        if op["bw"]:
            return freeze(guarded(bwmorph_thin, a.astype(bool), op["iters"]))
        return freeze(guarded(binary_thin, a, op["iters"]))
    if k == "edges":
        return edges(op, bad)
    if k == "bounds":
        return bounds(op, r, bad)
    if k == "metrics":
        import importlib
        m = importlib.import_module("pyEdgeEval.common.%s.calculate_metrics" % op["which"])
        thr = "x" if bad == "thr" else op["thr"]
        t = op["thr"] if isinstance(op["thr"], int) else 1 if isinstance(op["thr"], float) else len(op["thr"])
        samples = [dict(name="s%d" % i, seed=op["seed"] + i, t=t, bad=bad == "task" and i == op["n"] - 1) for i in range(op["n"])]
        return freeze(guarded(m.calculate_metrics, _task, thr, samples, nproc=op["nproc"]))
    if k == "eval":
        return evaluation(op, bad)
    if k == "caller":
        return caller(op)
    raise ValueError(k)


def caller(op):
    """what the caller's own code does between the calls: compute, print, warn, write a file"""
    import os
    import signal
    import sys
    import warnings
    a = np.array([0.0, 1.0, -1.0])
    err = np.geterr()
    if err["divide"] == "warn" and err["invalid"] == "warn":
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            err["quotients"] = repr(a / 0.0)
    warnings.warn("to the user: " + op["word"])
    sys.stdout.write("printed " + op["word"])
    sys.stderr.write("printed " + op["word"])
    umask = os.umask(0o22)
    os.umask(umask)
    return freeze([err, sys.stdout.fileno(), sys.stderr.fileno(), os.getcwd(), umask, signal.getsignal(signal.SIGINT) is signal.default_int_handler,
                   repr(np.array([1 / 3, 1e-9])), sys.getrecursionlimit(), sorted(k for k in os.environ if not k.startswith("VERIF"))])


def edges(op, bad):
    from pyEdgeEval.edge_tools import transforms as T
    lab, onehot, inst = mask_data(op)
    n = len(onehot)
    if bad == "ndim":
        onehot = onehot[0]
    kw = dict(radius=op["radius"], use_cv2=op["cv2"])
    if bad == "radius":
        kw["radius"] = None
    ign = [i for i in op["ignore"] if i < n]
    ids = [x for x in op["labels"] if x > 0]
    if op["how"] == "class":
        l2t = {v: i for i, v in enumerate(sorted(set(op["labels"]) if op["inst"] else range(op["n"])))} if op["l2t"] else None
        cls = T.InstanceMask2Edge if op["inst"] else T.Mask2Edge
        args = dict(labelIds=list(range(n)), ignore_indices=ign, label2trainId=l2t, **kw)
        if op["inst"]:
            args["inst_labelIds"] = ids
        key = ("m2e", op.get("owner"), op["inst"], repr(sorted(args.items())))
        f = SLOTS.get(key)
        if f is None:
            f = SLOTS[key] = guarded(cls, **args)
        out = guarded(f, lab.astype(np.uint8), inst) if op["inst"] else guarded(f, lab.astype(np.uint8))
        out = [out["edge"], out["mask"]]
    else:
        args = dict(mask=onehot, ignore_indices=ign, **kw)
        if op["how"] == "mp":
            args["nproc"] = op["nproc"]
        else:
            args["thin"] = op["thin"]
            args["internal_only"] = op["internal"]
        if op["inst"]:
            args.update(inst_mask=inst, inst_labelIds=ids)
        out = guarded(T.mask2edge, op["how"], op["inst"], **args)
    _KEEP.append((out, freeze(out)))
    return freeze(out)


def kept_unchanged():
    """results of earlier calls that later calls changed"""
    return sum(1 for o, f in _KEEP if freeze(o) != f)


def bounds(op, r, bad):
    h, w = op["h"], op["w"]
    e = gen.lines(r, h, w, 4)
    if r.rand() < 0.1:
        e[:] = False
    p = gen.prediction(r, e, 0) / 255
    if op["dt"] == "float32":
        p = p.astype("float32")
    thr = np.array(op["thr"])
    kw = dict(max_dist=op["max_dist"], apply_thinning=op["thin"], apply_nms=op["nms"])
    if op.get("kwargs"):
        kw["nms_kwargs"] = dict(r=op["kwargs"], s=5, m=1.01, half_prec=False)
    if bad == "shape":
        p = p[:, :-1]
    if op["which"] == "gts":
        from pyEdgeEval.common.binary_label.evaluate_boundaries import evaluate_boundaries_threshold_multiple_gts as f
        gts = [e.astype(np.uint8), gen.lines(r, h, w, 3).astype(np.uint8)]
        return freeze(guarded(f, thr, p, gts, **kw))
    if op["which"] == "bin":
        from pyEdgeEval.common.binary_label.evaluate_boundaries import evaluate_boundaries_threshold as f
        return freeze(guarded(f, thr, p, e.astype(np.uint8), **kw))
    from pyEdgeEval.common.multi_label.evaluate_boundaries import evaluate_boundaries_threshold as f
    seg = gen.blocks(r, h, w, [0, 1], 4) == 1
    return freeze(guarded(f, thr, p, e.astype(np.uint8), gt_seg=None if bad == "seg" else seg, kill_internal=op["kill"] or bad == "seg",
                          skip_if_nonexistent=op["skip"], **kw))


def evaluation(op, bad):
    c = dict(op["sc"])
    if bad == "thr":
        c["thresholds"] = "many"
    if c["api"] == "cli":
        import tempfile
        d = tempfile.mkdtemp(dir=c["root"])
        if bad:
            c["root"] = c["root"] + "/nowhere"
        gen.evaluate(c, d, op["nproc"])
        return freeze({k: v for k, v in gen.results(d).items()})
    key = (op.get("owner"), c["kind"], c["root"], c["pred"], c["split"], c["thin"], c["gt_dir"], c["suffix"])
    ev = SLOTS.get(key) if op["reuse"] else None
    if ev is None:
        ev = gen.make(c)
        if op["reuse"]:
            SLOTS[key] = ev
    else:
        if c["kind"] == "bsds":
            ev.set_sample_names(list(c["explicit"]) if c["explicit"] is not None else None)
        else:
            ev.set_sample_names(sample_names=list(c["explicit"]) if c["explicit"] is not None else None, split_file=c["split_file"])
        ev.set_eval_params(**c["params"])
    if bad == "names":
        ev.set_sample_names(sample_names=[])
    if bad == "missing":
        ev.pred_root += "/nowhere"
        try:
            return freeze(gen.evaluate_with(ev, c, None, op["nproc"]))
        finally:
            ev.pred_root = ev.pred_root[:-len("/nowhere")]
    if bad == "category" and c["kind"] != "bsds":
        c["categories"] = [99]
    names0, params0 = ev.sample_names, freeze(ev.eval_params)
    cats, thr = c["categories"], c["thresholds"]
    f0 = freeze([cats, thr])
    import tempfile
    d = tempfile.mkdtemp(dir=c["root"])
    v = gen.evaluate_with(ev, dict(c, categories=cats), d, op["nproc"])
    if freeze([cats, thr]) != f0:
        raise Mutated("evaluate changed the caller's lists")
    if ev.sample_names != names0 or freeze(ev.eval_params) != params0:
        raise Mutated("evaluate changed the evaluator's sample names or parameters")
    ev.sample_names.append("never listed")
    return freeze([v, gen.results(d)])
