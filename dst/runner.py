"""Seeded search over runs, minimisation, replay, evidence."""
import hashlib
import importlib
import importlib.abc
import importlib.machinery
import importlib.util
import json
import os
import re
import shutil
import signal
import struct
import subprocess
import sys
import tempfile
import time
import traceback

from . import build, simlib
from .choices import derive
from .simlib import HarnessError, Sim, Violation

VERIF = build.VERIF
NSHARDS = int(os.environ.get("VERIF_SHARDS", "8"))
KNOWN = os.path.join(VERIF, "known_findings.txt")


# ---------------------------------------------------------------- the package under test
class Finder(importlib.abc.MetaPathFinder):
    """pyEdgeEval from the repository's working tree, its extensions from our build."""

    def __init__(self, exts):
        self.exts = exts
        self.codes = {}

    def find_spec(self, name, path=None, target=None):
        if name in self.exts:
            return importlib.util.spec_from_file_location(
                name, self.exts[name], loader=importlib.machinery.ExtensionFileLoader(name, self.exts[name]))
        if name != "pyEdgeEval" and not name.startswith("pyEdgeEval."):
            return None
        p = os.path.join(build.REPO, *name.split("."))
        if os.path.isdir(p):
            f, pkg = os.path.join(p, "__init__.py"), [p]
            if not os.path.exists(f):
                return None
        else:
            f, pkg = p + ".py", None
        if not os.path.exists(f):
            return None
        return importlib.util.spec_from_file_location(name, f, loader=Loader(name, f, self), submodule_search_locations=pkg)


class Loader(importlib.machinery.SourceFileLoader):
    def __init__(self, name, path, finder):
        super().__init__(name, path)
        self.finder = finder

    def get_code(self, fullname):
        c = self.finder.codes.get(self.path)
        if c is None:
            with open(self.path, "rb") as f:
                c = compile(f.read(), self.path, "exec", dont_inherit=True)
            self.finder.codes[self.path] = c
        return c


FINDER = None


def boot(preimport, threads=False):
    """Bring the (pristine) process to the point from which worlds are forked."""
    global FINDER
    sys.dont_write_bytecode = True
    simlib.load_lib()
    os.environ["MPLBACKEND"] = "Agg"
    import warnings
    warnings.filterwarnings("ignore")
    import cv2
    cv2.setNumThreads(1)
    import numpy, scipy.io, scipy.ndimage, scipy.signal, PIL.Image, PIL.PngImagePlugin, PIL.TiffImagePlugin, PIL.BmpImagePlugin  # noqa
    import skimage.util, skimage.io, prettytable, mat73, pymatreader  # noqa
    import PIL.Image
    PIL.Image.init()
    import multiprocessing.pool, multiprocessing.sharedctypes, multiprocessing.synchronize, multiprocessing.heap  # noqa
    import logging, tempfile, random, concurrent.futures  # noqa
    try:
        import cityscapesscripts.helpers.labels  # noqa
        import cityscapesscripts.helpers.csHelpers  # noqa
        import cityscapesscripts.preparation.json2labelImg  # noqa
    except ImportError:
        pass
    tempfile.gettempdir()
    exts = json.loads(os.environ["SIM_EXTS"])
    FINDER = Finder(exts)
    sys.meta_path.insert(0, FINDER)
    for m in [m for m in sys.modules if m == "pyEdgeEval" or m.startswith("pyEdgeEval.")]:
        del sys.modules[m]
    from . import simpool, simthreads
    signal.signal(signal.SIGINT, signal.default_int_handler)      # a shell may have started this ignoring it
    simpool.install()
    simthreads.install()
    # compile everything once; worlds that import afresh only execute it
    for d, ds, fs in os.walk(os.path.join(build.REPO, "pyEdgeEval")):
        for f in fs:
            if f.endswith(".py"):
                try:
                    Loader("x", os.path.join(d, f), FINDER).get_code("x")
                except SyntaxError:
                    raise
    if preimport:
        import pyEdgeEval  # noqa
        for m in ("evaluators", "helpers", "helpers.convert_cityscapes", "edge_tools", "preprocess",
                  "preprocess.nms.fast_nms", "datasets", "utils", "common.binary_label", "common.multi_label"):
            try:
                importlib.import_module("pyEdgeEval." + m)
            except ImportError:
                pass
    import gc
    gc.collect()
    gc.freeze()
    gc.disable()


# ---------------------------------------------------------------- one run
def one(prop, sim, seed=0, prefix=None):
    """returns (status, info): ok / violation / harness"""
    sim.begin(seed, prefix)
    try:
        prop.run(sim)
        bad = [w for w in sim.worlds if w.kind == "timeout"]
        if bad:
            return "harness", "world %s exceeded its wall limit" % bad[0].label
        return "ok", None
    except Violation as v:
        return "violation", v
    except HarnessError as e:
        return "harness", str(e)
    except Exception:
        return "harness", traceback.format_exc()
    finally:
        sim.end()


def run_key(sim):
    h = hashlib.sha256()
    for x in sim.hists:
        h.update(x.encode())
    for x in sorted(sim.marks, key=repr):
        h.update(repr(x).encode())
    return h.hexdigest()[:20]


def digest(sim):
    """everything a run did, for the determinism self-test (tools/selftest.py)"""
    h = hashlib.sha256()
    parts = [repr((w.kind, w.hist, w.steps, w.kcount, w.log, w.fired, w.exc and w.exc[:2], w.stdout)).replace(sim.root, "<root>") for w in sim.worlds]
    for p in parts:
        h.update(p.encode())
    h.update(json.dumps(sim.ch.record()).encode())
    if os.environ.get("VERIF_DIGEST_PARTS"):       # debugging aid
        with open(os.environ["VERIF_DIGEST_PARTS"], "a") as f:
            f.write("\n".join(parts) + "\n")
    return h.hexdigest()


def shrink(prop, sim, rec, key, deadline):
    """Delta debugging over the recorded choices while the same violation persists."""
    best = {n: list(v) for n, v in rec.items()}
    tries = 0

    def attempt(cand):
        nonlocal best, tries
        if simlib.REAL["monotonic"]() > deadline:
            return False
        tries += 1
        st, v = one(prop, sim, 0, cand)
        if st == "violation" and v.key == key:
            r = sim.ch.record()
            if size(r) <= size(cand) or size(r) < size(best):
                best = r
            else:
                best = {n: list(x) for n, x in cand.items()}
            return True
        return False

    def size(r):
        return (sum(len(r[n]) for n in r), sum(sum(1 for x in r[n] if x) for n in r), sum(sum(r[n]) for n in r))

    for n in ("s", "f", "w"):
        if best[n]:
            attempt({**best, n: []})
    improved = True
    while improved and simlib.REAL["monotonic"]() < deadline:
        improved = False
        before = size(best)
        for n in ("s", "f", "w"):
            step = max(1, len(best[n]) // 2)
            while step >= 1 and simlib.REAL["monotonic"]() < deadline:
                i = 0
                while i < len(best[n]):
                    if simlib.REAL["monotonic"]() > deadline:
                        break
                    cur = best[n]
                    if any(cur[i:i + step]):
                        z = cur[:i] + [0] * len(cur[i:i + step]) + cur[i + step:]
                        if attempt({**best, n: z}):
                            continue_at = i + step
                            i = continue_at
                            continue
                    if n == "s" or step > 1:
                        d = cur[:i] + cur[i + step:]
                        if attempt({**best, n: d}):
                            continue
                    i += step
                step //= 2
            for i in range(min(len(best[n]), 200)):
                if i >= len(best[n]):
                    break
                v = best[n][i]
                for c in (v // 2, v - 1):
                    if 0 < c < v and i < len(best[n]):
                        cand = list(best[n])
                        cand[i] = c
                        if attempt({**best, n: cand}):
                            break
        improved = size(best) < before
    return best, tries


def write_replay(pid, key, msg, rec, seed, sim, v):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    body = dict(property=pid, seed=seed, key=key, message=msg, choices=rec,
                tier=os.environ.get("VERIF_TIER", "quick"), workload=sim.sample,
                worlds=[dict(label=w.label, outcome=w.kind, exception=(w.exc or [None, None])[:2],
                             faults_fired=w.fired, schedule=list(w.trace)[:300],
                             operations=["%s%s %s#%d %s" % (a, "" if b == "NONE" else "!" + b, "main" if c == 0 else "w%d" % c, e, f)
                                         for a, b, c, e, f in w.log[:300]])
                        for w in sim.worlds],
                detail={k: str(x)[:4000] for k, x in (v.detail or {}).items()})
    name = "%s-%s.json" % (pid, hashlib.sha256(json.dumps([key, rec], sort_keys=True).encode()).hexdigest()[:12])
    p = os.path.join(d, name)
    with open(p, "w") as f:
        json.dump(body, f, indent=1)
    return p


def shard_main(prop, k, n, seeds, cap, scratch, wfd, stop_at):
    simlib_real = simlib.REAL["monotonic"]
    import ctypes
    ctypes.CDLL(None).prctl(36, 1, 0, 0, 0)      # PR_SET_CHILD_SUBREAPER
    sim = Sim(k, os.path.join(scratch, "s%d" % k))
    res = dict(runs=0, counts={}, keys=[], samples=[], violations=[], harness=[], nontrivial=0, digests=[])
    keys = {}
    try:
        i = k
        while i < len(seeds) and simlib_real() < stop_at:
            seed = seeds[i]
            st, v = one(prop, sim, seed)
            i += n
            res["runs"] += 1
            if st == "harness":                    # a starved machine can miss a wall limit: once more
                if len(res["harness"]) < 3:
                    res["harness"].append((seed, v))
                st2, v2 = one(prop, sim, seed)
                if st2 != "harness":
                    res["harness"].pop()
                    st, v = st2, v2
            for c, x in sim.counts.items():
                res["counts"][c] = res["counts"].get(c, 0) + x
            rk = run_key(sim)
            if rk not in keys:
                keys[rk] = 1
                res["nontrivial"] += 1 if sim.interesting else 0
            if len(res["samples"]) < 2 and sim.sample and sim.interesting:
                res["samples"].append(dict(seed=seed, what=sim.sample,
                                           schedule=[list(w.trace)[:12] for w in sim.worlds][:2],
                                           faults=[list(f) for w in sim.worlds for f in w.fired][:6]))
            if os.environ.get("VERIF_DIGEST"):
                res["digests"].append((seed, digest(sim)))
            if st == "violation":
                known = known_match(prop.ID, v.key)
                if known is not None:
                    res["counts"]["known:" + known] = res["counts"].get("known:" + known, 0) + 1
                    continue
                rec = sim.ch.record()
                best, tries = shrink(prop, sim, rec, v.key, min(stop_at + 45, simlib_real() + cap))
                st3, v3 = one(prop, sim, 0, best)
                if not (st3 == "violation" and v3.key == v.key):
                    best = rec
                    st3, v3 = one(prop, sim, 0, best)
                ok = st3 == "violation" and v3.key == v.key
                p = write_replay(prop.ID, v.key, v3.msg if ok else v.msg, best, seed, sim, v3 if ok else v)
                res["violations"].append(dict(key=v.key, msg=v3.msg if ok else v.msg, replay=p, seed=seed,
                                              shrink_tries=tries, reproduced=ok))
                break
            if len(res["harness"]) >= 3:
                break
        res["keys"] = list(keys)
    except BaseException:
        res["harness"].append((-1, traceback.format_exc()))
    finally:
        sim.close()
    data = json.dumps(res, default=str).encode()
    with os.fdopen(wfd, "wb") as f:
        f.write(data)
    os._exit(0)


# ---------------------------------------------------------------- known findings
def known_list(pid):
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m[1] == pid:
                out.append((m[2], m[3]))
    return out


def known_match(pid, key):
    for k, text in known_list(pid):
        if k == key:
            return k
    return None


# ---------------------------------------------------------------- entry
def check(pid, argv):
    t0 = simlib.REAL["monotonic"]()
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in argv:
        tier = "thorough"
        os.environ["VERIF_TIER"] = tier
    seed0 = int(os.environ.get("VERIF_SEED", "1") or 1)
    mod = importlib.import_module("dst.props." + pid.lower())
    boot(getattr(mod, "PREIMPORT", True), getattr(mod, "THREADS", False))
    boot_s = simlib.REAL["monotonic"]() - t0
    base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else tempfile.gettempdir()
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % pid, dir=base)
    try:
        if "--replay" in argv:
            return replay(mod, argv[argv.index("--replay") + 1], scratch)
        nruns = int(os.environ.get("VERIF_RUNS") or mod.RUNS[tier])
        limit = float(os.environ.get("VERIF_LIMIT") or (getattr(mod, "LIMIT", {}).get(tier) or (200 if tier == "quick" else 3000)))
        seeds = [derive(seed0, pid, i) for i in range(nruns)]
        if os.environ.get("VERIF_SEEDS"):
            seeds = [int(x) for x in os.environ["VERIF_SEEDS"].split(",")]
            nruns = len(seeds)
        n = min(NSHARDS, nruns)
        procs = []
        stop_at = simlib.REAL["monotonic"]() + limit
        sys.stdout.flush()
        for k in range(n):
            r, w = os.pipe()
            p = os.fork()
            if p == 0:
                os.close(r)
                for _, rr in procs:
                    os.close(rr)
                shard_main(mod, k, n, seeds, 60 if tier == "quick" else 240, scratch, w, stop_at)
            os.close(w)
            procs.append((p, r))
        results = []
        for p, r in procs:
            with os.fdopen(r, "rb") as f:
                data = f.read()
            os.waitpid(p, 0)
            results.append(json.loads(data) if data else dict(runs=0, counts={}, keys=[], samples=[], violations=[], nontrivial=0, digests=[],
                                                              harness=[(-1, "a shard ended without a report")]))
        return finish(mod, pid, tier, seed0, results, simlib.REAL["monotonic"]() - t0, boot_s, nruns)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def finish(mod, pid, tier, seed0, results, wall, boot_s, nruns):
    counts = {}
    for r in results:
        for k, v in r["counts"].items():
            counts[k] = counts.get(k, 0) + v
    runs = sum(r["runs"] for r in results)
    keys = set(k for r in results for k in r["keys"])
    viol = [v for r in results for v in r["violations"]]
    harness = [h for r in results for h in r["harness"]]
    known_hit = {k[6:]: v for k, v in counts.items() if k.startswith("known:")}
    faults = {k[6:]: v for k, v in sorted(counts.items()) if k.startswith("fault:")}
    other = {k: v for k, v in sorted(counts.items()) if not k.startswith(("fault:", "known:")) and k not in ("sim_ns",)}
    if os.environ.get("VERIF_DIGEST"):
        with open(os.environ["VERIF_DIGEST"], "w") as f:
            json.dump(sorted(d for r in results for d in r["digests"]), f)
    # confirm each violation in a fresh process; drop duplicates of one key
    confirmed, seen = [], set()
    for v in viol:
        if v["key"] in seen:
            continue
        ok = False
        for _ in range(2):
            r = subprocess.run([sys.executable, os.path.join(VERIF, "check.py"), pid, "--replay", v["replay"]],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=clean_env(), timeout=400)
            if r.returncode == 1 and ("REPRODUCED key=" + v["key"]) in r.stdout.decode(errors="replace"):
                ok = True
                break
        if ok:
            confirmed.append(v)
            seen.add(v["key"])
        else:
            harness.append((v["seed"], "violation %s did not reproduce from %s: %s" % (v["key"], v["replay"], v["msg"])))
    samples = [s for r in results for s in r["samples"]][:3]
    search_s = max(0.001, wall - boot_s)
    nontrivial = min(sum(r["nontrivial"] for r in results), len(keys))
    ev = dict(property=pid, tier=tier, seed=seed0, level="exploration",
              coverage=dict(
                  evaluations=runs, distinct_nontrivial=nontrivial,
                  rule=mod.RULE, samples=samples or [dict(note="no sample recorded")],
                  distinct_executions=len(keys),
                  distinct_measure="hash over every world's scheduler decisions and the run's marks (workload shape, fault plan as fired)",
                  runs_per_hour=int(runs / search_s * 3600), seeds_per_hour=int(runs / search_s * 3600),
                  simulated_seconds=round(counts.get("sim_ns", 0) / 1e9, 3),
                  faults_fired=faults, counters=other,
                  real_components=mod.REAL, stubbed_components=mod.STUB,
                  known_findings_seen=known_hit),
              assumptions=mod.ASSUMES, wall_s=round(wall, 2), violations=len(confirmed))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", pid + ".json")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    for k, text in known_list(pid):
        if k in known_hit:
            print("KNOWN-FINDING: property=%s %s [%s]" % (pid, text, k))
    print("%s: %d runs (%d distinct executions, %d non-trivial), %d worlds, %d faults fired, %.0f s"
          % (pid, runs, len(keys), nontrivial, counts.get("worlds", 0), sum(faults.values()), wall))
    for v in confirmed:
        print("  %s: %s (seed %d, minimised in %d tries)" % (v["key"], v["msg"][:700], v["seed"], v["shrink_tries"]))
        print("VIOLATION property=%s replay=%s" % (pid, v["replay"]))
    if confirmed:
        return 1
    if harness:
        for s, h in harness[:3]:
            print("HARNESS-ERROR seed=%s %s" % (s, h[-1800:]))
        return 2
    if runs < min(nruns, max(8, nruns // 20)):
        print("HARNESS-ERROR only %d of %d runs were made in the time given" % (runs, nruns))
        return 2
    missing = [p for p in getattr(mod, "PROBES", ()) if not any(k == p or k.startswith(p) for k in counts)]
    if missing and runs >= nruns * 0.8:
        print("HARNESS-ERROR probes never hit: %s" % ", ".join(missing))
        return 2
    return 0


def clean_env():
    e = {k: v for k, v in os.environ.items() if k not in ("LD_PRELOAD", "SIM_LIB", "SIM_EXTS", "SIM_EXEC", "VERIF_DIGEST")}
    return e


def replay(mod, path, scratch):
    with open(path) as f:
        body = json.load(f)
    os.environ["VERIF_TIER"] = body.get("tier", "quick")
    import ctypes
    ctypes.CDLL(None).prctl(36, 1, 0, 0, 0)
    sim = Sim(0, os.path.join(scratch, "s0"))
    try:
        st, v = one(mod, sim, 0, body["choices"])
    finally:
        sim.close()
    if st == "violation":
        print("%s: %s" % (v.key, v.msg))
        for k, x in v.detail.items():
            print("  %s: %s" % (k, str(x)[:3000]))
        if v.key == body["key"]:
            print("REPRODUCED key=" + v.key)
            print("VIOLATION property=%s replay=%s" % (mod.ID, path))
        else:
            print("VIOLATION property=%s replay=%s" % (mod.ID, path))
        return 1
    if st == "harness":
        print("HARNESS-ERROR " + str(v)[-2000:])
        return 2
    print("replay: the property held")
    return 0
