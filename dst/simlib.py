"""Worlds: one simulated execution of real code under the control block."""
import ctypes
import faulthandler
import gc
import hashlib
import io
import mmap
import os
import pickle
import select
import shutil
import signal
import socket
import struct
import subprocess
import sys
import tempfile
import time
import traceback
import zlib

from . import build
from .choices import Choices, derive

REPO = build.REPO
PKG = os.path.join(REPO, "pyEdgeEval") + os.sep

KINDS = ["OPEN_R", "OPEN_W", "READ", "WRITE", "CLOSE_W", "MKDIR", "RENAME", "UNLINK", "RMDIR",
         "FSYNC", "OPENDIR", "LINE", "TASK", "LINK"]
K = {n: i for i, n in enumerate(KINDS)}
ACTS = ["NONE", "ERRNO", "SHORT", "CRASH_BEFORE", "CRASH_AFTER", "TORN", "EINTR", "STALL",
        "KILLSELF", "RAISE", "SHORTREAD"]
A = {n: i for i, n in enumerate(ACTS)}
NKINDS = 16
EPOCH = 1_700_000_000_000_000_000

lib = None


def load_lib():
    global lib
    if lib is None:
        lib = ctypes.CDLL(os.environ["SIM_LIB"])
        lib.sim_ctl_size.restype = ctypes.c_size_t
        lib.sim_off.restype = ctypes.c_size_t
        lib.sim_off.argtypes = [ctypes.c_char_p]
        lib.sim_attach.argtypes = [ctypes.c_void_p]
        lib.sim_process.argtypes = [ctypes.c_int] * 3
        lib.sim_budget.argtypes = [ctypes.c_int64]
        lib.sim_now.restype = ctypes.c_int64
    return lib


class Ctl:
    """The control block shared by the driver, the simulated process and its workers."""

    def __init__(self, fd=None):
        load_lib()
        self.size = lib.sim_ctl_size()
        if fd is None:
            fd = os.memfd_create("simctl", 0)
            os.ftruncate(fd, self.size)
        self.fd = fd
        self.buf = mmap.mmap(fd, self.size)
        self.addr = ctypes.addressof(ctypes.c_char.from_buffer(self.buf))
        self.off = {}

    def o(self, f):
        if f not in self.off:
            self.off[f] = lib.sim_off(f.encode())
        return self.off[f]

    def get(self, f, fmt="<I"):
        return struct.unpack_from(fmt, self.buf, self.o(f))[0]

    def set(self, f, v, fmt="<I"):
        struct.pack_into(fmt, self.buf, self.o(f), v)

    def reset(self, root, plans=(), jumps=(), now=EPOCH, tick=1000, clock=True, rand=(0, 0),
              dir_seed=0, rnd_seed=1, rel_ok=False, log=True):
        off_log = self.o("log")
        self.buf[0:off_log] = bytes(off_log)
        r = (root.rstrip("/") + "/").encode()
        assert len(r) < 250
        self.buf[self.o("root"):self.o("root") + len(r)] = r
        self.set("rootlen", len(r))
        self.set("rel_ok", int(rel_ok))
        self.set("nplan", len(plans))
        for i, p in enumerate(plans):
            struct.pack_into("<6I", self.buf, self.o("plans") + 24 * i, *p, 0, 0)
        self.set("njumps", len(jumps))
        for i, (at, d) in enumerate(jumps):
            struct.pack_into("<IIq", self.buf, self.o("jumps") + 16 * i, at, 0, d)
        self.set("now_ns", now, "<q")
        self.set("tick_ns", tick, "<q")
        self.set("clock_on", int(clock))
        self.set("rand_mode", rand[0])
        self.set("rand_state", rand[1] & ((1 << 64) - 1), "<Q")
        self.set("dir_on", 1)
        self.set("dir_seed", dir_seed, "<Q")
        self.set("rnd_state", rnd_seed, "<Q")
        self.set("log_on", int(log))

    def kcount(self, kind):
        return struct.unpack_from("<I", self.buf, self.o("kcount") + 4 * kind)[0]

    def kcounts(self):
        return list(struct.unpack_from("<16I", self.buf, self.o("kcount")))

    def add_plan(self, kind, nth, action, arg):
        """from inside a world: strike at the nth such operation from now on"""
        i = self.get("nplan")
        struct.pack_into("<6I", self.buf, self.o("plans") + 24 * i, kind, self.kcount(kind) + nth, action, arg, 0, 0)
        self.set("nplan", i + 1)
        return i

    def cancel_plan(self, i):
        struct.pack_into("<I", self.buf, self.o("plans") + 24 * i, 0xffff)

    def plans(self):
        out = []
        for i in range(self.get("nplan")):
            out.append(struct.unpack_from("<6I", self.buf, self.o("plans") + 24 * i))
        return out

    def jumps_fired(self):
        return [struct.unpack_from("<IIq", self.buf, self.o("jumps") + 16 * i) for i in range(self.get("njumps"))]

    def log(self):
        n, base = self.get("nlog"), self.o("log")
        out = []
        for i in range(n):
            kind, act, who, no = struct.unpack_from("<BBHI", self.buf, base + 112 * i)
            path = self.buf[base + 112 * i + 8: base + 112 * i + 112].split(b"\0", 1)[0]
            out.append((KINDS[kind], ACTS[act], who, no, path.decode(errors="replace")))
        return out


class WorldState:
    """Inside the simulated process."""

    def __init__(self):
        self.trace = []
        self.hist = hashlib.sha256()
        self.steps = 0
        self.ch = None
        self.ctl = None
        self.sched = False
        self.worker = 0          # >0 in a worker process
        self.threads = None
        self.lines = False       # every package line is a point
        self.feeding = False     # the thread that feeds tasks to a pool is running
        self.sites = None        # where to note the place of every point
        self.quanta = None       # the drawn table of worker time slices
        self.interrupts = {}     # scheduler step -> exception class name
        self.interrupted = []
        self.stall = 0           # timed waits that are still to run out in a row
        self.expired = 0         # timed waits that ran out while the workers were stalled
        self.flag = b"\0"        # shared with workers: Ctrl-C arrived in one of them
        self.max_steps = 60000
        self.report = None
        self.live = {}           # pid -> worker
        self.spawned = 0

    def note(self, *ev):
        self.hist.update(repr(ev).encode())
        if len(self.trace) < 400:
            self.trace.append(" ".join(str(e) for e in ev))


W = WorldState()
REAL = {"monotonic": time.monotonic, "perf_counter": time.perf_counter}


class Outcome:
    kind = "ok"      # ok exc hang killed native timeout
    value = None
    exc = None       # (type name, message, traceback, from the repository?)
    stdout = ""
    trace = ()
    hist = ""
    steps = 0
    extra = None

    def __repr__(self):
        return "<%s %s>" % (self.kind, (self.exc or ("",))[:2] if self.kind == "exc" else "")


def _monotonic_ns():
    t = time.time_ns()
    for at, fired, d in W.ctl.jumps_fired():
        if fired:
            t -= d
    return t - EPOCH + 1_000_000_000_000


def patch_clock():
    time.monotonic = lambda: _monotonic_ns() / 1e9
    time.perf_counter = lambda: _monotonic_ns() / 1e9
    time.monotonic_ns = _monotonic_ns
    time.perf_counter_ns = _monotonic_ns
    time.process_time = lambda: _monotonic_ns() / 1e9


NSITES = 1 << 18
RAISES = {1: KeyboardInterrupt, 2: MemoryError}


def ctrl_c():
    """what the process does about SIGINT"""
    h = signal.getsignal(signal.SIGINT)
    if h is signal.SIG_IGN:
        return
    if callable(h) and h is not signal.default_int_handler:
        h(signal.SIGINT, sys._getframe(1))
        return
    raise KeyboardInterrupt("injected")


def _inject(code=None, at=0):
    rc = lib.sim_point(K["LINE"])        # others may run and pass points in here, before this one is counted
    if W.sites is not None and code is not None:
        n = W.ctl.kcount(K["LINE"]) - 1
        if 0 <= n < NSITES:
            struct.pack_into("<I", W.sites, 4 * n, zlib.crc32(b"%d%s:%d:%d" % (W.worker > 0, code.co_filename.encode(), code.co_firstlineno, at)))
    if rc:
        if W.worker and rc == 1:
            W.flag[0] = 1        # Ctrl-C reaches every process of the group
        if (W.feeding or (W.threads is not None and W.threads.cur)) and rc == 1:
            W.flag[0] = 1        # a pool's feeder thread is never interrupted; the main thread is, at its next step
            return
        if rc == 1:
            return ctrl_c()
        raise RAISES[rc]("injected")


def _line_cb(code, line):
    if not code.co_filename.startswith(PKG):
        return sys.monitoring.DISABLE
    if W.threads is not None:
        W.threads.point()
    _inject(code, line)


def _switch_cb(code, line):
    if not code.co_filename.startswith(PKG):
        return sys.monitoring.DISABLE
    if W.threads is not None:
        W.threads.point()


def lines_for_threads():
    """a thread was started: threads switch at package lines"""
    m = sys.monitoring
    if not W.lines and m.get_tool(4) is None:
        m.use_tool_id(4, "threads")
        m.register_callback(4, m.events.LINE, _switch_cb)
        m.set_events(4, m.events.LINE)


def lines_on():
    W.lines = True
    m = sys.monitoring
    m.use_tool_id(3, "sim")
    m.register_callback(3, m.events.LINE, _line_cb)
    m.set_events(3, m.events.LINE)


# Points at which the interpreter itself looks for signals: the start of a function and the return of a call into C.  (Line
# events would also strike between a block and its __exit__, where no signal is ever delivered; an exception raised from a
# JUMP event is not seen by the handlers around the loop, which is a defect of CPython's monitoring.)
def _start_cb(code, at):
    if not code.co_filename.startswith(PKG):
        return sys.monitoring.DISABLE
    _inject(code, -1)


def _call_cb(code, at, fn, arg):
    if not code.co_filename.startswith(PKG):
        return sys.monitoring.DISABLE
    c = getattr(fn, "__code__", None)      # the start of a Python function outside the package
    # (not an __exit__: no with statement survives a signal there)
    if c is not None and not c.co_filename.startswith(PKG) and c.co_name != "__exit__":
        _inject(code, at + 100000)


def _return_cb(code, at, fn, arg):
    if code.co_filename.startswith(PKG) and getattr(fn, "__name__", "") not in ("acquire", "release"):
        _inject(code, at)


def signals_on():
    m = sys.monitoring
    e = m.events
    m.use_tool_id(3, "sim")
    for ev, cb in ((e.PY_START, _start_cb), (e.CALL, _call_cb), (e.C_RETURN, _return_cb)):
        m.register_callback(3, ev, cb)
    m.set_events(3, e.PY_START | e.CALL)


def lines_off():
    sys.monitoring.set_events(3, 0)
    sys.monitoring.free_tool_id(3)


def from_repo(tb):
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(PKG) or "/scripts/" in tb.tb_frame.f_code.co_filename:
            return True
        tb = tb.tb_next
    return False


def describe_exc(e):
    return (type(e).__name__, str(e)[:600], "".join(traceback.format_exception(e))[-3500:],
            from_repo(e.__traceback__))


def resolve(ref):
    mod, name = ref
    __import__(mod)
    return getattr(sys.modules[mod], name)


def child_main(spec, ctl, ch, result_fd):
    """Runs in the freshly forked simulated process; never returns."""
    code = 3
    try:
        os.setpgid(0, 0)
        out_fd = os.memfd_create("out", 0)
        null = os.open("/dev/null", os.O_RDONLY)
        os.dup2(null, 0)
        os.dup2(out_fd, 1)
        os.dup2(out_fd, 2)
        sys.stdin = open(0, "r", closefd=False)
        sys.stdout.flush()
        sys.stdout = io.TextIOWrapper(os.fdopen(1, "wb", closefd=False), encoding="utf-8", write_through=True)
        sys.stderr = io.TextIOWrapper(os.fdopen(2, "wb", closefd=False), encoding="utf-8", write_through=True)
        signal.signal(signal.SIGINT, signal.default_int_handler)
        gc.disable()
        if os.environ.get("VERIF_STACKS"):       # debugging aid: where a world is after this many seconds
            faulthandler.dump_traceback_later(float(os.environ["VERIF_STACKS"]), file=open("/tmp/verif-stacks", "a"))
        from . import simpool, simthreads
        W.__init__()
        W.ch, W.ctl, W.sched = ch, ctl, spec["sched"]
        W.interrupts = dict(spec.get("interrupts") or {})
        W.flag = mmap.mmap(-1, 1)
        W.sites = spec.get("sites")
        lib.sim_attach(ctl.addr)
        lib.sim_process(0, -1, -1)
        lib.sim_fds_clear()
        os.chdir(spec["cwd"])
        tempfile.tempdir = os.environ["TMPDIR"] = spec["tmp"]
        fn = resolve(spec["fn"])

        def report(kind, value=None, exc=None):
            ctl.set("active", 0)
            try:
                sys.stdout.flush()
            except Exception:
                pass
            n = os.fstat(out_fd).st_size
            text = os.pread(out_fd, min(n, 200000), max(0, n - 200000)).decode(errors="replace")
            msg = pickle.dumps((kind, value, exc, text, W.trace, W.hist.hexdigest(), W.steps,
                                dict(spawned=W.spawned, live=len(W.live), interrupted=W.interrupted,
                                     expired=W.expired)))
            with os.fdopen(os.dup(result_fd), "wb") as f:
                f.write(struct.pack("<Q", len(msg)) + msg)
            os._exit(0)

        W.report = report
        import random
        import numpy as np
        random.seed(spec.get("pyseed", 0))
        np.random.seed(spec.get("npseed", 0))
        patch_clock()
        for k, v in (spec.get("environ") or {}).items():
            os.environ[k] = v
        ctl.set("active", 1)
        try:
            if spec.get("preload", True):
                import pyEdgeEval  # noqa: F401
            if spec.get("lines"):
                lines_on()
            value = fn(*spec["args"])
        except BaseException as e:
            if W.worker:
                os._exit(1)
            report("exc", None, describe_exc(e))
        if W.worker:
            os._exit(1)
        report("ok", value)
    except BaseException:
        if W.worker:
            os._exit(1)
        try:
            msg = pickle.dumps(("harness", None, ("harness", "", traceback.format_exc(), False), "", [], "", 0, {}))
            os.write(result_fd, struct.pack("<Q", len(msg)) + msg)
        except BaseException:
            pass
    os._exit(code)


def _collect(pid, rfd, timeout):
    """Read the report; returns (kind, tuple)."""
    try:
        pfd = os.pidfd_open(pid)
    except OSError:
        pfd = -1
    buf = b""
    end = REAL["monotonic"]() + timeout
    kind = None
    while True:
        left = end - REAL["monotonic"]()
        if left <= 0:
            kind = "timeout"
            break
        fds = [rfd] + ([pfd] if pfd >= 0 else [])
        r, _, _ = select.select(fds, [], [], left)
        if rfd in r:
            d = os.read(rfd, 1 << 20)
            if not d:
                break
            buf += d
            if len(buf) >= 8 and len(buf) >= 8 + struct.unpack_from("<Q", buf)[0]:
                break
        elif pfd in r:
            break
    if pfd >= 0:
        os.close(pfd)
    try:
        os.killpg(pid, signal.SIGKILL)
    except OSError:
        pass
    if kind == "timeout":
        return kind, None
    if len(buf) >= 8 and len(buf) >= 8 + struct.unpack_from("<Q", buf)[0]:
        return "report", pickle.loads(buf[8:])
    return "dead", None


class Remote:
    """A second zygote with another string-hash seed."""

    def __init__(self, hashseed, ctl, ch):
        a, b = socket.socketpair(socket.AF_UNIX, socket.SOCK_SEQPACKET)
        env = dict(os.environ, PYTHONHASHSEED=str(hashseed))
        env.pop("LD_PRELOAD", None)
        env["LD_PRELOAD"] = os.environ["SIM_LIB"]
        self.p = subprocess.Popen(
            [sys.executable, os.path.join(build.VERIF, "check.py"), "--zygote", str(b.fileno()), str(ctl.fd), str(ch.fd)],
            env=env, pass_fds=[b.fileno(), ctl.fd, ch.fd], stdin=subprocess.DEVNULL)
        b.close()
        self.s = a
        self.s.settimeout(300)
        assert self.s.recv(16) == b"ready"

    def start(self, spec, wfd):
        socket.send_fds(self.s, [pickle.dumps(spec)], [wfd])
        return struct.unpack("<I", self.s.recv(4))[0]

    def status(self, pid):
        self.s.send(struct.pack("<I", pid))
        return struct.unpack("<i", self.s.recv(4))[0]

    def close(self):
        self.s.close()
        self.p.wait()


def zygote_main(sfd, cfd, chfd):
    s = socket.socket(fileno=sfd)
    ctl, ch = Ctl(cfd), Choices(chfd)
    s.send(b"ready")
    while True:
        try:
            msg, fds, _, _ = socket.recv_fds(s, 1 << 16, 1)
        except OSError:
            break
        if not msg:
            break
        spec = pickle.loads(msg)
        pid = os.fork()
        if pid == 0:
            s.close()
            child_main(spec, ctl, ch, fds[0])
        os.close(fds[0])
        s.send(struct.pack("<I", pid))
        q = s.recv(4)
        if not q:
            break
        _, st = os.waitpid(pid, 0)
        s.send(struct.pack("<i", st))
    os._exit(0)


class HarnessError(Exception):
    pass


class Violation(Exception):
    def __init__(self, key, msg, **detail):
        super().__init__(msg)
        self.key, self.msg, self.detail = key, msg, detail


class Sim:
    """One run: the choice streams, the scratch directory, and the worlds run in it."""

    def __init__(self, shard, scratch):
        self.ctl, self.ch = Ctl(), Choices()
        self.shard = shard
        self.base = scratch
        self.remotes = {}
        self.site_map = mmap.mmap(-1, 4 * NSITES)
        self.totals = {}
        self.nrun = 0

    # -- one run
    def begin(self, seed=0, prefix=None):
        self.ch.reset(seed, prefix)
        self.w, self.f, self.s = self.ch.w, self.ch.f, self.ch.s
        self.seed = seed
        self.nrun += 1
        self.root = os.path.join(self.base, "r")
        shutil.rmtree(self.root, ignore_errors=True)
        os.makedirs(self.root + "/tmp")
        self.worlds = []
        self.hists = []
        self.sample = []
        self.marks = set()
        self.counts = {}
        self.interesting = False
        self.rel = False

    def end(self):
        shutil.rmtree(self.root, ignore_errors=True)
        while True:
            try:
                if os.waitpid(-1, os.WNOHANG)[0] == 0:
                    break
            except ChildProcessError:
                break

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def path(self, *p):
        return os.path.join(self.root, *p)

    def dir(self, name):
        d = self.path(name)
        os.makedirs(d, exist_ok=True)
        return d

    def relative(self, n=5):
        """in one run of n, the calls get paths relative to the directory they run in"""
        self.rel = self.w.chance(1, n)
        if self.rel:
            self.count("relative_paths")

    def _relative(self, x):
        if isinstance(x, str):
            return "." if x == self.root else x[len(self.root) + 1:] if x.startswith(self.root + "/") else x
        if isinstance(x, dict):
            return {k: self._relative(v) for k, v in x.items()}
        if type(x) in (list, tuple):
            return type(x)(self._relative(v) for v in x)
        return x

    def world(self, fn, *args, plans=(), jumps=(), sched=False, lines=False, rand=(0, 0), dir_seed=0,
              rnd_seed=1, tick=1000, now=EPOCH, hashseed=None, pyseed=0, npseed=0, environ=None,
              interrupts=None, cwd=None, timeout=60, label="", preload=True, rel_ok=False, sites=False):
        if self.rel:
            args, rel_ok = self._relative(args), True
        spec = dict(fn=(fn.__module__, fn.__name__), args=args, sched=sched, lines=lines, pyseed=pyseed,
                    npseed=npseed, environ=environ, interrupts=interrupts, cwd=cwd or self.root, tmp=self.root + "/tmp",
                    preload=preload, sites=self.site_map if sites else None)
        out = self._world(spec, hashseed, timeout, plans, jumps, now, tick, rand, dir_seed, rnd_seed, rel_ok)
        if out.kind == "timeout":
            # confirm: a second, identical execution of a deterministic world (not resettable once
            # schedule choices were consumed, so only the verdict "timeout" is reported upward)
            self.count("worlds_timed_out")
        o = out
        o.kcount = self.ctl.kcounts()
        o.log = self.ctl.log()
        o.fired = [(KINDS[p[0]], p[1], ACTS[p[2]], p[3]) for p in self.ctl.plans() if p[4]]
        o.fired_in = [p[5] for p in self.ctl.plans() if p[4]]      # 0: the parent, n: its n-th worker
        o.jumps = sum(1 for j in self.ctl.jumps_fired() if j[1])
        o.rand_calls = self.ctl.get("rand_calls")
        o.sim_ns = max(0, self.ctl.get("now_ns", "<q") - now - sum(j[2] for j in self.ctl.jumps_fired() if j[1]))
        o.label = label or fn.__name__
        if sites:
            n = min(o.kcount[K["LINE"]], NSITES)
            o.sites = struct.unpack_from("<%dI" % n, self.site_map, 0)
        self.worlds.append(o)
        self.hists.append(o.hist)
        self.count("worlds")
        self.count("ops", self.ctl.get("opno", "<Q"))
        self.count("sched_steps", o.steps)
        self.count("sim_ns", o.sim_ns)
        self.count("workers_forked", (o.extra or {}).get("spawned", 0))
        for kd, nth, act, arg in o.fired:
            self.count("fault:%s@%s" % (act, kd))
        for _ in range(o.jumps):
            self.count("fault:CLOCK_JUMP")
        if (o.extra or {}).get("expired"):
            self.count("fault:STALLED_WORKERS", o.extra["expired"])
        for name in (o.extra or {}).get("interrupted", ()):
            self.count("fault:INTERRUPT_" + name)
        return o

    def _world(self, spec, hashseed, timeout, plans, jumps, now, tick, rand, dir_seed, rnd_seed, rel_ok):
        self.ctl.reset(self.root, plans=plans, jumps=jumps, now=now, tick=tick, rand=rand,
                       dir_seed=dir_seed, rnd_seed=rnd_seed, rel_ok=rel_ok)
        rfd, wfd = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        if hashseed:
            rem = self.remotes.get(hashseed)
            if rem is None:
                rem = self.remotes[hashseed] = Remote(hashseed, self.ctl, self.ch)
            pid = rem.start(spec, wfd)
        else:
            rem = None
            pid = os.fork()
            if pid == 0:
                os.close(rfd)
                child_main(spec, self.ctl, self.ch, wfd)
        os.close(wfd)
        how, data = _collect(pid, rfd, timeout)
        os.close(rfd)
        st = rem.status(pid) if rem else os.waitpid(pid, 0)[1]
        self.ctl.set("active", 0)
        o = Outcome()
        if how == "report":
            o.kind, o.value, o.exc, o.stdout, o.trace, o.hist, o.steps, o.extra = data
            if o.kind == "harness":
                raise HarnessError(o.exc[2])
        elif how == "timeout":
            o.kind = "timeout"
        elif os.WIFSIGNALED(st) and os.WTERMSIG(st) == signal.SIGKILL:
            o.kind = "killed"
        else:
            o.kind = "native"
            o.exc = ("native", "the process died: wait status %#x" % st, "", True)
        return o

    def close(self):
        for r in self.remotes.values():
            r.close()
        shutil.rmtree(self.base, ignore_errors=True)


def snapshot(d, skip=()):
    """{relative path: bytes | None for a directory}"""
    out = {}
    for dp, ds, fs in os.walk(d):
        ds.sort()
        rel = os.path.relpath(dp, d)
        for x in ds:
            out[os.path.normpath(os.path.join(rel, x))] = None
        for x in fs:
            p = os.path.normpath(os.path.join(rel, x))
            if p in skip:
                continue
            full = os.path.join(dp, x)
            if os.path.islink(full):
                out[p] = b"->" + os.readlink(full).encode()
            else:
                with open(full, "rb") as f:
                    out[p] = f.read()
    return out


def diff_snap(a, b, limit=4):
    """a short description of how two snapshots differ, or ''"""
    out = []
    for k in sorted(set(a) | set(b)):
        if k not in b:
            out.append("missing %s" % k)
        elif k not in a:
            out.append("extra %s" % k)
        elif a[k] != b[k]:
            x, y = a[k], b[k]
            how = ""
            if x is not None and y is not None:
                i = next((i for i, (p, q) in enumerate(zip(x, y)) if p != q), min(len(x), len(y)))
                how = " (%d vs %d bytes, first difference at %d: %r vs %r)" % (
                    len(x), len(y), i, x[max(0, i - 8):i + 24], y[max(0, i - 8):i + 24])
            out.append("differs %s%s" % (k, how))
    if not out:
        return ""
    return "; ".join(out[:limit]) + (" and %d more" % (len(out) - limit) if len(out) > limit else "")
