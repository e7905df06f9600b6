"""Self-test, not a property: programs using a process pool end in the simulated one as they do in the real one (tools/selftest.py pool)."""
import os
import subprocess
import sys

from ..simlib import Violation

HERE = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, HERE + "/tools")
import poolprograms  # noqa: E402

ID = "POOL"
RUNS = {"quick": 3000, "thorough": 30000}
RULE = "self-test"
REAL, STUB, ASSUMES = [], [], []
NAMES = poolprograms.names()
PROBES = tuple("program:" + n for n in NAMES)
KNOWN = {}


def real(name):
    if name not in KNOWN:
        e = {k: v for k, v in os.environ.items() if k not in ("LD_PRELOAD", "SIM_LIB", "SIM_EXTS", "SIM_EXEC")}
        r = subprocess.run([sys.executable, HERE + "/tools/poolprograms.py", name], env=e, capture_output=True, text=True, timeout=60)
        KNOWN[name] = r.stdout.strip()
    return KNOWN[name]


def run(sim):
    name = sim.w.pick([n for n in NAMES if n in os.environ.get("PROGS", "").split()] or NAMES)
    sim.count("program:" + name)
    want = real(name)
    o = sim.world(poolprograms.run, name, sched=True, label=name)
    sim.interesting = True
    sim.marks.add(name)
    sim.sample = [dict(program=name, outcome=want)]
    if o.kind == "timeout":
        return
    got = o.value.replace("poolprograms.", "__main__.") if o.kind == "ok" else "%s %s" % (o.kind, o.exc)
    if got != want:
        raise Violation(name, "%s: simulated %s, real %s" % (name, got, want))
