#!/usr/bin/env python3
"""Checks of the machinery itself (not registered as checks of a property).

determinism   every run of every property is executed twice, spread over a different number of
              processes; the digests of both executions (scheduler decisions, fired faults, operation
              log, results) must be equal
pool          programs using a process pool give the same outcome in the simulated pool, under many
              schedules, as in the real one

selftest.py [determinism|pool] [P01 ...]
"""
import json
import os
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def determinism(ids):
    bad = 0
    for i in ids:
        got = []
        for shards in ("1", "5"):
            with tempfile.NamedTemporaryFile(suffix=".json") as f:
                e = dict(os.environ, VERIF_RUNS=os.environ.get("VERIF_RUNS", "100"), VERIF_DIGEST=f.name, VERIF_SHARDS=shards)
                r = subprocess.run([sys.executable, HERE + "/check.py", i], env=e, capture_output=True, text=True)
                got.append(json.load(open(f.name)))
                if r.returncode:
                    print(i, "exit", r.returncode, r.stdout[-300:])
                    bad += 1
        d = [a[0] for a, b in zip(*got) if a != b]
        print("%s: %d runs twice, %d differ %s" % (i, len(got[0]), len(d) + abs(len(got[0]) - len(got[1])), d[:4]), flush=True)
        bad += bool(d) or len(got[0]) != len(got[1])
    return bad


if __name__ == "__main__":
    what = sys.argv[1] if len(sys.argv) > 1 else "determinism"
    ids = sys.argv[2:] or ["P%02d" % k for k in range(1, 19)]
    if what == "pool":
        r = subprocess.run([sys.executable, HERE + "/check.py", "POOL"])
        os.path.exists(HERE + "/evidence/POOL.json") and os.unlink(HERE + "/evidence/POOL.json")
        sys.exit(r.returncode)
    sys.exit(1 if determinism(ids) else 0)
