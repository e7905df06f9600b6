#!/usr/bin/env python3
"""Writes MANIFEST.json from the property modules that exist."""
import ast, json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
    "P30": "A pure function of one array: no schedule, clock, I/O, crash or second party for the simulator to vary, so simulation would only be input sampling.",
    "P31": "A pure per-image computation without schedule, time, I/O or faults; its history- and thread-independence is decided by P02 and P12.",
    "P32": "A pure function of one mask; the parallel variant's equality with it under every interleaving is decided by P11, the conversions' use of it by P08 and P09.",
    "P33": "Arithmetic on four count vectors, nothing nondeterministic involved; that the right counts are pooled is decided by P04.",
    "P34": "Parsing of one argument, a pure function.",
    "P35": "Drawing code without concurrency, durability or time; it only reads files whose truthfulness P05 decides.",
}
NOTE = ("Seeded random search over workloads, interleavings and faults of the real code in simulated processes: it shows the presence of "
        "violations and, by the counts in the evidence, how much was explored; it is no proof. Violations are minimised, replayed in a fresh "
        "process and reported only when they reproduce. ")
checks, done = [], set()
for f in sorted(os.listdir(os.path.join(V, "dst/props"))):
    if not (f[0] == "p" and f[1:3].isdigit() and f.endswith(".py")):
        continue
    t = ast.parse(open(os.path.join(V, "dst/props", f)).read())
    c = {}
    for n in t.body:
        if isinstance(n, ast.Assign):
            try:
                c[n.targets[0].id] = ast.literal_eval(n.value)
            except Exception:
                pass
    i = c["ID"]
    done.add(i)
    checks.append(dict(property=i, quick_cmd="python3 check.py %s" % i, thorough_cmd="python3 check.py %s --thorough" % i,
                       evidence_file="evidence/%s.json" % i,
                       technique=c.get("TECHNIQUE", "deterministic simulation with fault injection: seeded search over schedules and fault sequences"),
                       level="exploration",
                       level_note=NOTE + "Real: " + "; ".join(c["REAL"]) + ". Stubbed: " + "; ".join(c["STUB"]) + ". Assumes: " + "; ".join(c["ASSUMES"]) + "."))
na = []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)
    if p["id"] in NA:
        na.append(dict(property=p["id"], reason=NA[p["id"]]))
    elif p["id"] not in done:
        na.append(dict(property=p["id"], reason="Not claimed yet: its check is still being built."))
m = dict(version=1, setup_cmd="bash setup.sh",
         hooks=dict(guard="none: no hooks were added", enable="the checks interpose at the operating-system interface (LD_PRELOAD dst/libsim.c) and on the standard library's pool, locks and clock; /repo has no hooks", source_commits=[]),
         checks=checks, not_applicable=na,
         notes="All commits in /repo are unguarded repairs of genuine defects (see known_findings.txt).")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), len(na))
