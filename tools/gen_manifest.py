#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R)
from checks import CHECKS
props = [json.loads(l) for l in open(R + "/properties.jsonl")]
checks, na = [], []
SAN = {"asan": "ASan+UBSan+debug containers", "asan_nd": "ASan+UBSan", "tsan": "ThreadSanitizer",
       "sched": "seeded schedule control with vector-clock race and deadlock monitors", "plain": "uninstrumented build"}
for p in props:
    i = p["id"]
    if i not in CHECKS:
        na.append(dict(property=i, reason="check not built yet"))
        continue
    c = CHECKS[i]
    modes = []
    for b in c["bins"]:
        m = SAN.get(b["mode"], b["mode"])
        if m not in modes:
            modes.append(m)
    checks.append(dict(property=i, quick_cmd="python3 check.py %s" % i,
        thorough_cmd="python3 check.py %s --tier thorough" % i,
        technique="runtime monitoring: " + c["title"] + "; under " + " / ".join(modes),
        level="exploration",
        level_note=c.get("note", "Holds on the executions observed (see evidence: cases, distinct cases, events). Inputs are sampled with a seeded generator plus exhaustive small domains; trusts the compiler's sanitizers and the harness oracle, which is written from the property, not from the code.")))
m = dict(version=1, setup_cmd="python3 -m py_compile check.py checks.py tools/gen_manifest.py", checks=checks, not_applicable=na,
         notes="All checks are driven by check.py/checks.py: they compile the harnesses in harness/ against /repo's working tree and run them sharded. No hooks are compiled into /repo.")
json.dump(m, open(R + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
