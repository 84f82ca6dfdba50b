#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from harness/config.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from harness.config import PROPS
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in PROPS:
        c = PROPS[i]
        checks.append(dict(property=i, quick_cmd="python3 check.py %s --tier quick" % i, thorough_cmd="python3 check.py %s --tier thorough" % i,
                           technique=c.get("technique", "runtime monitoring: reference-model oracle over randomised executions of the real code under ASan/UBSan"),
                           level=c.get("level", "exploration"),
                           level_note=c.get("level_note", "Sampled executions of the real code, compiled from /repo's working tree; every observed state is compared with an independent model and watched by sanitizers. Trusts the oracle in harness/%s, the compiler and the sanitizers; says nothing about inputs not drawn." % c["src"])))
    else:
        na.append(dict(property=i, reason="check not built yet"))
m = dict(version=1, setup_cmd="python3 check.py --setup", checks=checks, not_applicable=na,
         notes="No hooks were needed in /repo: monitors use the public interface, storage snapshots, sanitizers, an interposed OpenMP runtime and allocator hooks in the harness. /repo carries only fix: commits (KNOWN_FINDINGS.txt).")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
