#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and tools/checks.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
cfg = json.load(open(V + "/tools/checks.json"))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
na = json.load(open(V + "/tools/not_applicable.json")) if os.path.exists(V + "/tools/not_applicable.json") else {}
checks, napp = [], []
for p in props:
    i = p["id"]
    if i in cfg:
        fl = sorted({r["flavor"] for r in cfg[i]["runs"]})
        san = {"asan": "AddressSanitizer+UBSan build with checked containers", "tsan": "ThreadSanitizer build", "plain": "optimised build"}
        checks.append(dict(property=i, quick_cmd="python3 tools/check.py %s --tier quick" % i,
            thorough_cmd="python3 tools/check.py %s --tier thorough" % i,
            technique="runtime monitoring: generated workload with reference-model oracles, " + ", ".join(san[f] for f in fl),
            level="exploration",
            level_note=cfg[i].get("note", "Held on the executions of this run; the evidence file lists every monitor, how often it judged and its worst deviation. Trusts the reference arithmetic in harness/, clang's sanitizers and LAPACK.")))
    else:
        napp.append(dict(property=i, reason=na.get(i, "check under construction")))
m = dict(version=1, setup_cmd="bash tools/setup.sh", checks=checks, not_applicable=napp,
         notes="No hooks in /repo are needed: all observation happens at the public API of the library, compiled from /repo's working tree under sanitizers.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
print(len(checks), "checks,", len(napp), "not applicable")
