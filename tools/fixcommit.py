#!/usr/bin/env python3
"""fixcommit.py PROPERTY 'commit subject' 'what failed' files... : commits a repair in /repo and records it."""
import json, os, subprocess, sys
prop, subj, what, files = sys.argv[1], sys.argv[2], sys.argv[3], sys.argv[4:]
subprocess.check_call(["git", "-C", os.environ.get("VERIF_REPO","/repo"), "add"] + files)
subprocess.check_call(["git", "-C", os.environ.get("VERIF_REPO","/repo"), "commit", "-q", "-m", "fix: " + subj + "\n\n" + what])
h = subprocess.check_output(["git", "-C", os.environ.get("VERIF_REPO","/repo"), "rev-parse", "--short", "HEAD"], text=True).strip()
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
d = json.load(open(p))
d["fixed"].append("fixed: property=%s %s %s" % (prop, h, what))
json.dump(d, open(p, "w"), indent=1); open(p, "a").write("\n")
print(h)
