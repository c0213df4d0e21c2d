#!/usr/bin/env python3
"""replay.py <replay.json>: rebuilds the harness from /repo and runs the failing case alone, verbosely."""
import sys, os, json, subprocess
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vbuild, check
v = json.load(open(sys.argv[1]))
run = [r for r in check.CFG[v["property"]]["runs"] if r["flavor"] == v["flavor"]]
for r in run:
    b = vbuild.build(r["src"], r["flavor"])
    cmd = [b, "--run", v["section"], "--seed", str(v["seed"]), "-v"] + (["--case", str(v["case"])] if v["case"] >= 0 else [])
    if v.get("tier") == "thorough": cmd.append("--thorough")
    env = dict(os.environ, **check.SAN[r["flavor"]]); env["VERIF_SCRATCH"] = "/tmp/verif_replay"; os.makedirs("/tmp/verif_replay", exist_ok=True)
    rc = subprocess.call(cmd, env=env)
    if rc != 3: sys.exit(rc)
