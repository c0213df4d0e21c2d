#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--seed N]

Builds the property's harness from /repo's working tree under each sanitizer flavor, runs its
sections (one process each), collects what the monitors observed, matches violations against
known_findings.json, writes evidence/<property>.json. Exit 0 / exit 1 with a VIOLATION line; any
other exit is an error of the check itself.
"""
import sys, os, json, re, time, subprocess, shutil, tempfile, signal
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vbuild
from concurrent.futures import ThreadPoolExecutor
VERIF = vbuild.VERIF
CFG = json.load(open(os.path.join(VERIF, "tools", "checks.json")))

SAN = {
    "asan": dict(ASAN_OPTIONS="exitcode=77:detect_leaks=0:malloc_fill_byte=255:max_malloc_fill_size=1048576:"
                 "allocator_may_return_null=1:detect_stack_use_after_return=1:strict_string_checks=1:"
                 "detect_invalid_pointer_pairs=0:allocator_release_to_os_interval_ms=-1:handle_abort=1",
                 UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1:exitcode=77"),
    "tsan": dict(TSAN_OPTIONS="exitcode=66:halt_on_error=0:second_deadlock_stack=1:history_size=5:report_signal_unsafe=0"),
    "plain": dict(MALLOC_PERTURB_="255"),
}

def crash_key(text):
    """A stable name for a sanitizer report: kind + innermost frame in the library."""
    kind = "signal"
    m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", text)
    if m: kind = "asan-" + m.group(1)
    m2 = re.search(r"runtime error: ([^\n]{0,60})", text)
    if m2: kind = "ubsan"
    m3 = re.search(r"WARNING: ThreadSanitizer: ([^\(\n]+)", text)
    if m3: kind = "tsan-" + m3.group(1).strip().replace(" ", "-")
    if "_GLIBCXX" in text or "Assertion '" in text: kind = "stl-assert"
    if "terminate called" in text: kind = "terminate"
    fr = re.findall(r"#\d+ 0x[0-9a-f]+ (?:in )?(.+?) (/\S+?):\d+", text)
    where = ""
    for fn, path in fr:
        if path.startswith(vbuild.REPO + "/"):
            where = os.path.relpath(path, vbuild.REPO); break
    return kind + (":" + where if where else "")

def run_section(binary, flavor, sec, n, seed, tier, tmp, timeout):
    """Runs one section; returns (violations, summaries, inconclusive)."""
    name = "%s.%s" % (flavor, re.sub(r"\W", "_", sec))
    out, prog, log = [os.path.join(tmp, name + e) for e in (".out", ".prog", ".log")]
    viol, start, crashes, incon = [], 0, 0, []
    env = dict(os.environ); env.update(SAN[flavor]); env["LC_ALL"] = "C"
    env["VERIF_SCRATCH"] = os.path.join(tmp, name + ".scratch")
    for k in list(env):
        if k.startswith("UBITRACK"): del env[k]
    os.makedirs(env["VERIF_SCRATCH"], exist_ok=True)
    base = [binary, "--run", sec, "--seed", str(seed)] + (["--thorough"] if tier == "thorough" else [])
    deadline = time.time() + timeout
    def go(args, t):
        with open(log, "wb") as lf:
            p = subprocess.Popen(base + args, stdout=lf, stderr=subprocess.STDOUT, env=env, cwd=env["VERIF_SCRATCH"], start_new_session=True)
            try: rc = p.wait(timeout=t)
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL); p.wait(); rc = None
        with open(log, "rb") as f:
            f.seek(0, 2); sz = f.tell(); f.seek(max(0, sz - 200000)); txt = f.read().decode(errors="replace")
        return rc, txt
    while True:
        args = ["--n", str(n)] if n else []
        rc, txt = go(args + ["--from", str(start), "--out", out, "--progress", prog], max(5, deadline - time.time()))
        if rc == 0:
            break
        try: case = int(open(prog).read().split("\0")[0].split()[1])
        except Exception: case = start
        if rc is None:
            # re-run the case on its own: only a case that alone does not end is a hang
            rc2, txt2 = go(["--case", str(case), "--out", "/dev/null"], 90)
            if rc2 is None:
                rc3, _ = go(["--case", str(case), "--out", "/dev/null"], 90)
                if rc3 is None:
                    viol.append(dict(key="hang:" + sec, section=sec, case=case, seed=seed, msg="case does not terminate (90 s, twice)"))
                    break
            incon.append("%s: time limit reached at case %d" % (sec, case))
            break
        if flavor == "tsan" and rc == 66:
            reports = re.split(r"(?m)^={18}\n", txt)
            keys = {}
            for rep in reports:
                if "WARNING: ThreadSanitizer" in rep: keys.setdefault(crash_key(rep), rep)
            for k, rep in keys.items():
                viol.append(dict(key=k + "@" + sec, section=sec, case=-1, seed=seed, msg=rep[:3000]))
            break
        if rc == 79: # the watchdog of a threaded case: reported by the harness itself
            break
        if rc == 3:
            raise RuntimeError("harness error in %s: %s" % (sec, txt[-2000:]))
        i = txt.find("ERROR: AddressSanitizer"); j = txt.find("runtime error:")
        cut = min([x for x in (i, j) if x >= 0] or [max(0, len(txt) - 3000)])
        viol.append(dict(key="crash:%s@%s" % (crash_key(txt), sec), section=sec, case=case, seed=seed,
                         msg="process ended with status %s: %s" % (rc, txt[max(0, cut - 200):cut + 3000])))
        crashes += 1; start = case + 1
        if crashes >= 4 or time.time() > deadline: break
    summ = []
    if os.path.exists(out):
        for line in open(out, errors="replace"):
            try: d = json.loads(line)
            except Exception: continue
            if d["type"] == "violation": viol.append(d)
            else: summ.append(d)
    shutil.rmtree(env["VERIF_SCRATCH"], ignore_errors=True)
    for v in viol: v["flavor"] = flavor
    return viol, summ, incon

def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    a = sys.argv[2:]
    only = None
    while a:
        x = a.pop(0)
        if x == "--tier": tier = a.pop(0)
        elif x == "--seed": seed = int(a.pop(0))
        elif x == "--only": only = a.pop(0)
    cfg = CFG[prop]
    t0 = time.time()
    ev = os.path.join(VERIF, "evidence", prop + ".json")
    os.makedirs(os.path.dirname(ev), exist_ok=True)
    if os.path.exists(ev): os.remove(ev)
    budget = 780 if tier == "quick" else 3600 * 3
    jobs = []
    for run in cfg["runs"]:
        binary = vbuild.build(run["src"], run["flavor"])
        secs = [l.split() for l in subprocess.run([binary, "--list"], stdout=subprocess.PIPE, check=True,
                env=dict(os.environ, **SAN[run["flavor"]])).stdout.decode().split("\n") if l]
        for name, q, t in secs:
            if only and not re.search(only, name): continue
            if run.get("only") and not re.search(run["only"], name): continue
            if run.get("skip") and re.search(run["skip"], name): continue
            n = int(t if tier == "thorough" else q)
            if run.get("scale"): n = max(1, int(n * run["scale"]))
            if n == 0: continue
            jobs.append((binary, run["flavor"], name, n))
    tbuild = time.time() - t0
    tmp = tempfile.mkdtemp(prefix="verif_%s_" % prop)
    try:
        left = max(60, budget - tbuild)
        par = 8
        if tier == "thorough":
            # split big sections over seeds as well
            reps = int(os.environ.get("VERIF_REPS", "3"))
        else: reps = 1
        todo = [(j, seed + k * 1000) for k in range(reps) for j in jobs]
        def one(x):
            (b, fl, nm, n), s = x
            sub = os.path.join(tmp, str(s)); os.makedirs(sub, exist_ok=True)
            return run_section(b, fl, nm, n, s, tier, sub, min(left * 0.5, 300) if tier == "quick" else 3000)
        with ThreadPoolExecutor(par) as ex:
            res = list(ex.map(one, todo))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    viol = [v for r in res for v in r[0]]
    summ = [s for r in res for s in r[1]]
    incon = [i for r in res for i in r[2]]
    known = []
    kf = os.path.join(VERIF, "known_findings.json")
    if os.path.exists(kf):
        known = [k for k in json.load(open(kf)).get("known", []) if k["property"] == prop]
    new, hit = {}, {}
    for v in viol:
        for k in known:
            if re.fullmatch(k["key"], v["key"]) and (not k.get("section") or k["section"] == v["section"]) \
               and (not k.get("msg") or re.search(k["msg"], v["msg"])):
                hit[k["id"]] = k; break
        else:
            new.setdefault(v["key"], v)
    evals = sum(s["evals"] for s in summ)
    distinct = sum(s["distinct"] for s in summ)
    checks = sum(s["checks"] for s in summ)
    stats, events = {}, {}
    for s in summ:
        for k, (n, w) in s["stats"].items():
            o = stats.setdefault(k, [0, 0.0]); o[0] += n; o[1] = max(o[1], w)
        for k, n in s["events"].items(): events[k] = events.get(k, 0) + n
    samples = [x for s in summ for x in s["samples"]][:12] or ["(no samples)"]
    with open(ev, "w") as f:
        json.dump(dict(property=prop, tier=tier, seed=seed, level="exploration",
            coverage=dict(evaluations=evals, distinct_nontrivial=distinct,
                rule=cfg["rule"] + " A case counts as distinct and non-trivial when the random choices that make its input differ from those of every other case of the section and at least one oracle judged its outcome.",
                samples=samples, oracle_evaluations=checks,
                monitors={k: {"judged": v[0], "worst_deviation_over_tolerance": v[1]} for k, v in sorted(stats.items())},
                observed_events=events, flavors=sorted({r["flavor"] for r in cfg["runs"]}),
                sections=len(jobs), inconclusive=incon),
            assumptions=cfg.get("assumptions", ["results are judged on the executions produced by the workload only"]),
            wall_s=round(time.time() - t0, 2), violations=len(new)), f, indent=1)
    for k in hit.values():
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    for i in incon: print("INCONCLUSIVE %s" % i)
    print("%s %s: %d cases, %d distinct, %d oracle evaluations, %d monitors, build %.0f s, total %.0f s" % (
        prop, tier, evals, distinct, checks, len(stats), tbuild, time.time() - t0))
    if new:
        rd = os.path.join(VERIF, "replay"); os.makedirs(rd, exist_ok=True)
        for i, (k, v) in enumerate(sorted(new.items())):
            path = os.path.join(rd, "%s-%d.json" % (prop, i))
            v["replay_cmd"] = "python3 tools/replay.py %s" % path
            v["property"] = prop
            v["tier"] = tier
            json.dump(v, open(path, "w"), indent=1)
            print("  %s [%s case %s]: %s" % (k, v["section"], v["case"], v["msg"][:300].replace("\n", " | ")))
            if i < 5: print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if checks == 0 or not summ:
        print("error: nothing was observed"); return 2
    missing = [j[2] for j in jobs if not any(s["section"] == j[2] for s in summ)]
    if missing and not viol and not incon:
        print("error: no summary from", missing); return 2
    return 0

if __name__ == "__main__":
    try: rc = main()
    except vbuild.BuildError as e:
        print("error: build failed\n" + str(e)); rc = 2
    sys.exit(rc)
