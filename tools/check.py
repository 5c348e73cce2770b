#!/usr/bin/env python3
"""usage: check.py ID            run the check of property ID (VERIF_TIER, VERIF_SEED from the environment)
          check.py --replay FILE re-run the shard that reported a violation
          check.py --setup       build every harness once"""
import json, os, subprocess, sys, time, signal, concurrent.futures as cf
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import vb
from checks import CHECKS, EXTRA_SETUP
VERIF = vb.VERIF
OUT = os.path.join(VERIF, "out")
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
ANCHORS = os.path.join(VERIF, "data", "anchors.txt")

def known_findings(pid):
    """lines: finding|fixed: property=<id> key=<substring of the report> :: text"""
    res = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding: property=%s " % pid):
                body = l.split(" ", 2)[2]
                key, _, text = body.partition(" :: ")
                res.append((key[len("key="):], text))
    return res

class Clock:
    """Deadline of a whole check; once a violation is known the remaining shards get little more time."""
    def __init__(self, seconds): self.end = time.time() + seconds
    def hurry(self): self.end = min(self.end, time.time() + 40)

def raw_case(marker):
    try:
        with open(marker, "rb") as f: return f.read()
    except OSError: return b""
def case_of(marker): return raw_case(marker).split(b"\0")[0].decode(errors="replace")

STALL = 240   # the longest case of a quick run takes below 30 s

def run_shard(job, exe, pid, i, n, tier, clock):
    os.makedirs(OUT, exist_ok=True)
    marker = os.path.join(OUT, "marker-%s-%s-%s-%d" % (pid, job["harness"], job.get("variant", "std"), i))
    tag = job.get("tag", "")
    marker += tag
    try: os.remove(marker)
    except OSError: pass
    tier = job.get("as_tier", tier)
    if time.time() > clock.end - 1: return {"viols": [], "done": None, "error": "shard %d of %s was not started: out of time" % (i, job["harness"]), "cmd": [exe], "case": "", "wall": 0, "exe": exe}
    r, w = os.pipe()
    cmd = [exe, "--out=%d" % w, "--shard=%d" % i, "--shards=%d" % n, "--tier=" + tier, "--marker=" + marker, "--anchors=" + ANCHORS,
           "--budget=%s" % job.get("budget", {}).get(tier, 600 if tier == "quick" else 12000)]
    if job.get("families"): cmd.append("--families=" + ",".join(job["families"]))
    if job.get("as_gb", 6) and job.get("variant", "std") in ("std", "nolib"): cmd.append("--as-gb=%d" % job.get("as_gb", 6))
    for k, v in job.get("args", {}).items(): cmd.append("--%s=%s" % (k, v))
    env = dict(vb.ENV, VERIF_SEED=str(SEED), VERIF_TIER=tier, OMP_NUM_THREADS="8",
               ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:max_malloc_fill_size=1000000000", UBSAN_OPTIONS="halt_on_error=1:abort_on_error=1:print_stacktrace=0",
               **{k: v(TIER) if callable(v) else v for k, v in job.get("env", {}).items()})
    err = open(marker + ".err", "w+b")
    t0 = time.time()
    p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=err, stdin=subprocess.DEVNULL, pass_fds=(w,), env=env, cwd=OUT, start_new_session=True)
    os.close(w)
    data = b""
    import select
    timed, stalled, case, since = False, False, b"", time.time()
    while True:
        left = clock.end - time.time()
        if left <= 0: timed = True; break
        c = raw_case(marker)
        if c != case: case, since = c, time.time()
        elif case.strip(b"\0") and time.time() - since > (STALL if tier == "quick" else 10 * STALL): timed = stalled = True; break
        rl, _, _ = select.select([r], [], [], min(left, 5))
        if rl:
            b = os.read(r, 1 << 16)
            if not b: break
            data += b
            if b'"viol"' in data: clock.hurry()
        elif p.poll() is not None:
            # process gone: drain
            while select.select([r], [], [], 0)[0]:
                b = os.read(r, 1 << 16)
                if not b: break
                data += b
            break
    if timed:
        try: os.killpg(p.pid, signal.SIGKILL)
        except OSError: pass
    rc = p.wait()
    try: os.killpg(p.pid, signal.SIGKILL)   # stragglers of the shard (its own session)
    except OSError: pass
    os.close(r)
    err.seek(0, 2); sz = err.tell(); err.seek(max(0, sz - 3000)); et = err.read().decode(errors="replace"); err.close()
    case = case_of(marker)
    viols, done = [], None
    for l in data.decode(errors="replace").splitlines():
        try: o = json.loads(l)
        except ValueError: continue
        if o["t"] == "viol": viols.append(o["what"])
        elif o["t"] == "done": done = o
    error = None
    if done is None:
        if stalled: viols.append("does not finish (%d s): %s" % (time.time() - since, case))
        elif timed: error = "shard %d of %s ran out of time in case: %s" % (i, job["harness"], case)
        elif rc == -9: error = "shard %d of %s was killed in case: %s" % (i, job["harness"], case)
        elif rc in (70,): error = "harness error in %s: %s" % (job["harness"], et[-500:])
        else: viols.append("abnormal end (%s) in case: %s %s" % ("signal %d" % -rc if rc < 0 else "exit %d" % rc, case, " ".join(et[-1500:].split())))
    if viols: clock.hurry()
    for f in (marker, marker + ".err"):
        try: os.remove(f)
        except OSError: pass
    return {"viols": viols, "done": done, "error": error, "cmd": cmd, "case": case, "wall": time.time() - t0, "exe": exe}

def run_check(pid, tier, only=None):
    C = CHECKS[pid]
    t0 = time.time()
    clock = Clock(830 if tier == "quick" else 100000)
    jobs = []
    for j in C["jobs"]:
        if tier not in j.get("tiers", ("quick", "thorough")): continue
        if j.get("builder"): exe, extra = j["builder"](vb), {}
        else: exe = vb.build(j["harness"], j.get("variant", "std"), j.get("groups", ("primesum", "sieve")))
        j = dict(j); a = dict(j.get("args", {}))
        for k, v in list(a.items()):
            if callable(v): a[k] = v(vb)
        j["args"] = a
        for i in range(j.get("shards", 8)): jobs.append((j, exe, i, j.get("shards", 8)))
    if only is not None: jobs = [x for x in jobs if x[0]["harness"] == only["harness"] and x[0].get("variant", "std") == only["variant"] and x[0].get("tag", "") == only["tag"] and x[2] == only["shard"]]
    with cf.ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda t: (t, run_shard(t[0], t[1], pid, t[2], t[3], tier, clock)), jobs))
    agg = dict(evals=0, distinct=0, states=0, transitions=0, traces=0)
    notes, samples, exhaustive = {}, [], True
    allv, errors = [], []
    for t, r in res:
        for v in r["viols"]: allv.append((v, t, r))
        if r["error"]: errors.append(r["error"])
        d = r["done"]
        if d:
            for k in agg: agg[k] += d[k]
            for k, v in d["notes"].items(): notes[k] = notes.get(k, 0) + v
            for s in d["samples"]:
                if len(samples) < 12 and (len(samples) < 4 or s not in samples): samples.append(s)
            exhaustive = exhaustive and d["exhaustive"]
        else: exhaustive = False
    kf = known_findings(pid)
    hit, viol = set(), []
    for v, t, r in allv:
        k = next((k for k, _ in kf if k in v), None)
        if k: hit.add(k)
        else: viol.append((v, t, r))
    wall = time.time() - t0
    lvl = C["level"]
    cov = {"explanation": C["explanation"]}
    if lvl == "model_checking":
        cov.update(states=agg["states"], transitions=agg["transitions"], traces_validated_against_impl=agg["traces"])
    else:
        cov.update(evaluations=agg["evals"], distinct_nontrivial=agg["distinct"], rule=C["rule"])
    if lvl != "model_checking" and agg["states"]: cov.update(schedule_tree_nodes=agg["states"], schedule_tree_edges=agg["transitions"])
    if lvl == "model_checking" and agg["evals"]: cov.update(evaluations=agg["evals"])
    cov.update(samples=samples or ["(none)"], exhaustive=bool(exhaustive), counters=notes,
               jobs=[{"harness": j["harness"], "variant": j.get("variant", "std"), "shards": j.get("shards", 8)} for j in C["jobs"] if tier in j.get("tiers", ("quick", "thorough"))])
    ev = {"property": pid, "tier": tier, "seed": SEED, "level": lvl, "coverage": cov, "assumptions": C.get("assumptions", []), "wall_s": round(wall, 2), "violations": len(viol)}
    if only is None:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        tmp = os.path.join(VERIF, "evidence", "." + pid + ".tmp")
        with open(tmp, "w") as f: json.dump(ev, f, indent=1)
        os.rename(tmp, os.path.join(VERIF, "evidence", pid + ".json"))
    for k, text in kf:
        if k in hit: print("KNOWN-FINDING: property=%s %s" % (pid, text))
    rd = os.path.join(OUT, "replay"); os.makedirs(rd, exist_ok=True)
    for n, (v, t, r) in enumerate(viol[:5]):
        path = os.path.join(rd, "%s-%d.json" % (pid, n))
        with open(path, "w") as f:
            json.dump({"property": pid, "what": v, "harness": t[0]["harness"], "variant": t[0].get("variant", "std"), "tag": t[0].get("tag", ""), "shard": t[2], "tier": tier, "cmd": r["cmd"]}, f, indent=1)
        print("  " + v[:1500])
        print("VIOLATION property=%s replay=%s" % (pid, path))
    if not viol:
        for e in errors: print("ERROR: " + e)
    print("%s %s: %s in %.1f s; %s%s" % (pid, tier, "VIOLATED" if viol else ("ERROR" if errors else "held"), wall, agg, " notes=%s" % notes if notes else ""))
    if os.environ.get("VERIF_VERBOSE"):
        for t, r in res: print("   ", t[0]["harness"], t[0].get("variant", "std"), t[0].get("tag", ""), "shard", t[2], "%.1fs" % r["wall"])
    if viol: return 1
    return 2 if errors else 0

def main():
    if sys.argv[1] == "--setup":
        bad = 0
        todo = []
        for pid, C in CHECKS.items():
            for j in C["jobs"]:
                if j.get("builder"): todo.append(("b", j["builder"], None, None))
                else: todo.append(("h", j["harness"], j.get("variant", "std"), j.get("groups", ("primesum", "sieve"))))
        seen = set()
        for kind, a, b, c in todo:
            if (a, b) in seen: continue
            seen.add((a, b))
            try:
                if kind == "b": a(vb)
                else: vb.build(a, b, c)
            except vb.BuildError as e: print("setup:", e); bad += 1
        for f in EXTRA_SETUP: f(vb)
        print("setup: %d executables, %d failed" % (len(seen), bad))
        return 0
    if sys.argv[1] == "--replay":
        d = json.load(open(sys.argv[2]))
        return run_check(d["property"], d["tier"], d)
    return run_check(sys.argv[1], TIER)

if __name__ == "__main__":
    try: rc = main()
    except vb.BuildError as e:
        print("build failed:", e); rc = 2
    sys.stdout.flush()
    sys.exit(rc)
