#!/usr/bin/env python3
"""Development aid: confirms planted bugs and runs the checks against them.

  seed.py confirm ID...          builds, runs the stable tests and the demonstration, with and without the patch
  seed.py check ID [CHECK...]    runs the given checks (default: the one in meta.json) with the patch applied

Everything happens in copies below /tmp/w/s that a private mount namespace shows
as /repo and /verif; neither the real /repo nor the real /verif is touched."""
import json, os, subprocess, sys, shutil
V = "/verif"
W = "/tmp/w/s"

def sh(cmd, **kw): return subprocess.run(cmd, shell=True, **kw)

def copy(slot):
    d = "%s/%s" % (W, slot)
    os.makedirs(d, exist_ok=True)
    sh("mkdir -p %s/repo %s/verif && rsync -a --delete --exclude='.git/' /repo/ %s/repo/ 2>/dev/null || { rm -rf %s/repo && cp -a /repo %s/repo; }" % (d, d, d, d, d), check=True)
    return d

def ns(d, cmd, verif=False, timeout=3600, log=None):
    m = "mount --bind %s/repo /repo && " % d
    if verif: m += "mount --bind %s/verif /verif && " % d
    r = subprocess.run(["unshare", "-m", "bash", "-c", m + "cd /repo && " + cmd], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    out = r.stdout.decode(errors="replace")
    if log: open(log, "w").write(out)
    return r.returncode, out

def demo(d, i):
    t = "%s/demo" % d
    shutil.rmtree(t, ignore_errors=True)
    shutil.copytree("%s/seeded/%s" % (V, i), t, ignore=shutil.ignore_patterns("*.diff", "*.patch", "meta.json"))
    try: return ns(d, "bash %s/demo.sh" % t, timeout=300)
    except subprocess.TimeoutExpired: return "timeout", ""

def confirm(i):
    d = copy("c-" + i)
    try:
        rc, out = ns(d, "bash /opt/vp/build.sh")
        if rc: return "base build failed\n" + out[-2000:]
        rc0, o0 = demo(d, i)
        if rc0 != 0: return "demo fails on the unchanged tree: %s\n%s" % (rc0, o0[-2000:])
        r = sh("cd %s/repo && patch -p1 --dry-run < %s/seeded/%s/patch.diff && patch -p1 < %s/seeded/%s/patch.diff" % (d, V, i, V, i), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode: return "patch does not apply\n" + r.stdout.decode()
        if sh("git -C /repo apply --check %s/seeded/%s/patch.diff" % (V, i)).returncode: return "git apply fails"
        rc, out = ns(d, "bash /opt/vp/test.sh %s/o.json" % d)
        got = set(json.load(open(d + "/o.json"))["passed"])
        miss = [t for t in json.load(open("/opt/vp/BASELINE.json"))["stable"] if t not in got]
        if miss: return "stable tests fail: %s\n%s" % (miss[:5], out[-1500:] if "error" in out else "")
        rc1, o1 = demo(d, i)
        if rc1 == 0: return "demo passes with the patch\n" + o1[-1000:]
        return "OK demo rc=%s %s" % (rc1, o1.strip()[-300:])
    finally:
        shutil.rmtree(d, ignore_errors=True)

def check(i, ids):
    d = copy("k-" + i)
    try:
        sh("rsync -a --exclude=.git --exclude=seeded /verif/ %s/verif/ 2>/dev/null || { rm -rf %s/verif && cp -a /verif %s/verif; }" % (d, d, d), check=True)
        if i != "none":
            if sh("cd %s/repo && patch -p1 -s < %s/seeded/%s/patch.diff" % (d, V, i)).returncode: return "patch fails"
            if not ids: ids = [json.load(open("%s/seeded/%s/meta.json" % (V, i)))["property"]]
        res = []
        for c in ids:
            import time; t = time.time()
            rc, out = ns(d, "cd /verif && VERIF_SEED=1 VERIF_TIER=quick python3 tools/check.py " + c, verif=True, timeout=1800)
            vs = [l for l in out.splitlines() if l.startswith("VIOLATION")]
            res.append("%s rc=%d %ds %s" % (c, rc, time.time() - t, vs[0][:200] if vs else out.strip()[-200:]))
        return "\n".join(res)
    finally:
        shutil.rmtree(d, ignore_errors=True)

if __name__ == "__main__":
    if sys.argv[1] == "confirm":
        for i in sys.argv[2:]: print(i, confirm(i), flush=True)
    else: print(sys.argv[2], check(sys.argv[2], sys.argv[3:]), flush=True)
