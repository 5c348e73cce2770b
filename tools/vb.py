#!/usr/bin/env python3
"""Builds harness executables from /repo's current working tree.

The source lists and compile flags are taken from /repo's own CMake files
(configured out of tree, below /verif/build), so whatever the project builds
is what is checked.  Objects are cached by the hash of everything they depend
on; nothing in /repo is written."""
import hashlib, json, os, re, shutil, subprocess, sys, glob, concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
OBJ = os.path.join(BUILD, "obj")
JOBS = 8
WRAP = ["malloc", "free", "calloc", "realloc", "aligned_alloc", "posix_memalign"]
WRAPM = ["memcpy", "memmove", "memset"]
ENV = dict(os.environ, PATH="/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin", LC_ALL="C.UTF-8")
for k in ("CFLAGS", "CXXFLAGS", "LDFLAGS", "CPATH", "CC", "CXX"): ENV.pop(k, None)
VARIANT = {
    "std":  {"extra": [], "cmake": [], "link": []},
    "nolib": {"extra": [], "cmake": ["-DWITH_LIBDIVIDE=OFF"], "link": []},
    "tsan": {"extra": ["-O1", "-g", "-fsanitize=thread", "-fno-inline-atomics" if False else "-fno-omit-frame-pointer"], "cmake": [], "link": []},
    "tsannolib": {"extra": ["-O1", "-g", "-fsanitize=thread", "-fno-omit-frame-pointer"], "cmake": ["-DWITH_LIBDIVIDE=OFF"], "link": []},
    # the sieve library with its tuning constant MIN_THREAD_DISTANCE at its documented minimum (100), so that short intervals are split
    "small": {"extra": [], "cmake": [], "link": [], "overlay": 100},
    "tsansmall": {"extra": ["-O1", "-g", "-fsanitize=thread", "-fno-omit-frame-pointer"], "cmake": [], "link": [], "overlay": 100},
    # the sanitizers, the project's own assertions, checked vector accesses and patterned fresh variables
    "asan": {"extra": ["-O1", "-g", "-UNDEBUG", "-D_GLIBCXX_ASSERTIONS", "-D_GLIBCXX_SANITIZE_VECTOR", "-ftrivial-auto-var-init=pattern", "-fsanitize=address,undefined", "-fsanitize=float-cast-overflow", "-fno-sanitize=vptr", "-fno-omit-frame-pointer"], "cmake": [], "link": ["-fsanitize=address,undefined"]},
    "asansmall": {"extra": ["-O1", "-g", "-UNDEBUG", "-D_GLIBCXX_ASSERTIONS", "-D_GLIBCXX_SANITIZE_VECTOR", "-ftrivial-auto-var-init=pattern", "-fsanitize=address,undefined", "-fsanitize=float-cast-overflow", "-fno-sanitize=vptr", "-fno-omit-frame-pointer"], "cmake": [], "link": ["-fsanitize=address,undefined"], "overlay": 100},
}

def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode()); h.update(b"\0")
    return h.hexdigest()[:32]

def read(p):
    with open(p, "rb") as f: return f.read()

class BuildError(Exception): pass

def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=ENV, **kw)
    if r.returncode != 0:
        raise BuildError(" ".join(cmd)[:400] + "\n" + r.stdout.decode(errors="replace")[-6000:])
    return r.stdout

_headers = None
def repo_headers_hash():
    global _headers
    if _headers is None:
        hs = []
        for root in (REPO + "/include", REPO + "/src", REPO + "/lib"):
            for d, _, fs in os.walk(root):
                for f in fs:
                    if f.endswith((".h", ".hpp", ".hh", ".inc", ".ipp")): hs.append(os.path.join(d, f))
        _headers = sha(*[x for p in sorted(hs) for x in (p, read(p))])
    return _headers

def cmake_hash():
    fs = [REPO + "/CMakeLists.txt"] + sorted(glob.glob(REPO + "/lib/primesieve/**/CMakeLists.txt", recursive=True)) + sorted(glob.glob(REPO + "/**/*.cmake", recursive=True))
    fs = [f for f in fs if "/_build" not in f]
    return sha(REPO, *[x for p in fs for x in (p, read(p))])

def commands(cmakeargs):
    """[(group, source, argv-without -o/-c parts)] from CMake's compile commands."""
    key = cmake_hash() + "".join(cmakeargs)
    d = os.path.join(BUILD, "cfg-" + sha(key)[:12])
    done = os.path.join(d, ".done")
    if not os.path.exists(done):
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d, exist_ok=True)
        run(["cmake", "-S", REPO, "-B", d, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=Release", "-DCMAKE_CXX_COMPILER=g++",
             "-DBUILD_PRIMESIEVE=ON", "-DCMAKE_EXPORT_COMPILE_COMMANDS=ON"] + list(cmakeargs))
        open(done, "w").close()
    out = []
    for c in json.load(open(os.path.join(d, "compile_commands.json"))):
        import shlex
        argv = shlex.split(c["command"]); o = ""
        keep = []; i = 1
        while i < len(argv):
            a = argv[i]
            if a == "-o": o = argv[i+1]; i += 2; continue
            if a in ("-MT", "-MF"): i += 2; continue
            if a in ("-MD", "-c"): i += 1; continue
            if a == c["file"]: i += 1; continue
            keep.append(a); i += 1
        if "primesum.dir" in o: g = "primesum"
        elif "libprimesieve-static.dir" in o or "libprimesieve.dir" in o: g = "sieve"
        elif "primesieve.dir" in o: g = "sieveapp"
        else: g = "other"
        out.append((g, c["file"], keep))
    return out

def compile_one(src, flags, dep, post=None):
    key = sha(src, read(src), " ".join(flags), dep, str(post))
    o = os.path.join(OBJ, key + ".o")
    if os.path.exists(o):
        os.utime(o); return o
    tmp = o + ".%d.tmp" % os.getpid()
    run(["g++"] + flags + ["-c", src, "-o", tmp])
    if post: run(["objcopy"] + post + [tmp])
    os.rename(tmp, o)
    return o

def prune():
    fs = sorted(glob.glob(OBJ + "/*"), key=lambda p: os.path.getmtime(p))
    tot = sum(os.path.getsize(p) for p in fs)
    while fs and (tot > 3 << 30 or len(fs) > 4000):
        p = fs.pop(0); tot -= os.path.getsize(p)
        try: os.remove(p)
        except OSError: pass

def overlay(dist):
    """A copy of the sieve library's headers with another MIN_THREAD_DISTANCE."""
    root = REPO + "/lib/primesieve/include"
    files = {}
    for d, _, fs in os.walk(root):
        for f in fs:
            b = read(os.path.join(d, f))
            b = re.sub(rb"(\bMIN_THREAD_DISTANCE\s*=\s*)[^;,\n]*(?=[;,\n])", rb"\g<1>%d" % dist, b)
            files[os.path.relpath(os.path.join(d, f), root)] = b
    out = os.path.join(BUILD, "overlay-" + sha(*[x for k in sorted(files) for x in (k, files[k])])[:12])
    if not os.path.exists(out):
        tmp = out + ".%d.tmp" % os.getpid()
        for k, b in files.items():
            os.makedirs(os.path.dirname(os.path.join(tmp, k)), exist_ok=True)
            with open(os.path.join(tmp, k), "wb") as f: f.write(b)
        try: os.rename(tmp, out)
        except OSError: shutil.rmtree(tmp, ignore_errors=True)
    return out

def harness_dep():
    hs = sorted(glob.glob(VERIF + "/mc/*.h") + glob.glob(VERIF + "/harness/*.h"))
    return sha(*[x for p in hs for x in (p, read(p))])

def build(harness, variant="std", groups=("primesum", "sieve"), app=None):
    """Builds harness/<harness>.cpp (+common.cpp) against the repo; returns the path of the executable."""
    os.makedirs(OBJ, exist_ok=True)
    V = VARIANT[variant]
    cmds = commands(tuple(V["cmake"]))
    jobs = []
    rd = repo_headers_hash()
    psflags = None
    ov = ["-I" + overlay(V["overlay"])] if "overlay" in V else []
    for g, src, fl in cmds:
        fl = ov + fl
        if g == "primesum": psflags = fl
        if g not in groups: continue
        post = None
        if g == "primesum" and src.endswith("/app/main.cpp"): post = ["--redefine-sym", "main=ps_app_main"]
        if g == "sieveapp" and src.endswith("/main.cpp"): post = ["--redefine-sym", "main=psv_app_main"]
        if variant.startswith("tsan"): post = (post or []) + ["--redefine-sym=%s=mct_%s" % (w, w) for w in WRAPM]
        jobs.append((src, fl + V["extra"], rd, post))
    hd = harness_dep()
    hflags = ["-O2", "-g1", "-I" + VERIF + "/mc", "-I" + VERIF + "/harness", "-I" + REPO + "/include", "-I" + REPO + "/lib/primesieve/include"]
    rt = ["mcrt.cpp"]
    if variant.startswith("tsan"): rt += ["tsanrt.cpp", "alloc.cpp"]
    elif variant.startswith("asan"): rt += ["notsan.cpp", "noalloc.cpp"]
    else: rt += ["notsan.cpp", "alloc.cpp"]
    vec = ["-D_GLIBCXX_SANITIZE_VECTOR=1", "-D_GLIBCXX_SANITIZE_STD_ALLOCATOR=1"] if variant.startswith("asan") else [] # vectors are shared with instrumented code
    raw = None if variant.startswith("asan") else ["--redefine-sym=_Znwm=mct_nw", "--redefine-sym=_Znam=mct_nwa", "--redefine-sym=malloc=mct_malloc", "--redefine-sym=calloc=mct_calloc"]
    for r in rt: jobs.append((VERIF + "/mc/" + r, ["-O2", "-g1", "-fno-threadsafe-statics", "-I" + VERIF + "/mc"] + vec, hd, raw if r == "mcrt.cpp" else None))
    # the oracle library never sees the repo's headers and is never instrumented
    jobs.append((VERIF + "/harness/common.cpp", ["-O2", "-g1", "-fno-threadsafe-statics", "-I" + VERIF + "/mc", "-I" + VERIF + "/harness"] + vec, hd, raw))
    # the harness instantiates the repo's templates, so it gets the repo's flags
    jobs.append((VERIF + "/harness/" + harness + ".cpp", [f for f in (psflags or []) if not f.startswith("-I")] + V["extra"] + ov + hflags[1:], hd + rd + variant, ["--redefine-sym=%s=mct_%s" % (w, w) for w in WRAPM] if variant.startswith("tsan") else None))
    with cf.ThreadPoolExecutor(JOBS) as ex:
        objs = list(ex.map(lambda j: compile_one(*j), jobs))
    exe = os.path.join(BUILD, "bin", harness + "-" + variant + "-" + sha(*objs)[:16])
    if not os.path.exists(exe):
        os.makedirs(os.path.dirname(exe), exist_ok=True)
        for old in glob.glob(os.path.join(BUILD, "bin", harness + "-" + variant + "-*")):
            try: os.remove(old)
            except OSError: pass
        wrap = []
        if not variant.startswith("asan"): wrap += WRAP
        tmp = exe + ".%d.tmp" % os.getpid()
        run(["g++", "-rdynamic"] + objs + V["link"] + ["-Wl,--wrap=" + w for w in wrap] + ["-lpthread", "-ldl", "-o", tmp])
        os.rename(tmp, exe)
    prune()
    return exe

def build_app(which, variant="std"):
    """Links the project's own program (primesum or primesieve) from the same sources, with the system's OpenMP."""
    os.makedirs(OBJ, exist_ok=True)
    V = VARIANT[variant]
    groups = ("primesum", "sieve") if which == "primesum" else ("sieveapp", "sieve")
    rd = repo_headers_hash()
    jobs = [(src, fl + V["extra"], rd, None) for g, src, fl in commands(tuple(V["cmake"])) if g in groups]
    with cf.ThreadPoolExecutor(JOBS) as ex:
        objs = list(ex.map(lambda j: compile_one(*j), jobs))
    exe = os.path.join(BUILD, "bin", which + "-app-" + variant + "-" + sha(*objs)[:16])
    if not os.path.exists(exe):
        os.makedirs(os.path.dirname(exe), exist_ok=True)
        tmp = exe + ".%d.tmp" % os.getpid()
        run(["g++"] + objs + V["link"] + ["-fopenmp", "-lpthread", "-o", tmp])
        os.rename(tmp, exe)
    return exe

if __name__ == "__main__":
    print(build(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else "std"))
