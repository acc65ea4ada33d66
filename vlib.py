"""Build and run support shared by the checks (see DESIGN.md)."""
import os, sys, subprocess, hashlib, json, time, re, glob, shutil, threading, signal
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("KNOR_REPO", "/repo")
BUILD = os.environ.get("KNOR_VBUILD", os.path.join(V, "build"))
NCPU = min(8, os.cpu_count() or 8)
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
T0 = time.time()

GROUPS = ["libkcommon", "libman", "libauto", "libdist"]
INC = ["-I" + os.path.join(V, "rt/mpi")] + [f"-I{REPO}/{g}" for g in GROUPS] + [f"-I{REPO}", f"-I{REPO}/binding", "-I" + os.path.join(V, "h")]
COMMON = "-w -U_FORTIFY_SOURCE -fopenmp -DSTATISTICS -DUSE_NUMA -fno-stack-protector -fno-omit-frame-pointer".split()
VARIANTS = {
    # everything observable by the scheduler: own -fsanitize=thread runtime; tasks of two rows
    "sched": dict(flags="-O1 -g1 -fsanitize=thread --param tsan-instrument-func-entry-exit=0 -DVRT_SCHED -DKNOR_VERIF_MIN_TASK_ROWS=2".split(), link=[]),
    # value enumeration: memory-safety and undefined-behaviour checked; tasks of two rows
    "asan": dict(flags="-O1 -g1 -fsanitize=address,undefined -fno-sanitize=float-divide-by-zero,vptr,null -fno-sanitize-recover=undefined -DKNOR_VERIF_MIN_TASK_ROWS=2".split(),
                 link="-fsanitize=address,undefined -static-libasan".split()),
    # as asan, with the shipped task size
    "asanbig": dict(flags="-O1 -g1 -fsanitize=address,undefined -fno-sanitize=float-divide-by-zero,vptr,null -fno-sanitize-recover=undefined".split(),
                 link="-fsanitize=address,undefined -static-libasan".split()),
    # as asan, with assertions compiled out
    "ndasan": dict(flags="-O1 -g1 -DNDEBUG -fsanitize=address,undefined -fno-sanitize=float-divide-by-zero,vptr,null -fno-sanitize-recover=undefined -DKNOR_VERIF_MIN_TASK_ROWS=2".split(),
                 link="-fsanitize=address,undefined -static-libasan".split()),
    # plain and fast, shipped optimisation
    # as fast, with assertions compiled out
    "nd": dict(flags="-O2 -g1 -DNDEBUG -DKNOR_VERIF_MIN_TASK_ROWS=2".split(), link=[]),
    "fastbig": dict(flags="-O2 -g1".split(), link=[]),
    "fast": dict(flags="-O2 -g1 -DKNOR_VERIF_MIN_TASK_ROWS=2".split(), link=[]),
}
WRAP = """pthread_mutex_init pthread_mutex_destroy pthread_mutex_lock pthread_mutex_trylock pthread_mutex_timedlock pthread_mutex_unlock
pthread_cond_init pthread_cond_destroy pthread_cond_wait pthread_cond_timedwait pthread_cond_signal pthread_cond_broadcast
pthread_create pthread_join pthread_detach pthread_exit pthread_self sched_yield usleep __assert_fail abort exit printf puts putchar fprintf perror system""".split()
WRAP_FAULT = "_Znwm _Znam fopen fread fseek fclose".split() # the harness that lets calls to the system fail
WRAP_SCHED = "malloc calloc memcpy memmove memset".split()

def die(msg, code=3):
    print("ERROR: " + msg, flush=True)
    sys.exit(code)

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)

_hdr = None
def headers_hash():
    global _hdr
    if _hdr is None:
        h = hashlib.sha256()
        fs = []
        for g in GROUPS + ["binding"]:
            fs += glob.glob(f"{REPO}/{g}/*.hpp") + glob.glob(f"{REPO}/{g}/*.h") + glob.glob(f"{REPO}/{g}/cxxopts/*")
        fs += glob.glob(f"{V}/h/*.hpp") + glob.glob(f"{V}/rt/*.hpp") + glob.glob(f"{V}/rt/mpi/*.h")
        for f in sorted(fs):
            h.update(f.encode()); h.update(open(f, "rb").read())
        _hdr = h.hexdigest()
    return _hdr

def _obj(src, variant, extra, outdir, std="c++11"):
    cmd = ["g++", f"-std={std}", "-include", f"{V}/h/vrand.hpp"] + COMMON + VARIANTS[variant]["flags"] + INC + extra + ["-c", src]
    key = hashlib.sha256((headers_hash() + " ".join(cmd)).encode() + open(src, "rb").read()).hexdigest()[:24]
    os.makedirs(outdir, exist_ok=True)
    out = os.path.join(outdir, os.path.basename(src).rsplit(".", 1)[0] + "-" + key + ".o")
    return out, cmd + ["-o", out + ".tmp"]

def _compile(jobs):
    def one(j):
        out, cmd = j
        if os.path.exists(out): return None
        r = sh(cmd)
        if r.returncode: return (cmd, r.stdout)
        os.replace(out + ".tmp", out)
        return None
    with ThreadPoolExecutor(NCPU) as ex:
        errs = [e for e in ex.map(one, jobs) if e]
    return errs

RT_KEEP = "__wrap_* GOMP_* omp_* numa_* MPI_* __tsan_* _ZN3vrt* _ZNK3vrt* _Znw* _Zna* _Zdl* _Zda* vrt_switch vrand_*".split()

def runtime(variant):
    """The scheduler runtime, with its own copies of library templates hidden from the code under test."""
    d = f"{BUILD}/{variant}/rt"; os.makedirs(d, exist_ok=True)
    srcs = [f"{V}/rt/{x}.cpp" for x in ("vrt", "omp", "tsan")]
    h = hashlib.sha256((variant + headers_hash() + "2").encode())
    for s in srcs: h.update(open(s, "rb").read())
    out = f"{d}/rt-{h.hexdigest()[:24]}.o"
    if os.path.exists(out): return out
    fl = ["-DVRT_SCHED"] if variant == "sched" else []
    # in the ASan variants the runtime only needs to know that it must announce its stack switches
    if "asan" in variant: fl += ["-D__SANITIZE_ADDRESS__"]
    jobs = []
    tmp = f"{d}/tmp{os.getpid()}"; os.makedirs(tmp, exist_ok=True)
    def one(s):
        o = f"{tmp}/{os.path.basename(s)}.o"
        r = sh(["g++", "-std=c++17", "-O2", "-g1", "-w", "-U_FORTIFY_SOURCE", "-fno-stack-protector", "-fno-gnu-unique", f"-I{V}/rt", f"-I{V}/rt/mpi"] + fl + ["-c", s, "-o", o])
        if r.returncode: die("runtime does not compile:\n" + r.stdout)
        return o
    with ThreadPoolExecutor(3) as ex: objs = list(ex.map(one, srcs))
    r = sh(["ld", "-r", "--force-group-allocation", "-o", f"{tmp}/rt1.o"] + objs)
    if r.returncode: die("ld -r: " + r.stdout)
    keep = f"{tmp}/keep"; open(keep, "w").write("\n".join(RT_KEEP) + "\n")
    cmd = ["objcopy", "--wildcard", f"--keep-global-symbols={keep}"]
    if variant == "sched":
        for s in ("malloc", "calloc", "memcpy", "memmove", "memset"): cmd += ["--redefine-sym", f"{s}=__real_{s}"]
    r = sh(cmd + [f"{tmp}/rt1.o", out + ".tmp"])
    if r.returncode: die("objcopy: " + r.stdout)
    os.replace(out + ".tmp", out)
    shutil.rmtree(tmp, ignore_errors=True)
    return out

def repo_sources(groups):
    s = []
    for g in groups: s += sorted(glob.glob(f"{REPO}/{g}/*.cpp"))
    return s

def build(variant, harness, groups=("libkcommon", "libman"), extra=(), name=None, skip=()):
    """Compile the groups of /repo and h/<harness>.cpp; return the executable."""
    d = f"{BUILD}/{variant}"
    extra = list(extra)
    jobs, programs, mains = [], [], []
    for s in repo_sources(groups):
        if os.path.basename(s) in skip: continue
        g = os.path.basename(os.path.dirname(s))
        if g == "exec": programs.append(s)
        else: jobs.append(_obj(s, variant, [], f"{d}/{g}"))
    hs = harness if isinstance(harness, (list, tuple)) else [harness]
    for h in hs: jobs.append(_obj(f"{V}/h/{h}.cpp", variant, extra + [f"-I{V}/rt"], f"{d}/h", std="c++17"))
    rt = runtime(variant)
    errs = _compile(jobs)
    if errs:
        die("build failed:\n" + "\n".join(" ".join(c) + "\n" + o[-3000:] for c, o in errs[:3]))
    if programs: # each main() becomes <program>_main(), everything else of the program is its own
        pj = [_obj(s, variant, [f"-I{REPO}/exec"], f"{d}/exec") for s in programs]
        errs = _compile(pj)
        if errs: die("build failed:\n" + "\n".join(" ".join(c) + "\n" + o[-3000:] for c, o in errs[:3]))
        for o, _ in pj:
            m = o[:-2] + ".main.o"; mains.append(m)
            if os.path.exists(m): continue
            if " T main" not in sh(["nm", "--defined-only", "-g", o]).stdout: mains[-1] = o; continue
            strong = [l.split()[-1] for l in sh(["nm", "--defined-only", "-g", o]).stdout.splitlines() if len(l.split()) == 3 and l.split()[1] in "TDBR" and l.split()[2] != "main"]
            r = sh(["objcopy"] + [f"--localize-symbol={x}" for x in strong] + ["--redefine-sym", "main=" + os.path.basename(o).rsplit("-", 1)[0] + "_main", o, m + ".tmp"])
            if r.returncode: die("objcopy: " + r.stdout)
            os.replace(m + ".tmp", m)
    if hs[0].startswith("fault"): # the runtime's own allocations do not fail
        r2 = rt[:-2] + ".fault.o"
        if not os.path.exists(r2):
            r = sh(["objcopy"] + [x for s in WRAP_FAULT for x in ("--redefine-sym", f"{s}=__real_{s}")] + [rt, r2 + ".tmp"])
            if r.returncode: die("objcopy: " + r.stdout)
            os.replace(r2 + ".tmp", r2)
        rt = r2
    objs = [j[0] for j in jobs] + mains
    name = name or hs[0]
    key = hashlib.sha256(" ".join(objs + [rt]).encode()).hexdigest()[:16]
    exe = f"{d}/{name}-{key}"
    if not os.path.exists(exe):
        wraps = WRAP + (WRAP_SCHED if variant == "sched" else []) + (WRAP_FAULT if hs[0].startswith("fault") else [])
        cmd = ["g++", "-o", exe + ".tmp"] + objs + [rt] + VARIANTS[variant]["link"] + [f"-Wl,--wrap={w}" for w in wraps] + ["-no-pie"] * 0 + ["-ldl"]
        r = sh(cmd)
        if r.returncode: die("link failed:\n" + r.stdout[-4000:])
        os.replace(exe + ".tmp", exe)
    return exe
