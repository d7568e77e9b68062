"""Build, search, confirm, minimise, report.  Used by bin/check and bin/selftest."""
import hashlib, json, os, re, subprocess, sys, time, shutil, struct, tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SIM_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
SIM = os.path.join(VERIF, "sim")
HDF5_INC = "/usr/include/hdf5/openmpi"
HDF5_LIB = "/usr/lib/x86_64-linux-gnu/hdf5/openmpi"
NCPU = max(1, min(8, os.cpu_count() or 1))

SUBPROGS = ["app_main", "subprog_amrsand", "subprog_binary", "subprog_binary_diagnostics", "subprog_binary_io",
            "subprog_binary_scheme", "subprog_binary_solver_data", "subprog_boilerplate", "subprog_cloud",
            "subprog_partdom", "subprog_sedov"]

RT = ["core", "sched", "tsan", "io"]
# executable -> (instrumented?, harness sources, repo sources)
EXES = {
    "conc": dict(tsan=True, opt="-O1", harness=["conc_pool", "conc_tree", "conc_shared", "mpi_sim", "mpi_p2p", "mpi_coll", "mpi_blocks"], repo=[]),
    "app":  dict(tsan=False, opt="-O1", harness=["app_common", "app_runs", "app_fs", "mpi_sim"], repo=SUBPROGS),
    "apprace": dict(tsan=True, opt="-O1", harness=["app_common", "app_runs", "app_fs", "mpi_sim"], repo=SUBPROGS),
}

class CheckError(Exception):
    pass

def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)

def digest(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode()); h.update(b"\0")
        with open(p, "rb") as f: h.update(f.read())
        h.update(b"\0")
    return h.hexdigest()[:24]

def headers(d):
    return [os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith((".hpp", ".h", ".inc"))]

def compile_opts():
    """configure writes src/app_compile_opts.hpp, which git ignores: make our own copy of it."""
    d = os.path.join(BUILD, "gen"); os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "app_compile_opts.hpp")
    names = ["BOILERPLATE", "PARTDOM", "CLOUD", "SEDOV", "BINARY", "AMRSAND", "TEST"]
    t = "".join(f"#define MARA_COMPILE_SUBPROGRAM_{n} {int(n != 'TEST')}\n" for n in names) + "#define MARA_PREFERRED_THREAD_COUNT 12\n"
    src = os.path.join(REPO, "src", "app_compile_opts.hpp")
    if not os.path.exists(p) or open(p).read() != t:
        open(p, "w").write(t)
    return d

def build(exe, log=None):
    """Build EXE from the working tree of /repo; cached by content."""
    spec = EXES[exe]
    gen = compile_opts()
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    os.makedirs(os.path.join(BUILD, "bin"), exist_ok=True)
    inc = ["-I" + os.path.join(SIM, "include"), "-I" + os.path.join(SIM, "rt"), "-I" + gen, "-I" + os.path.join(REPO, "src"), "-isystem", HDF5_INC]
    common = ["-std=c++17", "-g1", "-fno-pie", "-include", "cstring", "-DH5_BUILT_AS_DYNAMIC_LIB", "-w"]
    repo_hdr = [h for h in headers(os.path.join(REPO, "src")) if not h.endswith(("core_catch.hpp", "app_compile_opts.hpp"))]
    sim_hdr = headers(os.path.join(SIM, "rt")) + headers(os.path.join(SIM, "include")) + headers(os.path.join(SIM, "harness")) + headers(gen)
    jobs = []
    for r in RT:
        s = os.path.join(SIM, "rt", r + ".cpp"); fl = common + ["-O2"]
        jobs.append((s, fl, digest([s] + sim_hdr, " ".join(fl))))
    tl = ["-fsanitize=thread", "-DSIM_INSTRUMENTED=1"] if spec["tsan"] else []
    for r in spec["harness"]:
        s = os.path.join(SIM, "harness", r + ".cpp")
        if not os.path.exists(s): continue
        fl = common + [spec["opt"]] + tl
        jobs.append((s, fl, digest([s] + sim_hdr + repo_hdr, " ".join(fl))))
    for r in spec["repo"]:
        s = os.path.join(REPO, "src", r + ".cpp")
        fl = common + [spec["opt"]] + tl + (["-Dmain=mara_main"] if r == "app_main" else [])
        jobs.append((s, fl, digest([s] + sim_hdr + repo_hdr, " ".join(fl))))
    if spec["repo"]:
        known = set(SUBPROGS) | {"app_test", "core_test", "mesh_test", "physics_test", "subprog_test"}
        for f in sorted(os.listdir(os.path.join(REPO, "src"))):       # a source file added by a refactoring
            if f.endswith(".cpp") and f[:-4] not in known:
                s = os.path.join(REPO, "src", f); fl = common + [spec["opt"]] + tl
                jobs.append((s, fl, digest([s] + sim_hdr + repo_hdr, " ".join(fl))))
    objs = []
    def one(j):
        s, fl, d = j
        o = os.path.join(BUILD, "obj", os.path.basename(s)[:-4] + "-" + d + ".o")
        if not os.path.exists(o):
            t = o + f".{os.getpid()}.tmp"
            r = sh(["g++"] + fl + inc + ["-c", s, "-o", t])
            if r.returncode: raise CheckError(f"compiling {s} failed:\n{r.stderr[-3000:]}")
            os.rename(t, o)
        return o
    # longest first
    jobs.sort(key=lambda j: -os.path.getsize(j[0]) if "/repo" in j[0] or REPO in j[0] else 0)
    with ThreadPoolExecutor(NCPU) as ex:
        objs = list(ex.map(one, jobs))
    ld = ["-no-pie", "-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset", "-L" + HDF5_LIB, "-lhdf5", "-ldl", "-lpthread"]
    key = hashlib.sha256((" ".join(sorted(objs)) + " ".join(ld)).encode()).hexdigest()[:24]
    out = os.path.join(BUILD, "bin", f"{exe}-{key}")
    if not os.path.exists(out):
        t = out + f".{os.getpid()}.tmp"
        r = sh(["g++"] + objs + ["-o", t] + ld)
        if r.returncode: raise CheckError(f"linking {exe} failed:\n{r.stderr[-3000:]}")
        os.rename(t, out)
    prune()
    return out

def prune(keep_mb=3000):
    """Bound the size of the build cache (least recently used objects go first)."""
    fs = []
    for d in ("obj", "bin"):
        p = os.path.join(BUILD, d)
        if os.path.isdir(p):
            for f in os.listdir(p):
                q = os.path.join(p, f)
                try: st = os.stat(q); fs.append((st.st_mtime, st.st_size, q))
                except OSError: pass
    tot = sum(f[1] for f in fs)
    for m, s, q in sorted(fs):
        if tot < keep_mb << 20 or time.time() - m < 600: break
        try: os.unlink(q); tot -= s
        except OSError: pass

def run_search(exe, scenario, params, seed0, seconds, max_runs, work, workers=None, env=None, max_viol=2):
    """Seeded search on all cores.  Seed i of the search runs on worker i % workers: the set of
    seeds tried depends on the time available, the outcome of each seed does not."""
    workers = workers or NCPU
    procs = []
    e = dict(os.environ); e.pop("SIM_REEXEC", None)
    if env: e.update(env)
    for k in range(workers):
        out = os.path.join(work, f"{scenario}.{k}.jsonl"); sig = out + ".sig"
        cmd = [exe, "run", "--scenario", scenario, "--seed0", str(seed0 + k), "--stride", str(workers), "--count", str(max(1, max_runs // workers)),
               "--time", str(seconds), "--out", out, "--sigs", sig, "--cpu", str(k % (os.cpu_count() or 1)), "--max-violations", str(max_viol)]
        for a, b in params.items(): cmd += ["--param", f"{a}={b}"]
        procs.append((subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=e), out, sig))
    agg = dict(runs=0, segments=0, errors=0, steps=0, switches=0, vtime_ns=0, nontrivial=0, faulty_runs=0, counts={}, samples=[], last_error="", wall=0.0)
    viol, sigs, inter = [], set(), set()
    for p, out, sig in procs:
        so, se = p.communicate()
        if p.returncode: raise CheckError(f"search worker for {scenario} ended with {p.returncode}: {se[-800:]}")
        done = False
        for line in open(out):
            j = json.loads(line)
            if j["type"] == "violation": viol.append(j)
            else:
                done = True
                for k in ("runs", "segments", "errors", "steps", "switches", "vtime_ns", "nontrivial", "faulty_runs"): agg[k] += j[k]
                agg["wall"] = max(agg["wall"], j["wall"])
                if j["last_error"]: agg["last_error"] = j["last_error"]
                for c, (n, f) in j["counts"].items():
                    o = agg["counts"].setdefault(c, [0, f]); o[0] += n
                agg["samples"] += j["samples"]
        if not done: raise CheckError(f"search worker for {scenario} gave no summary: {se[-800:]}")
        b = open(sig, "rb").read(); n = struct.unpack("<Q", b[:8])[0]
        v = struct.unpack(f"<{len(b)//8 - 1}Q", b[8:])
        sigs.update(v[:n]); inter.update(v[n:])
    agg["distinct"] = len(sigs); agg["interleavings"] = len(inter)
    return agg, viol

def jl(s):
    for line in reversed(s.strip().splitlines()):
        if line.startswith("{"):
            try: return json.loads(line)
            except ValueError: pass
    return None

def replay(exe, path, env=None, cpu=None):
    e = dict(os.environ); e.pop("SIM_REEXEC", None)
    if env: e.update(env)
    r = sh([exe, "replay", path] + (["--cpu", str(cpu)] if cpu is not None else []), env=e)
    return jl(r.stdout)

def symbolise(exe, msg):
    """Append file:line for the code addresses in a message."""
    out = []
    for pc in dict.fromkeys(re.findall(r"pc (0x[0-9a-f]+)", msg)):
        a = hex(int(pc, 16) - 1)
        r = sh(["addr2line", "-Cfs", "-e", exe, a]).stdout.strip().splitlines()
        if len(r) >= 2: out.append(f"{pc} = {r[0][:120]} ({r[1]})")
    return out
