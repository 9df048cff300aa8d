#!/usr/bin/env python3
"""Builds the simulator and the code under test from /repo's working tree.

/repo's own sources are compiled unmodified with the flags its build uses; the
only difference is the include path, where sim/include/mpi.h and silo.h come
first, so that message passing and storage go through the simulator.
"""
import hashlib, json, os, re, shlex, shutil, subprocess, sys, fcntl
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("POLYSIM_REPO", "/repo")
OUT = os.environ.get("POLYSIM_BUILD", os.path.join(VERIF, "build"))
NLIBS = 18          # one library per simulated process, plus two for references
FAST = os.environ.get("POLYSIM_SAN", "")

def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        sys.stderr.write(" ".join(cmd) + "\n" + r.stdout[-6000:] + "\n")
        raise SystemExit("build failed")
    return r.stdout

def tree_hash():
    h = hashlib.sha256()
    roots = [os.path.join(REPO, "src"), os.path.join(REPO, "polytope_c"), os.path.join(VERIF, "sim"), os.path.join(REPO, "cmake")]
    files = [os.path.join(REPO, "CMakeLists.txt"), os.path.abspath(__file__)]
    for r in roots:
        for d, dn, fn in os.walk(r):
            dn.sort()
            for f in sorted(fn):
                if f.endswith((".cc", ".hh", ".h", ".in", ".txt", ".cmake", ".c")):
                    files.append(os.path.join(d, f))
    for f in files:
        h.update(f.encode()); h.update(open(f, "rb").read())
    h.update(FAST.encode())
    return h.hexdigest()

def repo_units(cfg):
    """Sources and flags of the two libraries, as /repo's own build states them."""
    os.makedirs(cfg, exist_ok=True)
    sh(["cmake", "-S", REPO, "-B", cfg, "-G", "Ninja", "-DCMAKE_EXPORT_COMPILE_COMMANDS=ON",
        "-DCMAKE_BUILD_TYPE=Release", "-DCMAKE_CXX_FLAGS_RELEASE=-O2 -DNDEBUG", "-DCMAKE_C_FLAGS_RELEASE=-O2 -DNDEBUG",
        "-DCMAKE_C_COMPILER=/usr/bin/mpicc", "-DCMAKE_CXX_COMPILER=/usr/bin/mpic++",
        "-DCMAKE_CXX_STANDARD=14", "-DUSE_MPI=ON", "-DHAVE_MPIEXEC=ON", "-DMPIEXEC=mpirun", "-DUSE_SILO=ON",
        "-DBUILD_C_INTERFACE=ON", "-DC_REAL_TYPE=double", "-DTESTING=OFF"])
    units = []
    for e in json.load(open(os.path.join(cfg, "compile_commands.json"))):
        f = os.path.realpath(e["file"])
        rel = os.path.relpath(f, os.path.realpath(REPO))
        if not (rel.startswith("src/") or rel.startswith("polytope_c/")) or "/tests/" in rel or not f.endswith(".cc"):
            continue
        fl = []
        for t in shlex.split(e["command"]):
            if t.startswith("-D") or t.startswith("-I"):
                fl.append(t)
        units.append((f, fl))
    if len(units) < 10:
        raise SystemExit("build failed: cannot find the repository's sources")
    return units

def silo_libs(cfg):
    cache = open(os.path.join(cfg, "CMakeCache.txt")).read()
    libs = re.findall(r"(?m)^(?:SILO|Silo)_LIBRAR[A-Z_]*(?::\w+)?=(/\S+)", cache)
    if not libs:
        for c in ("/usr/lib/x86_64-linux-gnu/libsiloh5.so", "/usr/lib/x86_64-linux-gnu/libsilo.so"):
            if os.path.exists(c): libs = [c]; break
    return libs[:1]

def build(verbose=False):
    os.makedirs(OUT, exist_ok=True)
    lock = open(os.path.join(OUT, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    stamp = os.path.join(OUT, "stamp")
    want = tree_hash()
    exe = os.path.join(OUT, "polysim")
    if os.path.exists(stamp) and open(stamp).read() == want and os.path.exists(exe):
        return OUT
    if os.path.exists(stamp): os.remove(stamp)
    cfg = os.path.join(OUT, "cfg"); obj = os.path.join(OUT, "obj")
    for d in (cfg, obj):
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    units = repo_units(cfg)
    S = os.path.join(VERIF, "sim")
    san = shlex.split(FAST)
    base = ["g++", "-std=gnu++14", "-O2", "-DNDEBUG", "-fPIC", "-fno-gnu-unique", "-w"] + san + ["-I" + os.path.join(S, "include")]
    # a header from the real MPI or HDF5 installation is never needed
    jobs = []
    seen = set(); allfl = []
    for f, fl in units:
        o = os.path.join(obj, re.sub(r"\W", "_", os.path.relpath(f, REPO)) + ".o")
        for x in fl:
            if x not in seen: seen.add(x); allfl.append(x)
        jobs.append((o, base + fl + ["-c", f, "-o", o]))
    common = [x for x in allfl]
    rank_inc = ["-I" + S, "-I" + os.path.join(REPO, "polytope_c"), "-I" + os.path.join(cfg, "polytope_c")]
    rank_objs = [o for o, _ in jobs]
    for f in sorted(os.listdir(S)):
        if not f.endswith(".cc"): continue
        o = os.path.join(obj, "sim_" + f[:-3] + ".o")
        if f.startswith("rank"):
            jobs.insert(0, (o, base + common + rank_inc + ["-c", os.path.join(S, f), "-o", o])); rank_objs.append(o)
        else:
            jobs.append((o, ["g++", "-std=gnu++14", "-O2", "-Wall", "-Wno-unused-function", "-fno-strict-aliasing"] + san +
                         ["-I" + os.path.join(S, "include"), "-I" + S, "-c", os.path.join(S, f), "-o", o]))
    jobs.sort(key=lambda j: -heavy(j[0]))
    with ThreadPoolExecutor(max_workers=os.cpu_count() or 8) as ex:
        list(ex.map(lambda j: sh(j[1]), jobs))
    redef = []
    for x in ("malloc", "free", "calloc", "realloc", "strdup", "strndup"):
        redef += ["--redefine-sym", "%s=psim_%s" % (x, x)]
    for o, _ in jobs:                                # the C interface's own heap calls
        if "/polytope_c_" in o: sh(["objcopy"] + redef + [o])
    exe_objs = [o for o, _ in jobs if o not in rank_objs]
    lib = os.path.join(OUT, "librank.so")
    sh(["g++", "-shared", "-fPIC", "-Wl,-z,lazy"] + san + ["-o", lib] + rank_objs)
    for i in range(NLIBS):
        shutil.copyfile(lib, os.path.join(OUT, "librank_%02d.so" % i))
    sh(["g++", "-rdynamic", "-Wl,--dynamic-list-data"] + san + ["-o", exe] + exe_objs + silo_libs(cfg) + ["-ldl", "-lpthread"])
    open(stamp, "w").write(want)
    return OUT

def heavy(o):
    for i, k in enumerate(["rank_", "sim_rank", "polytope_plc", "DistributedTessellator", "BoostTessellator", "clipQuantized", "PLC_CSG", "snapTo", "MeshEditor", "SiloWriter", "tessellator"]):
        if k in o: return 100 - i
    return 0

if __name__ == "__main__":
    build()
