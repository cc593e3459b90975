"""Builds the simulation binaries from /repo's current working tree. Incremental by content."""
import glob, hashlib, os, re, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
WRAP = "-Wl," + ",".join("--wrap=" + f for f in ("malloc", "free", "calloc", "realloc", "aligned_alloc", "posix_memalign", "memcpy", "memmove", "memset"))
ENGINE = ["sim", "gomp", "driver"]
BASE = ["-g1", "-fno-pie", "-fno-omit-frame-pointer", "-w", "-I" + os.path.join(VERIF, "engine"), "-I" + os.path.join(VERIF, "scen")]
INSTR = ["-std=c++14", "-O1", "-fsanitize=thread", "-I" + REPO]
OMP = ["-DWITH_OPENMP", "-fopenmp"]
EIGEN = ["-DWITH_EIGEN", "-I/usr/include/eigen3"]

def repo_srcs(*dirs):
    r = []
    for d in dirs:
        r += sorted(os.path.relpath(p, REPO) for p in glob.glob(os.path.join(REPO, "anifem++", d, "*.cpp")))
    return r

# binary -> dict(scen=[scenario sources], repo=[dirs with sources], flags=[...])
BINARIES = {
    "pool": dict(scen=["pool.cpp"], repo=[], flags=[]),
    "par": dict(scen=["parloop.cpp"], repo=[], flags=[]),
    "par_omp": dict(scen=["parloop.cpp"], repo=[], flags=OMP),
    "reg": dict(scen=["registry.cpp"], repo=[], flags=[]),
    "reg_omp": dict(scen=["registry.cpp"], repo=[], flags=OMP),
    "fw": dict(scen=["funcwrap.cpp"], repo=[], flags=[]),
    "fw_omp": dict(scen=["funcwrap.cpp"], repo=[], flags=OMP),
}
FEM = ["fem_scen.cpp", "fem_jobs.cpp", "fem_jobs2.cpp", "fem_st_all.cpp"] + ["fem_rt%d.cpp" % i for i in range(5)] + ["fem_st%d.cpp" % i for i in range(6)]
BINARIES["fem"] = dict(scen=FEM, repo=["fem"], flags=[])
BINARIES["fem_eigen"] = dict(scen=FEM, repo=["fem"], flags=EIGEN)
ASM = dict(scen=["assembler.cpp"], repo=["fem", "interval", "inmost_interface"], flags=["-I" + os.path.join(VERIF, "stubs", "inmost")])
BINARIES["asm"] = ASM
BINARIES["asm_omp"] = dict(ASM, flags=ASM["flags"] + OMP)
UTL = dict(scen=["helpers.cpp"], repo=["fem", "interval", "inmost_interface"], files=["anifem++/utils/utils.cpp"], flags=ASM["flags"] + ["-DSIM_SOLVER"])
BINARIES["utl"] = UTL
BINARIES["utl_omp"] = dict(UTL, flags=UTL["flags"] + ["-DUSE_MPI"] + OMP)
MET = dict(scen=["metrics.cpp"], repo=["fem", "interval", "inmost_interface"], files=["anifem++/utils/utils.cpp", "anifem++/utils/adapt_mesh.cpp"], flags=UTL["flags"] + ["-DUSE_MPI"])
BINARIES["met"] = MET
BINARIES["met_omp"] = dict(MET, flags=MET["flags"] + OMP + EIGEN)
MG = dict(scen=["meshgen.cpp"], repo=[], files=["anifem++/utils/mesh_utils.cpp"], flags=["-I" + os.path.join(VERIF, "stubs", "meshgen")])
BINARIES["mg"] = dict(MG, flags=MG["flags"] + ["-DUSE_MPI", "-DUSE_PARTITIONER"])
BINARIES["mg_serial"] = MG
BINARIES["ivl"] = dict(scen=["interval_map.cpp", "range_enum.cpp"], repo=[], flags=[])
KIN = ["-I" + os.path.join(VERIF, "stubs", "kinsol")]
BINARIES["kin"] = dict(scen=["kinsol.cpp"], repo=["kinsol_interface"], flags=KIN + ["-DUSE_MPI", "-DSUNDIALS_VERSION_MAJOR=6"])
BINARIES["kin_serial"] = dict(scen=["kinsol.cpp"], repo=["kinsol_interface"], flags=KIN + ["-DSUNDIALS_VERSION_MAJOR=5"])
# property -> [(binary, share)]
PROPERTY = {
    "C01": [("pool", 1)],
    "C02": [("pool", 1)],
    "C03": [("reg", 1), ("reg_omp", 1)],
    "C04": [("fw", 1), ("fw_omp", 1)],
    "C05": [("par", 1), ("par_omp", 2)],
    "C06": [("fem", 1), ("fem_eigen", 1)],
    "C07": [("fem", 1), ("fem_eigen", 1)],
    "C08": [("fem", 1), ("fem_eigen", 1)],
    "C09": [("fem", 1), ("fem_eigen", 1)],
    "C10": [("asm", 1), ("asm_omp", 1)],
    "C11": [("asm", 1)],
    "C12": [("ivl", 1)],
    "C27": [("mg", 5), ("mg_serial", 1)],
    "C28": [("utl", 2), ("utl_omp", 1)],
    "C29": [("met", 2), ("met_omp", 1)],
    "C26": [("kin", 2), ("kin_serial", 1)],
}

def sha(data):
    return hashlib.sha256(data).hexdigest()

_filehash = {}
def fhash(p):
    if p not in _filehash:
        try:
            _filehash[p] = sha(open(p, "rb").read())
        except OSError:
            _filehash[p] = "missing"
    return _filehash[p]

def compile_one(src, obj, flags):
    cmd = ["g++"] + flags + ["-MMD", "-MF", obj + ".d", "-c", src, "-o", obj]
    key = sha(" ".join(cmd).encode())
    stamp = obj + ".stamp"
    if os.path.exists(obj) and os.path.exists(stamp):
        lines = open(stamp).read().split("\n")
        if lines and lines[0] == key and all(fhash(l.split(" ", 1)[1]) == l.split(" ", 1)[0] for l in lines[1:] if l):
            return None
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        return "compilation of %s failed:\n%s" % (src, p.stdout[-6000:])
    deps = open(obj + ".d").read().replace("\\\n", " ").split(":", 1)[1].split()
    deps = [d for d in deps if not d.startswith("/usr/")]
    with open(stamp, "w") as f:
        f.write(key + "\n" + "\n".join(fhash(d) + " " + d for d in deps))
    return None

def build(names, jobs=None):
    """returns {name: path}; raises RuntimeError on failure"""
    os.makedirs(OUT, exist_ok=True)
    tasks, links = {}, {}
    for e in ENGINE:
        o = os.path.join(OUT, "eng_%s.o" % e)
        tasks[o] = (os.path.join(VERIF, "engine", e + ".cpp"), ["-std=c++17", "-O2", "-fno-builtin-memcpy"] + BASE)
    for n in names:
        b = BINARIES[n]
        objs = []
        for s in b["scen"]:
            fl = INSTR + BASE + b["flags"]
            o = os.path.join(OUT, "s_%s_%s.o" % (s.replace(".cpp", "").replace("/", "_"), sha(" ".join(fl).encode())[:8]))
            tasks[o] = (os.path.join(VERIF, "scen", s), fl); objs.append(o)
        for s in repo_srcs(*b["repo"]) + b.get("files", []):
            fl = INSTR + BASE + b["flags"]
            o = os.path.join(OUT, "r_%s_%s.o" % (re.sub(r"\W", "_", s), sha(" ".join(fl).encode())[:8]))
            tasks[o] = (os.path.join(REPO, s), fl); objs.append(o)
        links[n] = objs
    err = []
    # big translation units first
    with ThreadPoolExecutor(jobs or os.cpu_count() or 8) as ex:
        for r in ex.map(lambda t: compile_one(t[1][0], t[0], t[1][1]), sorted(tasks.items(), key=lambda t: -os.path.getsize(t[1][0]))):
            if r: err.append(r)
    if err: raise RuntimeError("\n".join(err))
    res = {}
    def link(n):
        out = os.path.join(OUT, "bin_" + n)
        objs = links[n] + [os.path.join(OUT, "eng_%s.o" % e) for e in ("driver", "gomp", "sim")]
        key = sha((" ".join(objs) + "".join(sha(open(o, "rb").read()) for o in objs)).encode())
        if not (os.path.exists(out) and os.path.exists(out + ".stamp") and open(out + ".stamp").read() == key):
            p = subprocess.run(["g++", "-no-pie"] + objs + [WRAP, "-ldl", "-lpthread", "-o", out], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode: return n, None, "link of %s failed:\n%s" % (n, p.stdout[-4000:])
            open(out + ".stamp", "w").write(key)
        return n, out, None
    with ThreadPoolExecutor(8) as ex:
        for n, out, e in ex.map(link, names):
            if e: raise RuntimeError(e)
            res[n] = out
    return res

if __name__ == "__main__":
    names = sys.argv[1:] or list(BINARIES)
    try:
        for n, p in build(names).items(): print(n, p)
    except RuntimeError as e:
        print(e); sys.exit(2)
