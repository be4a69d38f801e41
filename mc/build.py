"""Builds what a check needs from /repo's current working tree.

Objects live in a content-hash cache below $VERIF_BUILD (default /verif/build, git-ignored): an object is reused
only if its compiler command and every file it included have the same content as when it was made.
Nothing is taken from /repo/_build.
"""
import concurrent.futures as cf, hashlib, json, os, re, subprocess, sys, threading

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
JDK = "/usr/lib/jvm/java-17-openjdk-amd64/include"
NPROC = os.cpu_count() or 4

FLAVORS = {
    # name: (cxx, cc, flags, link flags)
    "opt": ("g++", "gcc", ["-O1", "-DNDEBUG"], []),
    "asan": ("g++", "gcc", ["-O1", "-g1", "-DNDEBUG", "-fsanitize=address,undefined", "-fno-sanitize-recover=all",
                            "-fno-omit-frame-pointer", "-fno-sanitize=float-divide-by-zero,vptr,alignment"],
             ["-fsanitize=address,undefined"]),
    "tsan": ("g++", "gcc", ["-O1", "-g1", "-DNDEBUG", "-fsanitize=thread"], ["-fsanitize=thread"]),
}
INC = ["src/Common", "src/LinAlg", "src/LinAlg/TMatrices", "src/Algorithm", "src/Algorithm/LinearSolvers",
       "src/Algorithm/Inexact", "src/Interfaces", "src/contrib/CGPenalty", "contrib/sIPOPT/src", "src/Apps/AmplSolver"]
DEFS = ["-DHAVE_CONFIG_H", "-DIPOPTLIB_BUILD"]
LIBS = ["-ldmumps_seq", "-llapack", "-lblas", "-lm", "-ldl", "-lpthread"]


class BuildError(Exception):
    pass


def makefile_sources():
    txt = open(os.path.join(REPO, "src/Makefile.am")).read().replace("\\\n", " ")
    m = re.search(r"^libipopt_la_SOURCES\s*=\s*(.*)$", txt, re.M)
    base = m.group(1).split()
    extra = re.search(r"if !IPOPT_INT64\s*\nlibipopt_la_SOURCES\s*\+=\s*(.*)$", txt, re.M).group(1).split()
    return ["src/" + s for s in base + extra if s.endswith((".c", ".cpp"))] + \
           ["src/Algorithm/LinearSolvers/IpMumpsSolverInterface.cpp"]


def group(name):
    """Source files (relative to REPO) of a component group."""
    if name == "lib":
        return makefile_sources()
    if name == "common":
        return [s for s in makefile_sources() if s.startswith("src/Common/")]
    if name == "linalg":
        return [s for s in makefile_sources() if s.startswith(("src/Common/", "src/LinAlg/"))] + \
               ["src/Algorithm/LinearSolvers/IpLinearSolvers.c", "src/Algorithm/LinearSolvers/IpTripletToCSRConverter.cpp"]
    if name == "java":
        return ["src/Interfaces/IpStdJInterface.cpp"]
    if name == "sens":
        txt = open(os.path.join(REPO, "contrib/sIPOPT/src/Makefile.am")).read().replace("\\\n", " ")
        m = re.search(r"^libsipopt_la_SOURCES\s*=\s*(.*)$", txt, re.M)
        return ["contrib/sIPOPT/src/" + s for s in m.group(1).split() if s.endswith(".cpp")]
    if name == "ampl":
        return ["src/Apps/AmplSolver/AmplTNLP.cpp", "src/Apps/AmplSolver/ampl_ipopt.cpp"]
    raise KeyError(name)


_hash_cache = {}
_hlock = threading.Lock()


def fhash(path):
    try:
        st = os.stat(path)
    except OSError:
        return None
    key = (path, st.st_mtime_ns, st.st_size)
    with _hlock:
        h = _hash_cache.get(key)
    if h is None:
        with open(path, "rb") as f:
            h = hashlib.sha256(f.read()).hexdigest()
        with _hlock:
            _hash_cache[key] = h
    return h


def parse_deps(dfile):
    txt = open(dfile).read().replace("\\\n", " ")
    deps = txt.split(":", 1)[1].split()
    # system headers do not change within a sandbox
    return [d for d in deps if not d.startswith("/usr/")]


def compile_one(flavor, src, extra=()):
    cxx, cc, flags, _ = FLAVORS[flavor]
    isC = src.endswith(".c")
    cmd = [cc if isC else cxx] + flags + ["-fPIC", "-w"] + ([] if isC else ["-std=gnu++17"]) + DEFS + \
          ["-I" + os.path.join(VERIF, "config")] + ["-I" + os.path.join(REPO, i) for i in INC] + \
          ["-I/usr/include/mumps_seq", "-I/usr/include/ampl-netlib-solvers", "-I" + JDK, "-I" + JDK + "/linux",
           "-I" + os.path.join(VERIF, "harness")] + list(extra) + ["-c", src]
    tag = hashlib.sha256("\0".join(cmd).encode()).hexdigest()[:16]
    d = os.path.join(BUILD, "obj", flavor)
    os.makedirs(d, exist_ok=True)
    obj = os.path.join(d, os.path.basename(src) + "." + tag + ".o")
    man = obj + ".json"
    if os.path.exists(obj) and os.path.exists(man):
        try:
            m = json.load(open(man))
            if all(fhash(p) == h for p, h in m.items()):
                return obj
        except (ValueError, OSError):
            pass
    tmp = obj + ".%d.tmp" % os.getpid()
    r = subprocess.run(cmd + ["-o", tmp, "-MMD", "-MF", tmp + ".d"], capture_output=True, text=True)
    if r.returncode != 0:
        raise BuildError("compilation of %s failed:\n%s" % (src, r.stderr[-4000:]))
    m = {p: fhash(p) for p in parse_deps(tmp + ".d")}
    os.replace(tmp, obj)
    os.remove(tmp + ".d")
    with open(man + ".tmp%d" % os.getpid(), "w") as f:
        json.dump(m, f)
    os.replace(man + ".tmp%d" % os.getpid(), man)
    return obj


def units(flavor, jobs):
    """Bundles the repository's C++ files into a few translation units of about equal size (much quicker to compile)."""
    bundle = [s for s, e in jobs if s.startswith(REPO + "/") and s.endswith(".cpp") and not e]
    rest = [([s], e) for s, e in jobs if not (s.startswith(REPO + "/") and s.endswith(".cpp") and not e)]
    k = min(NPROC, (len(bundle) + 3) // 4)
    bins, size = [[] for _ in range(k)], [0] * k
    for s in sorted(bundle, key=lambda s: (-os.path.getsize(s), s)):
        i = size.index(min(size))
        bins[i].append(s)
        size[i] += os.path.getsize(s) + 6000
    return [(b, ()) for b in bins] + rest


def compile_unit(flavor, srcs, extra):
    if len(srcs) == 1:
        return [compile_one(flavor, srcs[0], extra)]
    text = "".join('#include "%s"\n' % s for s in srcs)
    d = os.path.join(BUILD, "units")
    os.makedirs(d, exist_ok=True)
    u = os.path.join(d, "u%s.cpp" % hashlib.sha256(text.encode()).hexdigest()[:16])
    if not os.path.exists(u):
        with open(u + ".tmp%d" % os.getpid(), "w") as f:
            f.write(text)
        os.replace(u + ".tmp%d" % os.getpid(), u)
    try:
        return [compile_one(flavor, u, extra)]
    except BuildError:
        return [compile_one(flavor, s, extra) for s in srcs]    # names clash between files


def build(name, flavor, harness, groups=("lib",), extra=(), link=(), shared=False, exclude=(), libs=None):
    """Compiles harness files (below /verif/harness, or absolute) and repo groups; returns the program's path."""
    srcs = []
    for g in groups:
        for s in group(g):
            if s not in exclude and s not in srcs:
                srcs.append(s)
    jobs = [(os.path.join(REPO, s), ()) for s in srcs]
    jobs = [(h if os.path.isabs(h) else os.path.join(VERIF, "harness", h), tuple(extra)) for h in harness] + jobs
    with cf.ThreadPoolExecutor(NPROC) as ex:
        objs = [o for l in ex.map(lambda j: compile_unit(flavor, j[0], j[1]), units(flavor, jobs)) for o in l]
    bindir = os.path.join(BUILD, "bin", flavor)
    os.makedirs(bindir, exist_ok=True)
    out = os.path.join(bindir, name)
    cxx, _, _, lf = FLAVORS[flavor]
    cmd = [cxx] + lf + (["-shared"] if shared else []) + objs + list(link) + (LIBS if libs is None else libs)
    key = hashlib.sha256(("\0".join(cmd) + "".join(fhash(o) or "" for o in objs)).encode()).hexdigest()
    kf = out + ".key"
    if os.path.exists(out) and os.path.exists(kf) and open(kf).read() == key:
        return out
    tmp = out + ".%d.tmp" % os.getpid()
    r = subprocess.run(cmd + ["-o", tmp], capture_output=True, text=True)
    if r.returncode != 0:
        raise BuildError("link of %s failed:\n%s" % (name, r.stderr[-4000:]))
    os.replace(tmp, out)
    with open(kf, "w") as f:
        f.write(key)
    return out


if __name__ == "__main__":
    import time
    t = time.time()
    fl = sys.argv[1] if len(sys.argv) > 1 else "opt"
    jobs = [os.path.join(REPO, s) for s in group("lib")]
    with cf.ThreadPoolExecutor(NPROC) as ex:
        list(ex.map(lambda j: compile_unit(fl, j[0], j[1]), units(fl, [(j, ()) for j in jobs])))
    print("built lib", fl, "%.1fs" % (time.time() - t))
