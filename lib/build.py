"""Builds of /repo's current sources in the variants the checks need.

Everything goes to /verif/.build/<variant>-<hash of all sources and flags>, so a check always
runs what is in /repo's working tree now.
"""
import glob, hashlib, os, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src", "_booz_xform")
PKG = os.path.join(REPO, "src", "booz_xform")
EIGEN = os.path.join(REPO, "externalPackages", "eigen")
HARNESS = os.path.join(VERIF, "harness")
CACHE = os.path.join(VERIF, ".build")
PY = "/opt/boozenv/bin/python"


class BuildError(Exception):
    pass


def lib_sources():
    out = []
    for f in sorted(glob.glob(os.path.join(SRC, "*.cpp"))):
        t = open(f, errors="replace").read()
        if "PYBIND11_MODULE" in t or "int main(" in t:
            continue
        out.append(f)
    return out


def main_source():
    for f in sorted(glob.glob(os.path.join(SRC, "*.cpp"))):
        if "int main(" in open(f, errors="replace").read():
            return f
    raise BuildError("no main() in " + SRC)


def binding_source():
    for f in sorted(glob.glob(os.path.join(SRC, "*.cpp"))):
        if "PYBIND11_MODULE" in open(f, errors="replace").read():
            return f
    raise BuildError("no PYBIND11_MODULE in " + SRC)


def _hash(extra):
    h = hashlib.sha256()
    files = sorted(glob.glob(SRC + "/*.[ch]pp") + glob.glob(PKG + "/*.py") + glob.glob(HARNESS + "/*"))
    for f in files:
        h.update(os.path.basename(f).encode() + b"\0")
        h.update(open(f, "rb").read() + b"\0")
    for r, ds, fs in os.walk(EIGEN):
        ds.sort()
        for f in sorted(fs): h.update(f.encode() + b"\0" + open(os.path.join(r, f), "rb").read() + b"\0")
    h.update(repr(extra).encode())
    return h.hexdigest()[:20]


def _run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), p.stdout[-6000:]))
    return p.stdout


BASE = ["-ftemplate-depth=1024", "-std=gnu++11", "-w", "-I", SRC, "-isystem", EIGEN]
GXX = "/usr/bin/g++"

# libnetcdf's accesses to our memory are checked by harness/ncguard.cpp
NCGUARD = ["-Wl,--wrap=nc_%s_%s_%s" % (a, b, c) for a in ("put", "get") for b in ("var", "vara") for c in ("int", "long", "float", "double", "text")] + ["-Wl,--wrap=nc_put_att_text"]

VARIANTS = {
    # name: (compile flags, link flags, harness objects)
    "omp":    (["-O2", "-DNDEBUG", "-DOPENMP", "-fopenmp"], ["-fopenmp"], ["exec.cpp"]),
    "serial": (["-O2", "-DNDEBUG"], [], ["exec.cpp"]),
    # valid workloads: assertions of the code, Eigen and libstdc++ on
    "asan":   (["-O1", "-g1", "-fno-omit-frame-pointer", "-DOPENMP", "-fopenmp",
                "-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize-recover=all",
                "-D_GLIBCXX_ASSERTIONS"], ["-fopenmp"] + NCGUARD, ["exec.cpp", "ncguard.cpp"]),
    # hostile workloads: as in production, without assertions
    "asanrel": (["-O1", "-g1", "-fno-omit-frame-pointer", "-DNDEBUG", "-DOPENMP", "-fopenmp",
                 "-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize-recover=all"], ["-fopenmp"] + NCGUARD, ["exec.cpp", "ncguard.cpp"]),
    "tsan":   (["-O1", "-g1", "-fno-omit-frame-pointer", "-DNDEBUG", "-DOPENMP", "-fopenmp",
                "-fsanitize=thread"], [], ["exec.cpp", "gomp_shim.cpp"]),
    "shim":   (["-O2", "-DNDEBUG", "-DOPENMP", "-fopenmp"], [], ["exec.cpp", "gomp_shim.cpp"]),
    "valgrind": (["-O1", "-g", "-DNDEBUG", "-DWITH_VALGRIND"], [], ["exec.cpp"]),
    "fault":  (["-O1", "-g1", "-DNDEBUG", "-DOPENMP", "-fopenmp", "-DWITH_FAULTS"], ["-fopenmp"], ["exec.cpp", "sysfault.cpp", "memfault.cpp", "ncfault"]),
}


def _objects(d, flags, extra_sources):
    jobs = []
    for f in lib_sources():
        jobs.append((f, os.path.join(d, os.path.basename(f) + ".o"), flags))
    for f in extra_sources:
        fl = list(flags)
        if os.path.basename(f) == "gomp_shim.cpp":
            fl = [x for x in fl if x != "-fopenmp"]
        jobs.append((f, os.path.join(d, os.path.basename(f) + ".o"), fl))

    def comp(j):
        _run([GXX, "-c", "-fPIC"] + BASE + j[2] + ["-o", j[1], j[0]])
        return j[1]
    with ThreadPoolExecutor(8) as ex:
        return list(ex.map(comp, jobs))


def _finish(d, tmp):
    try:
        os.rename(tmp, d)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)


def _prune(prefix):
    """Keep the cache small: per variant at most 4 builds and those used in the last 20 minutes (by another check that runs now)."""
    ds = sorted(glob.glob(os.path.join(CACHE, prefix + "-*")), key=os.path.getmtime)
    for k, d in enumerate(ds[:-4]):
        if time.time() - os.path.getmtime(d) > 1200 or k < len(ds) - 20:
            shutil.rmtree(d, ignore_errors=True)


def _used(d):
    try: os.utime(d)
    except OSError: pass


def exec_binary(variant):
    """Path of the call-script interpreter built in this variant."""
    cflags, lflags, extra = VARIANTS[variant]
    d = os.path.join(CACHE, variant + "-" + _hash((variant, cflags, lflags, extra)))
    exe = os.path.join(d, "exec")
    if os.path.exists(exe):
        _used(d)
        return exe
    os.makedirs(CACHE, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix=variant + ".tmp.", dir=CACHE)
    srcs = [os.path.join(HARNESS, e) for e in extra if e.endswith(".cpp")]
    objs = _objects(tmp, cflags, srcs)
    if "ncfault" in extra:
        import ncfault
        objs += ncfault.build(tmp, objs, _run, GXX)
    san = [f for f in cflags if f.startswith("-fsanitize")]
    try:
        _run([GXX, "-o", os.path.join(tmp, "exec")] + objs + san + lflags + ["-lnetcdf", "-lpthread", "-ldl", "-rdynamic"])
    except BuildError:
        shutil.rmtree(tmp, ignore_errors=True)
        raise
    _finish(d, tmp)
    _prune(variant)
    return exe


def cli_binary():
    """The C++ command-line program."""
    flags = ["-O2", "-DNDEBUG", "-DOPENMP", "-fopenmp"]
    d = os.path.join(CACHE, "cli-" + _hash(("cli", flags)))
    exe = os.path.join(d, "xbooz_xform")
    if os.path.exists(exe):
        _used(d)
        return exe
    os.makedirs(CACHE, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="cli.tmp.", dir=CACHE)
    objs = _objects(tmp, flags, [main_source()])
    _run([GXX, "-o", os.path.join(tmp, "xbooz_xform")] + objs + ["-fopenmp", "-lnetcdf"])
    _finish(d, tmp)
    _prune("cli")
    return exe


def python_package(name="rel"):
    """Directory to put on sys.path: the package with its extension, with production flags ("rel") or AddressSanitizer ("pyasan")."""
    flags = ["-O3", "-DNDEBUG", "-DOPENMP", "-fopenmp", "-fvisibility=hidden"]
    link = []
    if name == "pyasan":
        # the assertions of the code, Eigen and libstdc++ are on
        flags = ["-O1", "-g1", "-fno-omit-frame-pointer", "-DOPENMP", "-fopenmp", "-fvisibility=hidden", "-fsanitize=address,undefined,float-cast-overflow",
                 "-fno-sanitize=vptr", "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS"]
        link = ["-fsanitize=address,undefined"]
    d = os.path.join(CACHE, name + "-" + _hash((name, flags)))
    if os.path.exists(os.path.join(d, "booz_xform", "__init__.py")):
        _used(d)
        return d
    os.makedirs(CACHE, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix=name + ".tmp.", dir=CACHE)
    inc = subprocess.run([PY, "-c", "import pybind11,sysconfig;print(pybind11.get_include());print(sysconfig.get_paths()['include']);print(sysconfig.get_config_var('EXT_SUFFIX'))"],
                         stdout=subprocess.PIPE, text=True, check=True).stdout.split()
    ver = _version()
    bflags = ["-O1" if f == "-O3" else f for f in flags] + ["-I", inc[0], "-I", inc[1]]
    with ThreadPoolExecutor(2) as ex:
        bo = os.path.join(tmp, "bindings.o")
        vd = ["-DVERSION_INFO=" + ver]
        f1 = ex.submit(_run, [GXX, "-c", "-fPIC"] + BASE + bflags + vd + ["-o", bo, binding_source()])
        objs = _objects(tmp, flags + vd, [])
        f1.result()
    pkg = os.path.join(tmp, "booz_xform")
    os.makedirs(pkg)
    _run([GXX, "-shared", "-o", os.path.join(pkg, "_booz_xform" + inc[2]), bo] + objs + link + ["-fopenmp", "-lnetcdf"])
    for f in glob.glob(os.path.join(PKG, "*.py")):
        if os.path.basename(f) != "__init__.py":
            shutil.copy(f, pkg)
    shutil.copy(os.path.join(PKG, "__init__.py"), pkg)  # last: marks completeness
    _finish(d, tmp)
    _prune(name)
    return d


def _version():
    import re
    for f in ("pyproject.toml", "setup.py", "CMakeLists.txt"):
        p = os.path.join(REPO, f)
        if os.path.exists(p):
            m = re.search(r"version\s*=\s*[\"']?([0-9][0-9a-zA-Z.]*)", open(p).read())
            if m:
                return m.group(1)
    return "0.0.0"
