"""C12: memory safety and absence of undefined behaviour and leaks in valid use."""
import os, re, subprocess
import numpy as np
import build, gen, ncio, execdrv
from common import Inconclusive

BUILDS = ["asan", "pyasan"]
CASES = {"quick": 480, "thorough": 9000}
RULE = ("scripts of 5..40 valid calls on 1..3 C++ objects (assign boundary-size or random inputs, init_from_vmec, read wout and boozmn files, run, write, copy, assign, destroy) at verbosity 0..3, in a build with "
        "AddressSanitizer, UndefinedBehaviorSanitizer, LeakSanitizer and the assertions of the code, Eigen and libstdc++; any report, crash, failed assertion or exception is a violation; one case in twelve is a history of the Python module built likewise, carried out six times "
        "in one process: in addition the number of allocated bytes must not grow from round to round; distinct by script")
ASSUMPTIONS = ["red zones detect overflows that leave the object; libnetcdf itself is not instrumented"]


def boundary(rng, k):
    """The smallest and the odd ones."""
    kw = [dict(mmax=0, nmax=0, mmax_nyq=0, nmax_nyq=0, ns_in=1), dict(mmax=1, nmax=0, nmax_nyq=0, ns_in=2), dict(mmax=0, nmax=3, ns_in=1), dict(mmax=3, nmax=2, mmax_nyq=3, nmax_nyq=2, ns_in=3, vmec_mpol=False),
          dict(nfp=61, nmax=2), dict(ns_in=1), dict(mmax=2, nmax=0, mmax_nyq=7, nmax_nyq=5), dict(mmax=12, nmax=9, ns_in=2), dict(style="sparse"), dict(style="negzero")][k % 10]
    return gen.equilibrium(rng, asym=bool(rng.random() < 0.5), **kw)


def res(rng):
    return [(1, 0), (1, 1), (2, 0), (1, 5), (12, 0), (3, 2), (2, 1), (5, 4), (20, 1), (2, 15)][int(rng.integers(10))]


def full(rng, k):
    e = boundary(rng, k) if rng.random() < 0.6 else gen.equilibrium(rng)
    e["mboz"], e["nboz"] = res(rng)
    e["compute_surfs"] = gen.surfaces(rng, e["ns_in"])
    r = rng.random()
    if r < 0.1: e["compute_surfs"] = np.zeros(0, dtype=np.int32)
    elif r < 0.2: e["compute_surfs"] = rng.integers(0, e["ns_in"], 20).astype(np.int32)
    if rng.random() < 0.1: e["s_in"] = np.zeros(0)
    return e


def script(ctx, rng, d, i):
    """A script of calls that are all valid; tracks what each object can do."""
    s = execdrv.Script()
    st, h, surfs = {}, [], {}
    files = []
    nf = 0

    def set_all(k):
        e = full(rng, i + len(h))
        s.apply(k, e, int(rng.integers(0, 4)))
        st[k], surfs[k] = "inputs", len(e["compute_surfs"])
        h.append(("inputs", e["mnmax"], e["mnmax_nyq"], e["ns_in"], e["mboz"], e["nboz"], int(e["asym"]), surfs[k]))
    s.add("new 0"); st[0] = "new"
    set_all(0)
    for step in range(int(rng.integers(5, 41))):
        k = int(rng.choice(sorted(st)))
        r = rng.random()
        if r < 0.15: set_all(k)
        elif r < 0.35:
            if st[k] in ("inputs", "run"): s.add("run %d" % k); st[k] = "run"; h.append("run")
        elif r < 0.42 and st[k] == "run" and surfs[k]:
            f = os.path.join(d, "b%d.nc" % nf); nf += 1
            s.add("write %d %s" % (k, f)); files.append(f); h.append("write")
        elif r < 0.50 and files:
            s.add("rd %d %s" % (k, files[int(rng.integers(len(files)))])); st[k] = "loaded"; h.append("read boozmn"); surfs[k] = 1
            if rng.random() < 0.5: s.add("write %d %s" % (k, os.path.join(d, "rw.nc"))); h.append("rewrite")
        elif r < 0.62:
            v = gen.vmec(rng, ns=int(rng.choice([2, 2, 3, 4, 9])), mpol=int(rng.choice([1, 1, 2, 3, 6])), ntor=int(rng.choice([0, 0, 1, 3])))
            flux = bool(rng.random() < 0.5)
            s.set(k, "verbose", int(rng.integers(0, 4)))
            if rng.random() < 0.5:
                f = os.path.join(d, "w%d.nc" % nf); nf += 1
                ncio.write_wout(f, v, str(rng.choice(sorted(ncio.FORMATS))))
                s.add("wout %d %s %d" % (k, f, flux)); h.append(("wout", v["ns"], v["mpol"], v["ntor"], v["lasym__logical__"], flux))
            else:
                s.vmec(k, v, flux); h.append(("vmec", v["ns"], v["mpol"], v["ntor"], v["lasym__logical__"], flux))
            if v["ns"] > 4 or rng.random() < 0.5: s.set(k, "mboz", int(rng.integers(1, 7))); s.set(k, "nboz", int(rng.integers(0, 4)))
            st[k], surfs[k] = "inputs", v["ns"] - 1
            if rng.random() < 0.6: s.add("run %d" % k); st[k] = "run"; h.append("run")
        elif r < 0.70 and len(st) < 3:
            j = max(st) + 1
            s.add("copy %d %d" % (j, k)); st[j], surfs[j] = st[k], surfs.get(k, 0); h.append("copy")
        elif r < 0.76 and len(st) > 1:
            j = int(rng.choice([x for x in st if x != k]))
            s.add("assign %d %d" % (j, k)); st[j], surfs[j] = st[k], surfs.get(k, 0); h.append("assign")
        elif r < 0.79:
            s.add("assign %d %d" % (k, k)); h.append("self-assign")
        elif r < 0.84 and len(st) > 1:
            s.add("del %d" % k); del st[k]; h.append("delete")
        elif r < 0.90 and st[k] in ("inputs", "run"):
            mb, nb = res(rng); s.set(k, "mboz", mb); s.set(k, "nboz", nb); st[k] = "inputs"; h.append(("resolution", mb, nb))
        elif r < 0.94:
            s.dump(k, d); h.append("read attributes")
        else:
            s.set(k, "verbose", int(rng.integers(0, 4))); h.append("verbose")
    return s, h


def execute(ctx, exe, s, d, env=None, timeout=240):
    e = dict(execdrv.SAN_ENV)
    e["OMP_NUM_THREADS"] = str(ctx.rng(7).integers(1, 5))
    e.update(env or {})
    r = execdrv.run(exe, s, d, e, timeout)
    if "LeakSanitizer has encountered a fatal error" in r.err or "LeakSanitizer does not work" in r.err:
        # leak detection is not possible in this environment; everything else is
        e["ASAN_OPTIONS"] = e["ASAN_OPTIONS"].replace("detect_leaks=1", "detect_leaks=0")
        ctx.stat("runs without leak detection")
        r = execdrv.run(exe, s, d, e, timeout)
    return r


def library(name):
    return subprocess.run([build.GXX, "-print-file-name=" + name], stdout=subprocess.PIPE, text=True, check=True).stdout.strip()


def python(ctx, i):
    """The Python module, in a process of its own."""
    rng = ctx.rng()
    d = ctx.dir()
    w = os.path.join(d, "wout.nc")
    # libhdf5 itself keeps some kB per file
    ncio.write_wout(w, gen.vmec(rng, ns=int(rng.integers(2, 6)), mpol=int(rng.integers(1, 4)), ntor=int(rng.integers(0, 3))), str(rng.choice(["classic", "64bit", "cdf5"])))
    rounds = 6
    cmd = [build.PY, os.path.join(build.HARNESS, "pyuse.py"), ctx.info["pyasan"], os.path.join(build.VERIF, "lib"), str(int(rng.integers(1 << 30))), d, w, str(rounds)]
    env = dict(os.environ, LD_PRELOAD=library("libasan.so") + " " + library("libubsan.so"), PYTHONMALLOC="malloc", OMP_NUM_THREADS=str(int(rng.integers(1, 5))), OPENBLAS_NUM_THREADS="1", VERIF_LEAKS="1",
               ASAN_OPTIONS=execdrv.SAN_ENV["ASAN_OPTIONS"] + ":malloc_context_size=20", UBSAN_OPTIONS=execdrv.SAN_ENV["UBSAN_OPTIONS"], LSAN_OPTIONS="exitcode=66")
    env.pop("MALLOC_PERTURB_", None)
    for attempt in (0, 1):
        try: p = subprocess.run(cmd, cwd=d, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300)
        except subprocess.TimeoutExpired: raise Inconclusive("watchdog")
        err, out = p.stderr.decode(errors="replace"), p.stdout.decode(errors="replace")
        if "LeakSanitizer has encountered a fatal error" not in err and "LeakSanitizer does not work" not in err: break
        # leak detection is not possible in this environment; everything else is
        env.pop("VERIF_LEAKS")
        ctx.stat("runs without leak detection")
    m = re.search(r"^LOG (.*)$", out, re.M)
    h = m.group(1) if m else "?"
    ctx.stat("Python processes")
    ctx.stat("Python operations", rounds * h.count(";"))
    ours = lambda x: "_booz_xform" in x and "/pyasan-" in x
    leaks = [x for x in re.split(r"\n(?=(?:Direct|Indirect) leak)", err)[1:] if ours(x)]
    if leaks: return ctx.fail("python:leak", "%s\nhistory %s" % (leaks[0][:2500], h))
    m = re.search(r"==\d+==ERROR: AddressSanitizer: ([\w-]+)", err) or re.search(r"runtime error: (.{50})", err)
    if m and p.returncode: return ctx.fail("python:" + m.group(1), "%s\nhistory %s" % (err[:3000], h))
    if p.returncode < 0 or p.returncode in (134, 139): return ctx.fail("python:crash", "ended with %s: %s\nhistory %s" % (p.returncode, err[-2500:], h))
    m = re.search(r"^SIZES (.*)$", out, re.M)
    if p.returncode or not m: return ctx.fail("python:exception", "ended with %s: %s\nhistory %s" % (p.returncode, err[-2500:], h))
    sizes = [int(x) for x in m.group(1).split()]
    grow = [b - a for a, b in zip(sizes, sizes[1:])][1:]
    ctx.maxstat("bytes per round kept allocated", min(grow))
    # Python's and NumPy's caches account for some hundred bytes
    if min(grow) > 3000: return ctx.fail("python:growth", "each repetition of the same calls leaves more memory allocated: bytes after each round %s; history %s" % (sizes, h))
    ctx.seen(h)


def case(ctx, i):
    if i % 12 == 7: return python(ctx, i)
    rng = ctx.rng()
    d = ctx.dir()
    s, h = script(ctx, rng, d, i)
    r = execute(ctx, ctx.info["asan"], s, d)
    if r.hang: raise Inconclusive("watchdog")
    rep = execdrv.sanitizer_report(r)
    if rep: return ctx.fail(rep[0], "%s\nhistory %s" % (rep[1], h))
    bad = [(k, v) for k, v in r.log.items() if v[0] == "EXC"]
    if bad: return ctx.fail("exception", "%s raised %s; history %s" % (r.lines[bad[0][0]][:80], bad[0][1][1], h))
    if not r.complete: return ctx.fail("crash", "ended with %s: %s; history %s" % (r.rc, r.err[-1000:], h))
    ctx.stat("calls", len(r.log))
    ctx.stat("scripts")
    ctx.seen(tuple(map(str, h)) if len(h) > 2 else None)
    ctx.sample(h)
