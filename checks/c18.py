"""C18: the accuracy report, parsed from stdout of real runs and compared with an independent evaluation."""
import os, pickle, re, shutil, subprocess
import numpy as np
import build, gen, model, execdrv, ncio
import c05
from common import Inconclusive, short

BUILDS = ["rel", "omp", "serial", "shim?", "tsan?", "cli"]
CASES = {"quick": 320, "thorough": 8000}
RULE = ("random equilibria (both symmetries, any nfp, nboz = 0, resolutions from too coarse to fine, 1..60 surfaces in any order with repetitions, surface numbers up to thousands), every verbosity > 0, with 1..16 threads of libgomp, of the "
        "recording runtime with random delays, under ThreadSanitizer, with output slowed down piece by piece, from Python and from both command-line programs; every line of stdout is parsed; distinct by equilibrium, build and order of the records")
ASSUMPTIONS = ["the Boozer angles of the four points are those of the reference model (decided by C01, C02)", "errors at rounding level are compared to rounding level"]

NUM = r"[-+]?(?:\d+\.\d+e[-+]\d+|nan|inf)"
L1 = re.compile(r"^ *(\d+) +(\d+) +(\d+) +0((?: +%s){6})$" % NUM)
L2 = re.compile(r"^ +pi((?: +%s){6})$" % NUM)


def parse(text):
    """(records, other lines, problem)"""
    recs, other, problem = [], [], None
    lines = text.split("\n")
    if lines and lines[-1] == "": lines.pop()
    k = 0
    while k < len(lines):
        m = L1.match(lines[k])
        if m:
            m2 = L2.match(lines[k + 1]) if k + 1 < len(lines) else None
            if not m2:
                return recs, other, "the first line of a record, %r, is followed by %r" % (lines[k], lines[k + 1] if k + 1 < len(lines) else None)
            recs.append((int(m.group(1)), int(m.group(2)), int(m.group(3)), m.group(4).split() + m2.group(1).split()))
            k += 2
            continue
        if L2.match(lines[k]): return recs, other, "a second line of a record, %r, follows %r" % (lines[k], lines[k - 1] if k else None)
        other.append(re.sub(r"# threads = \d+", "# threads", lines[k]))
        k += 1
    return recs, other, problem


def half_ulp(s):
    m, x = s.lower().lstrip("+-").split("e")
    return 0.5 * 10.0 ** (int(x) - (len(m.split(".")[1]) if "." in m else 0))


def expected(e, D):
    """For every js_b: the twelve numbers in the order printed, and tolerances."""
    out = []
    zp = 0.0 if e["nboz"] == 0 else np.pi / e["nfp"]
    th, ze = np.array([0, np.pi, 0, np.pi]), np.array([0, 0, zp, zp])
    for k, js in enumerate(e["compute_surfs"]):
        f = model.fields(e, int(js), th, ze)
        B = model.series(D["xm_b"], D["xn_b"], D["bmnc_b"][:, k], D["bmns_b"][:, k] if e["asym"] else None, f["tb"], f["zb"])
        sb = np.abs(D["bmnc_b"][:, k]).sum() + (np.abs(D["bmns_b"][:, k]).sum() if e["asym"] else 0)
        rel = 1e-13 * (1 + f["asum"]) * (1 + f["mx"] + e["mboz"] + e["nboz"] * e["nfp"])
        err = np.abs(B - f["B"]) / np.maximum(B, f["B"])
        V, T = [], []
        for p in range(4):
            V += [f["B"][p], B[p], err[p]]
            big = max(abs(B[p]), abs(f["B"][p]))
            T += [rel * sb, rel * sb, 2 * rel * sb / max(B[p], f["B"][p], 1e-300) * (1 + big / max(B[p], f["B"][p], 1e-300))]
        out.append((V, T))
    return out


NAMES = ["%s at theta=%s, zeta=%s" % (q, t, z) for z in ("0", "half period") for t in ("0", "pi") for q in ("|B| of the input", "|B| of the Boozer series", "error")]


def judge(ctx, text, e, D, exp, threads, what, other=None, shift=0):
    recs, rest, problem = parse(text)
    if problem:
        ctx.fail("garbled", "%s: %s" % (problem, what)); return False
    n = len(e["compute_surfs"])
    got = sorted(r[1] for r in recs)
    if got != list(range(n)):
        left = [l for l in rest if l not in (other or [])]
        ctx.fail("records", "there are records for js_b = %s, expected 0..%d each once; other lines: %s; %s" % (got[:50], n - 1, left[:6], what)); return False
    for th, jb, js, v in recs:
        if js != e["compute_surfs"][jb]: ctx.fail("surface", "the record of js_b=%d says js=%d, but it is surface %d; %s" % (jb, js, e["compute_surfs"][jb], what)); return False
        if threads and not 0 <= th < threads: ctx.fail("thread", "the record of js_b=%d says thread %d of %d; %s" % (jb, th, threads, what)); return False
        V, T = exp[jb]
        for k in range(12):
            if "n" in v[k]: ctx.fail("value", "%s is %s for js_b=%d, expected %.6e; %s" % (NAMES[k], v[k], jb, V[k], what)); return False
            if not abs(float(v[k]) - V[k]) <= half_ulp(v[k]) * (1 + 1e-9) + T[k]:
                ctx.fail("value", "%s is printed as %s for js_b=%d, js=%d, expected %.6e; %s" % (NAMES[k], v[k], jb, js, V[k], what)); return False
            if k % 3 == 2: ctx.maxstat("error printed", float(v[k]))
    if other is not None and sorted(rest) != sorted(other):
        a, b = set(rest), set(other)
        ctx.fail("other-lines", "lines beside the records differ from those of a serial run: %s, missing %s; %s" % (sorted(a - b)[:4], sorted(b - a)[:4], what)); return False
    ctx.stat("records", n)
    return [r[1] for r in recs], sorted(set(r[0] for r in recs))


PYRUN = """
import pickle, sys
sys.path.insert(0, sys.argv[1]); sys.path.insert(0, sys.argv[2])
import booz_xform, gen
e, verbose, out = pickle.load(open(sys.argv[3], 'rb'))
b = booz_xform.Booz_xform()
gen.apply(b, e, verbose)
b.run()
pickle.dump(gen.snapshot(b), open(out, 'wb'))
"""


def case(ctx, i):
    rng = ctx.rng()
    d = ctx.dir()
    kind = i % 8
    if kind == 7: return cli(ctx, i, rng, d)
    e = gen.complete(rng, ns_in=int(rng.choice([1, 2, 5, 9, 30])) if i % 16 else int(rng.integers(1000, 3000)), asym=bool((i // 8) % 2), **({} if i % 16 else dict(mmax=1, nmax=1, mmax_nyq=1, nmax_nyq=1)))
    n = int(rng.choice([1, 2, 3, 5, 8, 16, 40, 60]))
    e["compute_surfs"] = rng.integers(0, e["ns_in"], n).astype("int32")
    if i % 16 == 0: e["compute_surfs"][rng.integers(n)] = e["ns_in"] - 1
    if i % 40 in (9, 20):
        # more than a hundred surfaces
        n = int(rng.integers(101, 260))
        e["compute_surfs"] = rng.integers(0, e["ns_in"], n).astype("int32")
        e["mboz"], e["nboz"] = min(e["mboz"], 3), min(e["nboz"], 2)
    elif i % 40 in (11, 22): e["mboz"], e["nboz"], e["compute_surfs"] = int(rng.integers(1, 4)), int(rng.integers(10, 40)), e["compute_surfs"][:5]
    elif i % 40 in (13, 26): e["mboz"], e["nboz"], e["compute_surfs"] = int(rng.integers(12, 40)), int(rng.integers(0, 3)), e["compute_surfs"][:5]
    n = len(e["compute_surfs"])
    if rng.random() < 0.4: e["compute_surfs"].sort()
    if kind in (3, 4): e["mboz"], e["nboz"] = min(e["mboz"], 6), min(e["nboz"], 4)
    if rng.random() < 0.15: e["nboz"] = 0
    verbose = int(rng.choice([1, 1, 2, 3, 100]))
    what = "%s, verbose %d" % (gen.describe(e), verbose)
    s, f, nc = c05.script(e, d, verbose, 0, "ref")
    r = execdrv.run(ctx.info["serial"], s, d, {})
    if not c05.ok(ctx, r, "serial", e): return
    D = execdrv.parse_dump(f)
    exp = expected(e, D)
    text0 = r.out.replace("boozmn.ref.nc", "boozmn.nc")
    if not judge(ctx, text0, e, D, exp, 1, "serial build, " + what): return
    other = parse(text0)[1]
    ctx.seen(("serial", what))
    runs = []
    if kind in (0, 1, 2):
        for k in range(3): runs.append(("omp", int(rng.choice([1, 2, 4, 8, 16])), {}))
    elif kind in (3, 4) and ctx.info.get("tsan"): runs.append(("tsan", int(rng.integers(2, 7)), {"SHIM_SEED": str(1 + int(rng.integers(1 << 20)))}))
    elif kind in (5, 6) and ctx.info.get("shim"):
        for k in range(3): runs.append(("shim", int(rng.choice([2, 3, 4, 8, 12])), {"SHIM_SEED": str(1 + int(rng.integers(1 << 20)))}))
    for k, (var, t, env) in enumerate(runs):
        env = dict(env, OMP_NUM_THREADS=str(t), SHIM_THREADS=str(t))
        if k > 0 or rng.random() < 0.5 or var == "tsan": env["EXEC_SLOWOUT"] = str(1 + int(rng.integers(1 << 20)))
        s, f, nc = c05.script(e, d, verbose, 0, "t%d" % k)
        if var == "tsan":
            r = c05.tsan_run(ctx.info["tsan"], s, d, env)
            if r.hang: raise Inconclusive("watchdog under TSan")
            if not c05.judge_tsan(ctx, r, "run() with %d threads, %s" % (t, what)): return
        else: r = execdrv.run(ctx.info[var], s, d, env)
        if not c05.ok(ctx, r, var, e): return
        o = judge(ctx, r.out.replace("boozmn.t%d.nc" % k, "boozmn.nc"), e, execdrv.parse_dump(f), exp, t, "%s build, %d threads, %s, %s" % (var, t, {k: v for k, v in env.items() if k in ("SHIM_SEED", "EXEC_SLOWOUT")}, what), other)
        if not o: return
        ctx.stat("runs " + var)
        if o[0] != sorted(o[0]): ctx.stat("reports not in order of the surfaces")
        if len(o[1]) > 1: ctx.stat("reports by several threads")
        ctx.seen((var, what, tuple(o[0])) if n > 1 and t > 1 else None)
    if kind in (2, 6):
        t = int(rng.choice([1, 3, 8]))
        p = os.path.join(d, "e.pickle"); out = os.path.join(d, "out.pickle")
        pickle.dump((e, verbose, out), open(p, "wb"))
        env = dict(os.environ, OMP_NUM_THREADS=str(t))
        try: q = subprocess.run([build.PY, "-c", PYRUN, ctx.info["rel"], os.path.join(build.VERIF, "lib"), p], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=120)
        except subprocess.TimeoutExpired: raise Inconclusive("watchdog")
        if q.returncode: return ctx.fail("exception", "from Python: %s; %s" % (short(q.stderr.decode(), 1500), what))
        o = judge(ctx, q.stdout.decode(), e, pickle.load(open(out, "rb")), exp, t, "from Python, %d threads, %s" % (t, what), [l for l in other if not l.startswith("Writing")])
        if not o: return
        ctx.stat("runs from Python")
        ctx.seen(("py", what, tuple(o[0])))
    ctx.sample(what)
    shutil.rmtree(d, ignore_errors=True)


def cli(ctx, i, rng, d):
    """The report in the output of the command-line programs."""
    import booz_xform
    v = gen.vmec(rng, ns=int(rng.choice([2, 3, 8, 20])), mpol=int(rng.choice([1, 2, 3])), ntor=int(rng.choice([0, 1, 2])))
    ncio.write_wout(os.path.join(d, "wout_x.nc"), v)
    n = v["ns"] - 1
    surfs = [int(x) for x in rng.integers(0, n, int(rng.integers(0, 2 * n)))]
    with open(os.path.join(d, "in"), "w") as f: f.write("0 0\nx\n%s\n" % " ".join(map(str, surfs)))
    b = booz_xform.Booz_xform()
    b.verbose = 0
    with ctx.valid("read_wout"):
        b.read_wout(os.path.join(d, "wout_x.nc"))
        if surfs: b.compute_surfs = sorted(surfs)
        b.run()
    e = gen.snapshot(b, gen.INPUTS)
    D = gen.snapshot(b)
    exp = expected(e, D)
    for name, cmd in (("C++", [ctx.info["cli"]]), ("Python", [build.PY, "-m", "booz_xform._cli"])):
        t = int(rng.choice([1, 2, 8]))
        try: p = subprocess.run(cmd + ["in"], cwd=d, env=dict(os.environ, PYTHONPATH=ctx.info["rel"], OMP_NUM_THREADS=str(t)), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
        except subprocess.TimeoutExpired: raise Inconclusive("watchdog")
        what = "%s program, %s" % (name, gen.describe(e))
        if p.returncode: return ctx.fail("exception", "%s: %s" % (what, short(p.stderr.decode(), 1000)))
        o = judge(ctx, p.stdout.decode(), e, D, exp, t, what)
        if not o: return
        ctx.stat("runs " + name + " program")
        ctx.seen((name, what, tuple(o[0])))
    shutil.rmtree(d, ignore_errors=True)
