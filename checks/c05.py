"""C05: race freedom (ThreadSanitizer under an instrumented OpenMP runtime) and schedule independence (bitwise)."""
import os, re
import gen, execdrv
from common import Inconclusive, short

BUILDS = ["omp", "serial", "shim?", "tsan?"]
CASES = {"quick": 480, "thorough": 9600}
RULE = ("random equilibria with 0..40 requested surfaces, every verbosity; each is run (a) under ThreadSanitizer with 2..8 threads and random start order and delays, "
        "(b) in builds without OpenMP, with libgomp at 1..17 threads, and with the recording runtime at random schedules, comparing all attributes and files bit for bit; "
        "distinct by equilibrium parameters, thread count and recorded schedule")
ASSUMPTIONS = ["libstdc++ and libnetcdf are not instrumented; their internal synchronisation is trusted",
               "the replacement OpenMP runtime implements the constructs used by the code"]


def equilibrium(rng, i):
    kw = {}
    kw["asym"] = bool(i // 2 % 2)
    e = gen.complete(rng, ns_in=int(rng.integers(1, 41)), **kw)
    n = int(rng.choice([1, 2, 3, 5, 8, 9, 13, 20, 40]))
    e["compute_surfs"] = rng.integers(0, e["ns_in"], n).astype("int32")
    if rng.random() < 0.5: e["compute_surfs"].sort()
    # small enough to be quick under TSan
    e["mboz"], e["nboz"] = min(e["mboz"], 8), min(e["nboz"], 5)
    if i % 11 == 3: e["nboz"] = 0
    return e


def script(e, d, verbose, threads, tag, twice=False, dynamic=False):
    s = execdrv.Script()
    s.add("new 0")
    s.apply(0, e, verbose)
    if threads: s.add("threads %d" % threads)
    if dynamic: s.add("dynamic 1")
    s.add("run 0")
    if twice: s.add("run 0")
    f = s.dump(0, d) + "." + tag
    s.l[-1] = "dump 0 " + f
    nc = os.path.join(d, "boozmn.%s.nc" % tag)
    s.add("write 0 " + nc)
    return s, f, nc


def load(f): return open(f, "rb").read()


def ok(ctx, r, what, e):
    if r.hang: raise Inconclusive("watchdog: " + what)
    bad = [(k, v) for k, v in r.log.items() if v[0] == "EXC"]
    if bad:
        ctx.fail("exception", "%s: %s failed: %s; %s" % (what, r.lines[bad[0][0]][:60], bad[0][1][1], gen.describe(e)))
        return False
    if not r.complete:
        ctx.fail("crash", "%s ended with %s: %s; %s" % (what, r.rc, r.err[-800:], gen.describe(e)))
        return False
    return True


def tsan_run(exe, s, d, env, timeout=200, options=""):
    env = dict(env)
    env["TSAN_OPTIONS"] = "halt_on_error=0:exitcode=66:report_thread_leaks=0:history_size=4:second_deadlock_stack=1" + options
    r = execdrv.run(exe, s, d, env, timeout)
    if "unexpected memory mapping" in r.err or "ThreadSanitizer: CHECK failed" in r.err:
        r = execdrv.run(exe, s, d, env, timeout, prefix=("setarch", "-R"))
        if "unexpected memory mapping" in r.err or "ThreadSanitizer: CHECK failed" in r.err:
            raise Inconclusive("ThreadSanitizer cannot run here: " + short(r.err, 300))
    r.reports = re.findall(r"WARNING: ThreadSanitizer: ([^\n(]+)", r.err)
    return r


def schedules(f):
    return [l.strip() for l in open(f)] if os.path.exists(f) else []


def judge_tsan(ctx, r, what):
    """Report a race; True if clean."""
    if r.reports:
        fr = re.findall(r"#\d+ (booz_xform::[\w:~]+|[\w:]+)\(?[^\n]*?/src/_booz_xform/(\w+\.\w+):(\d+)", r.err)
        where = fr[0][0] + "@" + fr[0][1] if fr else "?"
        kind = r.reports[0].strip().replace(" ", "_")
        ctx.fail("tsan:%s:%s" % (kind, where), "%s: %d reports; first:\n%s" % (what, len(r.reports), short(r.err[r.err.index("WARNING: ThreadSanitizer"):], 2500)))
        return False
    return True


def no_memory(ctx, rng, d):
    """Several threads run out of memory at once: one exception, no race, and the object is usable afterwards."""
    e = gen.complete(rng, mmax=int(rng.integers(0, 3)), nmax=int(rng.integers(0, 2)), mmax_nyq=3, nmax_nyq=1, ns_in=4, asym=bool(rng.random() < 0.5), rare=False)
    e["compute_surfs"] = rng.integers(0, 4, int(rng.integers(4, 17))).astype("int32")
    e["mboz"], e["nboz"] = 40, 15    # arrays of more than 1 MB for each surface
    verbose = int(rng.integers(0, 3))
    desc = dict(gen.describe(e), verbose=verbose)
    t = int(rng.integers(2, 9))
    s = execdrv.Script()
    s.add("new 0")
    s.apply(0, e, verbose)
    a = s.add("run 0")
    s.set(0, "mboz", 4); s.set(0, "nboz", 2)
    b = s.add("run 0")
    f = s.dump(0, d)
    s.add("new 1")
    s.apply(1, dict(e, mboz=4, nboz=2), verbose)
    s.add("run 1")
    g = s.dump(1, d)
    env = {"SHIM_SEED": str(1 + int(rng.integers(1 << 20))), "SHIM_THREADS": str(t), "SHIM_TRACE": os.path.join(d, "trace")}
    r = tsan_run(ctx.info["tsan"], s, d, env, options=":allocator_may_return_null=1:max_allocation_size_mb=1")
    if r.hang: raise Inconclusive("watchdog under TSan")
    if not judge_tsan(ctx, r, "run() out of memory on %d threads, %s" % (t, desc)): return
    if r.log.get(a, ("",))[0] == "OK": raise Inconclusive("the memory limit had no effect")
    if not r.complete: return ctx.fail("crash:memory", "ended with %s: %s; %s" % (r.rc, r.err[-800:], desc))
    if r.log[b][0] != "OK": return ctx.fail("recovery", "after a run out of memory run() raised %s; %s" % (r.log[b][1], desc))
    if load(f) != load(g): return ctx.fail("differs:memory", "attributes differ after a run out of memory; %s" % desc)
    ctx.stat("tsan runs out of memory")
    ctx.seen(("memory", str(desc), t))


def case(ctx, i):
    rng = ctx.rng()
    e = equilibrium(rng, i)
    verbose = int(rng.choice([0, 1, 2, 3]))
    d = ctx.dir()
    desc = gen.describe(e)
    desc["verbose"] = verbose
    if i % 20 == 6 and ctx.info.get("tsan"): return no_memory(ctx, rng, d)
    if i % 2 == 0 and ctx.info.get("tsan"):
        ths = [int(x) for x in rng.choice([2, 3, 4, 5, 8], 2, replace=False)]
        for k, t in enumerate(ths):
            s, f, nc = script(e, d, verbose, 0, "t%d" % k, twice=(k == 1))
            tr = os.path.join(d, "trace%d" % k)
            env = {"SHIM_SEED": str(1 + int(rng.integers(1 << 20))), "SHIM_THREADS": str(t), "SHIM_TRACE": tr}
            r = tsan_run(ctx.info["tsan"], s, d, env)
            if r.hang: raise Inconclusive("watchdog under TSan")
            if not judge_tsan(ctx, r, "run() with %d threads, verbose %d, %s" % (t, verbose, desc)): return
            if not ok(ctx, r, "TSan build", e): return
            ctx.stat("tsan runs")
            for l in schedules(tr):
                ctx.stat("tsan regions")
                ctx.seen((desc, l) if t > 1 and len(e["compute_surfs"]) > 1 else None)
        if load(os.path.join(d, "dump1.t0")) != load(os.path.join(d, "dump1.t1")):
            ctx.fail("differs:tsan", "attributes differ between two schedules; %s" % desc)
        return
    runs = [("serial", "serial", {}, 0, False)]
    for t in [1, int(rng.integers(2, 9)), int(rng.integers(9, 18))]:
        runs.append(("omp%d" % t, "omp", {"OMP_NUM_THREADS": str(t)}, 0, False))
    runs.append(("ompset", "omp", {"OMP_NUM_THREADS": "2"}, int(rng.integers(1, 7)), False))
    runs.append(("ompdyn", "omp", {"OMP_NUM_THREADS": "8", "OMP_DYNAMIC": "true", "OMP_SCHEDULE": "dynamic,1", "OMP_THREAD_LIMIT": str(int(rng.integers(1, 5)))}, 0, False))
    if ctx.info.get("shim"):
        for k in range(3):
            runs.append(("shim%d" % k, "shim", {"SHIM_SEED": str(1 + int(rng.integers(1 << 20))), "SHIM_THREADS": str(int(rng.integers(1, 13))),
                                               "SHIM_TRACE": os.path.join(d, "tr%d" % k)}, 0, k == 2))
    ref = None
    for tag, var, env, th, dyn in runs:
        v2 = verbose if tag != "omp1" else 0
        s, f, nc = script(e, d, v2, th, tag, dynamic=dyn)
        r = execdrv.run(ctx.info[var], s, d, env)
        if not ok(ctx, r, tag, e): return
        cur = (re.sub(rb"(?m)^verbose i \d+$", b"", load(f)), load(nc))
        if ref is None: ref = cur
        elif cur != ref:
            a, b = cur[0].split(b"\n"), ref[0].split(b"\n")
            names = [x.split(b" ")[0].decode() for x, y in zip(a, b) if x != y]
            ctx.fail("differs:" + (names[0] if names else "file"), "%s %s differ from those of the serial build: attributes %s, file %s; %s" % (
                tag, env, names, "differs" if cur[1] != ref[1] else "same", desc))
            return
        ctx.stat("bitwise comparisons")
        ctx.seen((desc, tag, tuple(schedules(env["SHIM_TRACE"]))[:1] if "SHIM_TRACE" in env else env.get("OMP_NUM_THREADS")) if len(e["compute_surfs"]) > 1 else None)
    ctx.sample(desc)
