"""C07: results depend on the current inputs only, never on the history of the object."""
import os
import numpy as np
import gen, hist, execdrv, ncio
from common import Inconclusive

BUILDS = ["rel", "fault"]
CASES = {"quick": 600, "thorough": 9000}
RULE = ("(a) every allocation that run, read_wout, init_from_vmec, read_boozmn and write_boozmn make themselves fails in turn (single ones, two in a row, all from then on; 1 and 3 threads; new and used objects): "
        "the call raises or gives what it gives without the fault, inputs and descriptors are unchanged, write_boozmn() then raises or writes what it would have written before the call, and the same call "
        "with memory gives bit for bit what it gives on an object that never failed; (b) random histories of 4..30 operations (assign inputs, change resolution, surfaces, profiles, symmetry, load wout and boozmn files, run, write, failing calls) on one object; "
        "at checkpoints the object is compared bit for bit with a new object given the same current inputs, or having loaded the same file only; "
        "non-trivial: the checkpoint had at least two state-changing operations before it; distinct by the history")
ASSUMPTIONS = ["results are compared when run() follows the inputs; loads are compared over the attributes that they define",
               "allocations inside libnetcdf, libhdf5 and the OpenMP runtime do not fail"]

RD = ["asym", "nfp", "aspect", "mboz", "nboz", "mnboz", "xm_b", "xn_b", "ns_in", "iota", "Boozer_G_all", "Boozer_I_all", "phi", "phip", "chi", "pres",
      "toroidal_flux", "ns_b", "compute_surfs", "s_b", "s_in", "Boozer_G", "Boozer_I"] + gen.OUT_MATS + gen.OUT_ASYM


def outcome(f):
    try: f()
    except RuntimeError as ex: return "RuntimeError: " + str(ex)
    return None


def written(b, f):
    if os.path.exists(f): os.unlink(f)
    r = outcome(lambda: b.write_boozmn(f))
    return r, (open(f, "rb").read() if os.path.exists(f) else None)


def compare_files(ctx, b, c, d, h):
    f1, f2 = os.path.join(d, "a.nc"), os.path.join(d, "b.nc")
    x, y = written(b, f1), written(c, f2)
    if x != y:
        ctx.fail("file", "files written differ (%s, %s) after %s" % (x[0], y[0], h))
        return
    if written(b, f1) != x: ctx.fail("rewrite", "writing twice gives different files after %s" % h)
    ctx.stat("files compared")


def check_run(ctx, b, d, h):
    import booz_xform
    s = gen.snapshot(b, gen.INPUTS)
    c = gen.apply(booz_xform.Booz_xform(), s, b.verbose)
    r1, r2 = outcome(b.run), outcome(c.run)
    if r1 != r2: return ctx.fail("outcome", "run() gave %r, on a new object with the same inputs %r, after %s" % (r1, r2, h))
    if r1 is not None:
        ctx.stat("rejected alike")
        return
    t, u = gen.snapshot(b), gen.snapshot(c)
    w = gen.diff(t, u)
    if w: return ctx.fail("differs:" + w[0], "%s differ from those of a new object with the same inputs; %s: %s; after %s" % (w, w[0], detail(t[w[0]], u[w[0]]), h))
    ctx.stat("attributes compared", len(t))
    if len(s["compute_surfs"]): compare_files(ctx, b, c, d, h)
    b.run()
    w = gen.diff(gen.snapshot(b, gen.OUTPUTS), {k: t[k] for k in gen.OUTPUTS})
    if w: ctx.fail("rerun:" + w[0], "running twice changes %s after %s" % (w, h))
    ctx.stat("runs compared")


def detail(a, b):
    import numpy as np
    if isinstance(a, np.ndarray) and isinstance(b, np.ndarray):
        if a.shape != b.shape: return "shapes %s, %s" % (a.shape, b.shape)
        return "largest difference %g" % np.nanmax(np.abs(a - b)) if a.size else "dtype"
    return "%r, %r" % (a, b)


def check_load(ctx, b, op, pool, h):
    """The last operation was a successful load: compare with a new object that performs just this."""
    import booz_xform
    c = booz_xform.Booz_xform()
    c.verbose = b.verbose
    r = hist.do(c, op, pool, None)
    if r is not None: return ctx.fail("load-outcome", "%s failed on a new object (%s) but not after %s" % (op, r, h))
    names = RD if op[0] == "rd" else [k for k in gen.INPUTS if k != "aspect" or op[0] == "wout"]
    w = gen.diff(gen.snapshot(b, names), gen.snapshot(c, names))
    if w: return ctx.fail("load:%s:%s" % (op[0], w[0]), "after %s, %s leaves %s different from those in a new object: %s" % (h, op, w, detail(getattr(b, w[0]), getattr(c, w[0]))))
    ctx.stat("loads compared")
    return c


IGNORE = ("verbose",)


def loaded(f):
    """A dump; the first phip is what write_boozmn() made of it, or would."""
    D = execdrv.parse_dump(f)
    if len(D["phip"]): D["phip"][0] = 0.0
    return D


def no_memory(ctx, i, rng, d):
    """Every allocation of an operation fails in turn: the operation raises, or gives what it always gives; an object left
    behind by a failed call writes nothing, or the file it would have written before; and the same call then works."""
    op = ["run", "wout", "rd", "write", "vmec"][i // 20 % 5]
    e = gen.complete(rng, ns_in=int(rng.integers(1, 4)), mmax=int(rng.integers(0, 4)), nmax=int(rng.integers(0, 3)), rare=False)
    e["mboz"], e["nboz"] = min(e["mboz"], 4), min(e["nboz"], 3)
    o = gen.complete(rng, ns_in=int(rng.integers(1, 4)), mmax=2, nmax=1, rare=False)
    o["mboz"], o["nboz"] = 2, 2
    v = gen.vmec(rng, asym=bool(i // 20 % 2), ns=int(rng.integers(2, 5)), mpol=int(rng.integers(1, 4)), ntor=int(rng.integers(0, 3)))
    wout, bmn, pre, post, out, refw = (os.path.join(d, x) for x in ("wout.nc", "in.nc", "pre.nc", "post.nc", "out.nc", "ref.nc"))
    ncio.write_wout(wout, v, str(rng.choice(["classic", "netcdf4"])))
    ncio.write_boozmn(bmn, gen.results(rng, mboz=2, nboz=1, ns_in=3), str(rng.choice(["classic", "netcdf4"])))
    exe, env = ctx.info["fault"], {"OMP_NUM_THREADS": str(int(rng.choice([1, 1, 3]))), "OMP_DYNAMIC": "false"}
    life = int(rng.integers(3))   # of the object before: none, the same data, other data
    verbose = int(rng.random() < 0.2)

    def call(s, k, first=True):
        if op == "run": return s.add("run %d" % k)
        if op == "wout": return s.add("wout %d %s 1" % (k, wout))
        if op == "rd": return s.add("rd %d %s" % (k, bmn))
        if op == "write": return s.add("write %d %s" % (k, out))
        return s.vmec(k, v, True)

    def prepare(s, k):
        s.add("new %d" % k)
        if life == 1 or op == "write": s.apply(k, e); s.add("run %d" % k)
        elif life == 2: s.apply(k, o); s.add("run %d" % k)
        if op == "run": s.apply(k, e)
        s.set(k, "verbose", verbose)

    def after(s, k):
        """What the object then holds, as complete results."""
        if op in ("wout", "vmec"): s.set(k, "mboz", 3); s.set(k, "nboz", 1); s.add("run %d" % k)
        return s.dump(k, d)

    s = execdrv.Script()
    prepare(s, 0); s.add("memfault 0 0"); call(s, 0); n0 = s.add("nomemfault")
    after(s, 0)   # once more: the first call sets up what lasts for the life of the process
    prepare(s, 0); s.add("memfault 0 0"); call(s, 0); n0 = s.add("nomemfault")
    first = s.dump(0, d)
    ref = after(s, 0)
    s.add("write 0 " + refw)
    r = execdrv.run(exe, s, d, env)
    if r.hang: raise Inconclusive("watchdog")
    if not r.complete or any(x[0] == "EXC" for x in r.log.values()): return ctx.fail("memory-reference", "%s: %s %s" % (op, [x for x in r.log.values() if x[0] == "EXC"], r.err[-500:]))
    total = int(r.log[n0][1].split()[0])
    ctx.stat("allocations in " + op, total)
    A, R = loaded(first), loaded(ref)
    refb = open(refw, "rb").read()
    what = "life=%d %s" % (life, gen.describe(e) if op in ("run", "write") else op + str({k: v[k] for k in ("lasym__logical__", "ns", "nfp", "mpol", "ntor")}))
    ns = list(range(1, total + 1)) if total <= 60 or ctx.tier == "thorough" else sorted(1 + rng.choice(total, 60, replace=False))
    for c in range(0, len(ns), 12):
        s, L = execdrv.Script(), []
        for n in ns[c:c + 12]:
            p1, p2, p3 = (x[:-3] + "%d.nc" % n for x in (pre, post, out))
            prepare(s, 1)
            s.set(1, "verbose", 0)
            w0 = s.add("write 1 " + p1)
            before = s.dump(1, d)
            s.set(1, "verbose", verbose)
            f0 = s.add("fds")
            if op == "write": s.add("unlink " + out)
            if op == "vmec": call(s, 1); line = s.l.pop(); s.add("memfault %d %d" % (n, int(rng.choice([0, 0, 1, 100000])))); k = s.add(line)
            else: s.add("memfault %d %d" % (n, int(rng.choice([0, 0, 1, 100000])))); k = call(s, 1)
            q = s.add("nomemfault")
            f1 = s.add("fds")
            dump = s.dump(1, d)
            if op == "write": s.add("keep %s %s" % (out, p3))
            w1 = s.add("write 1 " + p2)
            again = call(s, 1)
            s.set(1, "verbose", 0)
            end = after(s, 1)
            L.append((n, w0, before, f0, k, q, f1, dump, w1, again, end, p1, p2, p3))
        r = execdrv.run(exe, s, d, env)
        if r.hang: raise Inconclusive("watchdog")
        if not r.complete:
            last = max(list(r.log) + [-1])
            n = [x[0] for x in L if x[4] > last][:1]
            return ctx.fail("memory-crash:" + op, "the process ended with %s when allocation %s of %d in %s failed; %s; %s" % (r.rc, n, total, op, r.err[-600:], what))
        for n, w0, before, f0, k, q, f1, dump, w1, again, end, p1, p2, p3 in L:
            w = "allocation %d of %d in %s; %s" % (n, total, op, what)
            raised = r.log[k][0] == "EXC"
            if r.log[q][1].split()[1] == "0": ctx.stat("faults not reached"); continue
            ctx.stat("faults in %s: %s" % (op, "raised" if raised else "no effect"))
            if r.log[f0][1] != r.log[f1][1]: return ctx.fail("memory-descriptors:" + op, "%s open descriptors before, %s after; %s" % (r.log[f0][1], r.log[f1][1], w))
            B, D = loaded(before), loaded(dump)
            ok = open(p2, "rb").read() if r.log[w1][0] == "OK" else None
            if not raised:
                df = [x for x in gen.diff(A, D) if x not in IGNORE]
                if df: return ctx.fail("memory-result:" + op, "the call succeeded, but %s differ from those without a fault; %s" % (df, w))
                if op == "write" and open(p3, "rb").read() != refb: return ctx.fail("memory-result:file", "the call succeeded, but the file differs; %s" % w)
            else:
                if op in ("run", "write"):
                    df = [x for x in gen.diff(B, D) if x in gen.INPUTS]
                    if df: return ctx.fail("memory-inputs:" + op, "the failed call changed %s; %s" % (df, w))
                # a file written now is that of complete results
                if ok is not None and not (r.log[w0][0] == "OK" and ok == open(p1, "rb").read()):
                    return ctx.fail("memory-incomplete:" + op, "after the failed call write_boozmn() wrote a file that the object would not have written before; %s" % w)
            if r.log[again][0] == "EXC": return ctx.fail("memory-again:" + op, "the same call with enough memory raised %s; %s" % (r.log[again][1], w))
            df = [x for x in gen.diff(R, loaded(end)) if x not in IGNORE]
            if df: return ctx.fail("memory-recovery:" + op, "the same call with enough memory gives other %s; %s" % (df, w))
            ctx.seen((op, n, what))
    ctx.sample("memory %s: %d allocations" % (op, total))


def case(ctx, i):
    import booz_xform
    rng = ctx.rng()
    d = ctx.dir()
    if i % 20 == 7: return no_memory(ctx, i, rng, d)
    pool = hist.Pool(rng, d)
    b = booz_xform.Booz_xform()
    b.verbose = 0
    ops = []
    if rng.random() < 0.8: ops.append(("inputs", int(rng.integers(len(pool.eqs)))))
    n = int(rng.integers(4, 31))
    h = []
    for k in range(n):
        op = ops[k] if k < len(ops) else hist.random_op(rng, b, pool)
        r = hist.do(b, op, pool, os.path.join(d, "w.nc"))
        h.append((op[0], op[1] if op[0] not in ("set", "badrun") else [x[0] for x in op[1]], "failed" if r else ""))
        ctx.stat("operations")
        if r is None and op[0] in ("wout", "vmec", "rd"):
            c = check_load(ctx, b, op, pool, h[-6:])
            if op[0] == "rd" and c is not None: compare_files(ctx, b, c, d, h[-6:])
            ctx.seen(tuple(map(str, h)) if len(h) > 2 else None)
        elif r is not None and op[0] in ("wout", "vmec", "rd", "inputs", "set"):
            ctx.fail("unexpected", "%s failed: %s, after %s" % (op[0], r, h[-6:]))
        if rng.random() < 0.25 or k == n - 1 or op[0] == "run":
            if rng.random() < 0.3 and k < n - 1 and op[0] == "run": continue
            check_run(ctx, b, d, h[-8:])
            ctx.seen(tuple(map(str, h)) if len(h) > 2 else None)
    ctx.sample(h)
