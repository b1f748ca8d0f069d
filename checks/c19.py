"""C19: verbosity affects only what is printed; verbosity 0 prints nothing."""
import ctypes, os, re, shutil, sys
import numpy as np
import gen, hist, execdrv, c05
from common import Inconclusive, short

BUILDS = ["rel", "omp", "serial"]
CASES = {"quick": 400, "thorough": 6000}
RULE = ("random histories of 5..25 calls (assignments, run, reads and writes of files of every kind, init_from_vmec, and failing calls: missing, damaged and incomplete files, targets that cannot be written, inconsistent sizes, values out of range) "
        "performed in step on five objects that differ only in verbosity (0, 1, 2, 3 and a random one, changed on the way in some histories); after every call all attributes, exceptions and files are compared bit for bit, and what went to file "
        "descriptors 1 and 2 is captured; likewise from C++ in processes of their own; distinct by history")
ASSUMPTIONS = ["printing by the plotting functions, which take no verbosity, is not covered"]

libc = ctypes.CDLL(None)


class Capture:
    """What goes to descriptors 1 and 2, by whatever means."""

    def __init__(self, d):
        self.path = os.path.join(d, "captured")

    def __enter__(self):
        sys.stdout.flush(); sys.stderr.flush(); libc.fflush(None)
        self.f = os.open(self.path, os.O_RDWR | os.O_CREAT | os.O_TRUNC, 0o600)
        self.old = [os.dup(1), os.dup(2)]
        os.dup2(self.f, 1); os.dup2(self.f, 2)
        return self

    def __exit__(self, *a):
        sys.stdout.flush(); sys.stderr.flush(); libc.fflush(None)
        os.dup2(self.old[0], 1); os.dup2(self.old[1], 2)
        for x in self.old: os.close(x)
        os.lseek(self.f, 0, 0)
        self.text = os.read(self.f, 1 << 20)
        os.close(self.f)


def op_random(rng, b, pool):
    r = rng.random()
    if r < 0.8:
        op = hist.random_op(rng, b, pool)
        return ("run", None) if op[0] == "set" and op[1][0][0] == "verbose" else op
    ns = int(b.ns_in)
    if r < 0.9:
        # inputs that do not fit together
        L = [("rmnc", np.ones((1, 1))), ("zmns", np.ones((2, 3))), ("bmnc", np.ones((3, 1))), ("xm", np.arange(2)), ("xn_nyq", np.arange(3) * 5), ("iota", np.ones(ns + 1)), ("s_in", np.zeros(ns + 2)),
             ("mpol", 0), ("ntor_nyq", -1), ("nfp", 0), ("ns_in", ns + 3), ("compute_surfs", np.array([-1])), ("mboz", -2), ("lmns", np.zeros((0, 0))), ("mnmax_nyq", 1000)]
        return ("badrun", [L[int(rng.integers(len(L)))]])
    if r < 0.92: return ("norun", None)
    if r < 0.96: return ("inputs+run", int(rng.integers(len(pool.eqs))))
    return ("readrun", int(rng.integers(len(pool.wouts))))


def perform(b, op, pool, out):
    try:
        if op[0] == "inputs+run":
            gen.apply(b, pool.eqs[op[1]], b.verbose); b.run()
            return None
        if op[0] == "norun":
            # no surfaces
            b.compute_surfs = np.zeros(0, dtype=np.int32)
            b.run()
            b.write_boozmn(out)
            return None
        if op[0] == "readrun":
            b.read_wout(pool.wouts[op[1]], True)
            b.mboz, b.nboz = 4, 3
            b.run()
            return None
        return hist.do(b, op, pool, out)
    except Exception as ex:
        return "%s: %s" % (type(ex).__name__, ex)


def case(ctx, i):
    if i % 6 == 5: return processes(ctx, i)
    import booz_xform
    rng = ctx.rng()
    d = ctx.dir()
    pool = hist.Pool(rng, d)
    V = [0, 1, 2, 3, int(rng.choice([0, 4, 7, 100, 2147483647, -1, -5]))]
    objs = []
    for v in V:
        b = booz_xform.Booz_xform(); b.verbose = v
        objs.append(b)
    h = []
    cap = Capture(d)
    names = [k for k in gen.ALL if k != "verbose"]
    for k in range(int(rng.integers(5, 26))):
        if k == 0 and rng.random() < 0.7: op = ("inputs", int(rng.integers(len(pool.eqs))))
        else: op = op_random(rng, objs[0], pool)
        if k and rng.random() < 0.1:
            # the verbosities trade places
            V = [V[j] for j in rng.permutation(len(V))]
            for b, v in zip(objs, V): b.verbose = v
            h.append("verbosities %s" % V)
        h.append((op[0], str(op[1])[:60]))
        outcome, files, snaps = [], [], []
        for b, v in zip(objs, V):
            out = os.path.join(d, "w.nc")
            if os.path.exists(out): os.unlink(out)
            with cap: r = perform(b, op, pool, out)
            if v == 0 and cap.text: return ctx.fail("printed:" + op[0], "%s with verbosity 0 printed %r%s; history %s" % (op[0], cap.text[:300], " and raised " + r if r else "", h[-6:]))
            if v != 0: ctx.stat("bytes printed with verbosity other than 0", len(cap.text))
            else: ctx.stat("silent calls" + (" that raised" if r else ""))
            outcome.append(r)
            files.append(open(out, "rb").read() if os.path.exists(out) else None)
            snaps.append(gen.snapshot(b, names))
            if b.verbose != v: return ctx.fail("verbose", "verbose is %s instead of %s after %s" % (b.verbose, v, h[-6:]))
        for j in range(1, len(objs)):
            if outcome[j] != outcome[0]: return ctx.fail("error:" + op[0], "%s: %r with verbosity %d, %r with verbosity %d; history %s" % (op[0], outcome[j], V[j], outcome[0], V[0], h[-6:]))
            if files[j] != files[0]: return ctx.fail("file", "the file written differs between verbosity %d and %d; history %s" % (V[j], V[0], h[-6:]))
            w = gen.diff(snaps[0], snaps[j])
            if w: return ctx.fail("differs:" + w[0], "%s differ between verbosity %d and %d after %s; history %s" % (w, V[j], V[0], op[0], h[-6:]))
            ctx.stat("attributes compared", len(names))
        if any(files): ctx.stat("files compared")
        ctx.seen(tuple(map(str, h)))
    ctx.sample(h[:12])
    shutil.rmtree(d, ignore_errors=True)


def processes(ctx, i):
    """The same from C++, with the output of whole processes."""
    rng = ctx.rng()
    d = ctx.dir()
    pool = hist.Pool(rng, d, n=2)
    L = []
    kinds = []
    for k in range(int(rng.integers(2, 6))):
        o = str(rng.choice(["run", "run", "many", "wout", "rd", "vmec", "badwout", "badrd", "badrun", "badwrite"]))
        kinds.append(o)
        L.append((o, gen.complete(rng, ns_in=int(rng.integers(1, 12))), gen.vmec(rng, mpol=int(rng.integers(1, 3)), ntor=int(rng.integers(0, 2)), ns=int(rng.integers(2, 6))), int(rng.integers(2)), int(rng.integers(len(pool.bad)))))
    many = rng.integers(0, 1 << 30, 30)
    res = {}
    vs = [0, 1, 2, 3, int(rng.choice([5, 50]))]
    what = "C++ calls %s" % kinds
    var = str(rng.choice(["omp", "omp", "serial"]))
    for v in vs:
        s = execdrv.Script()
        dumps, files = [], []
        for k, (o, e, w, flux, bad) in enumerate(L):
            s.add("new %d" % k); s.set(k, "verbose", v)
            if o in ("run", "many", "badrun", "badwrite"):
                e = dict(e)
                e["mboz"], e["nboz"] = min(e["mboz"], 6), min(e["nboz"], 4)
                if o == "many": e["compute_surfs"] = (many % e["ns_in"]).astype("int32")
                s.apply(k, e, v)
                if o == "badrun": s.set(k, "compute_surfs", [e["ns_in"]])
                s.add("run %d" % k)
            elif o == "vmec":
                s.vmec(k, w, flux)
                s.set(k, "mboz", 4); s.set(k, "nboz", 2)
                s.add("run %d" % k)
            elif o == "wout": s.add("wout %d %s %d" % (k, pool.wouts[flux], flux)); s.set(k, "mboz", 3); s.set(k, "nboz", 2); s.add("run %d" % k)
            elif o == "rd": s.add("rd %d %s" % (k, pool.boozmns[flux]))
            elif o == "badwout": s.add("wout %d %s %d" % (k, pool.bad[bad], flux))
            elif o == "badrd": s.add("rd %d %s" % (k, pool.bad[bad]))
            f = os.path.join(d, "out%d.v%d.nc" % (k, v))
            s.add("write %d %s" % (k, os.path.join(d, "no", "dir.nc") if o == "badwrite" else f))
            files.append(f)
            dumps.append(s.dump(k, d) + ".v%d" % v)
            s.l[-1] = "dump %d %s" % (k, dumps[-1])
        r = execdrv.run(ctx.info[var], s, d, {"OMP_NUM_THREADS": str(int(rng.integers(1, 6)))})
        if r.hang: raise Inconclusive("watchdog")
        if not r.complete: return ctx.fail("crash", "verbosity %d: the process ended with %s: %s; %s" % (v, r.rc, short(r.err, 500), what))
        if v == 0 and (r.out or r.err): return ctx.fail("printed:process", "with verbosity 0 %r and %r were printed; %s" % (r.out[:300], r.err[:300], what))
        ctx.stat("bytes printed by processes with verbosity other than 0", len(r.out) if v else 0)
        clean = lambda x: re.sub(r"\.v\d+\.nc", ".nc", x)
        res[v] = ([(k, a, clean(b)) for k, (a, b) in sorted(r.log.items())], [re.sub(rb"(?m)^verbose i -?\d+$", b"", open(f, "rb").read()) for f in dumps], [open(f, "rb").read() if os.path.exists(f) else None for f in files])
        if v:
            for n, name in enumerate(("outcomes", "attributes", "files")):
                if res[v][n] != res[0][n]:
                    k = [a == b for a, b in zip(res[v][n], res[0][n])].index(False)
                    return ctx.fail("process:" + name, "%s differ between verbosity %d and 0 at number %d: %s; %s" % (name, v, k, (res[v][n][k], res[0][n][k]) if n == 0 else "", what))
            ctx.stat("processes compared")
    ctx.seen((what, i))
    shutil.rmtree(d, ignore_errors=True)
