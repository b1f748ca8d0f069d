"""C06: objects do not influence each other: interleaved histories, copies, concurrent transformations."""
import os
import numpy as np
import gen, hist, execdrv
from common import Inconclusive
from c05 import tsan_run, judge_tsan, ok, load

BUILDS = ["rel", "omp", "tsan?"]
CASES = {"quick": 500, "thorough": 7500}
RULE = ("(a) 2..4 Python objects with randomly interleaved histories (assign, load, run, write, delete, failing calls): after each operation all attributes of all other objects must be "
        "unchanged, and at the end every object must equal one that performed its operations alone; (b) the same for C++ objects including copies and copy assignment; (c) transformations "
        "of 2..4 objects in concurrent threads under ThreadSanitizer, compared with solo runs; distinct by the interleaving")
ASSUMPTIONS = ["netCDF is not thread safe, so files are not accessed concurrently"]


def python_history(ctx, rng, d):
    import booz_xform
    pool = hist.Pool(rng, d)
    n = int(rng.integers(2, 5))
    objs, ops = {}, {}
    h = []
    for k in range(n):
        objs[k] = booz_xform.Booz_xform(); objs[k].verbose = 0; ops[k] = []
    snaps = {k: gen.snapshot(objs[k]) for k in objs}
    for step in range(int(rng.integers(6, 36))):
        live = sorted(objs)
        k = int(rng.choice(live))
        if rng.random() < 0.04 and len(live) > 2:
            del objs[k]; del snaps[k]; h.append((k, "delete"))
        else:
            op = hist.random_op(rng, objs[k], pool) if ops[k] else ("inputs", int(rng.integers(len(pool.eqs))))
            r = hist.do(objs[k], op, pool, os.path.join(d, "w%d.nc" % k))
            ops[k].append((op, r))
            h.append((k, op[0]))
            snaps[k] = gen.snapshot(objs[k])
        for j in objs:
            w = gen.diff(snaps[j], gen.snapshot(objs[j])) if j != k else []
            ctx.stat("objects compared")
            if w: return ctx.fail("influence:" + w[0], "operation %s on object %d changed %s of object %d; history %s" % (h[-1], k, w, j, h))
    for k in objs:
        b = booz_xform.Booz_xform(); b.verbose = 0
        for op, r in ops[k]:
            q = hist.do(b, op, pool, os.path.join(d, "solo%d.nc" % k))
            if q != r and not (q and r and op[0] in ("badfile", "badwrite", "write", "latewrite")):
                return ctx.fail("solo-outcome", "%s of object %d gave %r, alone %r; history %s" % (op[0], k, r, q, h))
        w = gen.diff(snaps[k], gen.snapshot(b))
        if w: return ctx.fail("solo:" + w[0], "%s of object %d differ from those of the same operations performed alone; history %s" % (w, k, h))
        f, g = os.path.join(d, "w%d.nc" % k), os.path.join(d, "solo%d.nc" % k)
        if os.path.exists(f) != os.path.exists(g) or (os.path.exists(f) and load(f) != load(g)): return ctx.fail("solo:file", "file of object %d differs from the one written alone; history %s" % (k, h))
        ctx.stat("solo replays")
    ctx.seen(tuple(h))
    ctx.sample(h)


def small(rng, asym=None):
    e = gen.complete(rng, asym=asym, ns_in=int(rng.integers(1, 6)))
    e["mboz"], e["nboz"] = min(e["mboz"], 6), min(e["nboz"], 4)
    return e


def native_history(ctx, rng, d):
    """C++ objects with copies. A script is a list of (objects written, line); solo scripts follow one object's ancestry."""
    eqs = [small(rng, bool(k % 2)) for k in range(3)]
    vm = gen.vmec(rng, mpol=2, ntor=1, ns=4)
    s = execdrv.Script()
    anc = {}       # object -> list of lines that make it what it is
    h = []
    checks = []

    def emit(k, f):
        a = len(s.l)
        f()
        anc[k] = anc[k] + s.l[a:]
    state = {}
    for k in range(2):
        anc[k] = []
        emit(k, lambda: s.add("new %d" % k))
        emit(k, lambda: s.apply(k, eqs[k]))
        state[k] = "set"
        h.append((k, "inputs"))
    nobj = 2
    for step in range(int(rng.integers(5, 22))):
        k = int(rng.choice(sorted(anc)))
        r = rng.random()
        if r < 0.2:
            j = nobj; nobj += 1
            anc[j] = [l for l in anc[k]]
            s.add("copy %d %d" % (j, k)); anc[j].append(("copy", k)); state[j] = state[k]
            h.append((j, "copy of %d" % k))
        elif r < 0.3 and len(anc) > 1:
            j = int(rng.choice([x for x in sorted(anc) if x != k]))
            s.add("assign %d %d" % (j, k)); anc[j] = [l for l in anc[k]] + [("copy", k)]; state[j] = state[k]
            h.append((j, "= %d" % k))
        elif r < 0.36 and len(anc) > 1:
            s.add("del %d" % k); del anc[k]; del state[k]; h.append((k, "delete"))
        elif r < 0.6:
            emit(k, lambda: s.add("run %d" % k)); state[k] = "run"; h.append((k, "run"))
        elif r < 0.75:
            e = eqs[int(rng.integers(3))]; emit(k, lambda: s.apply(k, e)); state[k] = "set"; h.append((k, "inputs"))
        elif r < 0.85:
            emit(k, lambda: (s.set(k, "mboz", int(rng.integers(1, 7))), s.set(k, "nboz", int(rng.integers(0, 4))))); h.append((k, "resolution"))
        elif r < 0.92:
            emit(k, lambda: s.vmec(k, vm, bool(rng.random() < 0.5))); state[k] = "set"; h.append((k, "vmec"))
        elif state[k] == "run":
            f = os.path.join(d, "w.nc")
            emit(k, lambda: s.add("write %d %s" % (k, f))); h.append((k, "write"))
    final = {k: s.dump(k, d) for k in sorted(anc)}
    r = execdrv.run(ctx.info["omp"], s, d)
    if not okx(ctx, r, h): return
    for k in sorted(anc):
        q = execdrv.Script()
        # the object alone: all lines of its ancestry, on object 0
        for l in anc[k]:
            if isinstance(l, tuple): continue
            t = l.split(" ")
            if t[0] in ("new", "set", "run", "write", "vmec"): t[1] = "0"
            q.add(" ".join(t))
        q.ndump = 100 + k
        f = q.dump(0, d)
        r = execdrv.run(ctx.info["omp"], q, d)
        if not okx(ctx, r, h): return
        if load(f) != load(final[k]):
            a, b = load(f).split(b"\n"), load(final[k]).split(b"\n")
            names = [x.split(b" ")[0].decode() for x, y in zip(a, b) if x != y]
            return ctx.fail("copy:" + names[0], "%s of object %d differ from those of its operations alone; history %s" % (names, k, h))
        ctx.stat("solo replays")
    ctx.seen(tuple(h))


def okx(ctx, r, h):
    if r.hang: raise Inconclusive("watchdog")
    if not r.complete:
        ctx.fail("crash", "process ended with %s: %s; history %s" % (r.rc, r.err[-800:], h))
        return False
    return True


def concurrent(ctx, rng, d):
    n = int(rng.integers(2, 5))
    eqs = [small(rng) for k in range(n)]
    vms = [gen.vmec(rng, mpol=int(rng.integers(1, 4)), ntor=int(rng.integers(0, 3)), ns=int(rng.integers(2, 6))) for k in range(n)]
    bodies, desc = [], []
    for k in range(n):
        s = execdrv.Script()
        kinds = []
        if rng.random() < 0.6 or k == 0: s.apply(k, eqs[k]); s.add("run %d" % k); kinds.append("run")
        else: s.set(k, "mboz", 0); s.add("run %d" % k); s.apply(k, eqs[k]); s.add("run %d" % k); kinds.append("fail, run")
        for q in range(int(rng.integers(0, 3))):
            s.set(k, "mboz", int(rng.integers(1, 6))); s.set(k, "nboz", int(rng.integers(0, 4))); s.add("run %d" % k); kinds.append("run")
        bodies.append(s.l); desc.append(kinds)
    # init_from_vmec reads shared source arrays concurrently
    use_vmec = rng.random() < 0.4
    pre = execdrv.Script()
    vm = vms[0]
    if use_vmec:
        t = execdrv.Script(); t.vmec(0, vm, True)
        smats = [l for l in t.l if l.startswith("smat")]
        pre.l += smats
        for k in range(n):
            t = execdrv.Script(); t.vmec(k, vm, True)
            bodies[k] += [l for l in t.l if not l.startswith("smat")]
            q = execdrv.Script(); q.set(k, "mboz", 4); q.set(k, "nboz", 2); q.add("run %d" % k)
            bodies[k] += q.l
    s = execdrv.Script()
    s.l += pre.l
    for k in range(n): s.add("new %d" % k); s.set(k, "verbose", 0)
    par = []
    for k in range(n):
        if k: par.append("---")
        par += [l for l in bodies[k]]
    s.l += ["par"] + par + ["endpar"]
    dumps = [s.dump(k, d) for k in range(n)]
    tr = os.path.join(d, "trace")
    env = {"SHIM_SEED": str(1 + int(rng.integers(1 << 20))), "SHIM_THREADS": str(int(rng.integers(1, 5))), "SHIM_TRACE": tr}
    exe = ctx.info.get("tsan") or ctx.info["omp"]
    r = tsan_run(exe, s, d, env)
    if not okx(ctx, r, desc): return
    if not judge_tsan(ctx, r, "concurrent %s" % desc): return
    ctx.stat("concurrent runs under TSan", 1 if ctx.info.get("tsan") else 0)
    for k in range(n):
        q = execdrv.Script()
        q.l += pre.l
        q.add("new %d" % k); q.set(k, "verbose", 0)
        q.l += bodies[k]
        q.ndump = 100 + k
        f = q.dump(k, d)
        r = execdrv.run(exe, q, d, dict(env, TSAN_OPTIONS="report_bugs=0"))
        if not okx(ctx, r, desc): return
        if load(f) != load(dumps[k]):
            a, b = load(f).split(b"\n"), load(dumps[k]).split(b"\n")
            names = [x.split(b" ")[0].decode() for x, y in zip(a, b) if x != y]
            return ctx.fail("concurrent:" + names[0], "%s of object %d differ between concurrent and solo runs; %s" % (names, k, desc))
        ctx.stat("solo replays")
    ctx.seen((tuple(map(str, desc)), open(tr).read() if os.path.exists(tr) else ""))


def case(ctx, i):
    rng = ctx.rng()
    d = ctx.dir()
    [python_history, native_history, concurrent, python_history][i % 4](ctx, rng, d)
