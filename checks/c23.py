"""C23: run() and write_boozmn() leave inputs, results and input files alone."""
import os
import numpy as np
import gen, hist
from common import Inconclusive

BUILDS = ["rel"]
CASES = {"quick": 1600, "thorough": 24000}
RULE = ("random equilibria and histories at every verbosity; all attributes are copied before and after each run(), write_boozmn() and failing call, and the hashes of all input files "
        "before and after each read; non-trivial if at least one run or write was observed; distinct by history")
ASSUMPTIONS = ["phip[0] becomes 0 on writing, as the statement says"]


def observe(ctx, b, f, may_change, what, phip0=False):
    s = gen.snapshot(b)
    r = None
    try: f()
    except RuntimeError as ex: r = str(ex)
    t = gen.snapshot(b)
    w = [k for k in gen.diff(s, t) if k not in may_change]
    if phip0 and "phip" in w:
        p = s["phip"].copy()
        if len(p): p[0] = 0.0
        if gen.same(p, t["phip"]): w.remove("phip")
    if w: ctx.fail("%s:%s" % (what.split(" ")[0], w[0]), "%s changed %s: %s -> %s" % (what, w, str(s[w[0]])[:200], str(t[w[0]])[:200]))
    ctx.stat(what.split(" ")[0])
    ctx.stat("attributes compared", len(s))
    return r


def case(ctx, i):
    import booz_xform
    rng = ctx.rng()
    d = ctx.dir()
    verbose = 0 if i % 5 else int(rng.integers(1, 5))
    if i % 2:
        # one varied equilibrium, long run and write sequence
        e = gen.complete(rng, flux=bool(rng.random() < 0.7))
        if rng.random() < 0.15: e["s_in"] = np.zeros(0)
        b = gen.apply(booz_xform.Booz_xform(), e, verbose)
        src = {k: (v.tobytes() if isinstance(v, np.ndarray) else v) for k, v in e.items()}
        desc = gen.describe(e)
        for k in range(int(rng.integers(1, 4))):
            r = observe(ctx, b, b.run, gen.OUTPUTS, "run() %s" % desc)
            if r: ctx.fail("exception", "run() failed: %s %s" % (r, desc))
            for q in range(int(rng.integers(0, 3))):
                r = observe(ctx, b, lambda: b.write_boozmn(os.path.join(d, "o.nc")), [], "write_boozmn() %s" % desc, True)
                if r: ctx.fail("exception", "write_boozmn() failed: %s %s" % (r, desc))
            if rng.random() < 0.3: observe(ctx, b, lambda: b.write_boozmn(os.path.join(d, "no", "dir.nc")), [], "write_boozmn()-failing %s" % desc, True)
            if rng.random() < 0.5:
                # the disk is full at some point of a file of known size
                f = os.path.join(d, "o.nc")
                if not os.path.exists(f): observe(ctx, b, lambda: b.write_boozmn(f), [], "write_boozmn() %s" % desc, True)
                n = os.path.getsize(f) if os.path.exists(f) else 10000
                for lim in {0, int(rng.integers(n)), int(rng.integers(n)), n - int(rng.integers(1, 9))}:
                    with hist.limit(lim):
                        r = observe(ctx, b, lambda: b.write_boozmn(os.path.join(d, "full.nc")), [], "write_boozmn()-failing late %s" % desc, True)
                    if r: ctx.stat("writes that failed on a full disk")
            if rng.random() < 0.5:
                b.mboz, b.nboz = gen.resolution(rng)
                b.mboz = min(b.mboz, 8)
                b.compute_surfs = gen.surfaces(rng, e["ns_in"])
        for k, v in e.items():
            if (v.tobytes() if isinstance(v, np.ndarray) else v) != src[k]: ctx.fail("source:" + k, "the caller's array %s was modified; %s" % (k, desc))
        ctx.seen(desc)
        ctx.sample(desc)
        return
    pool = hist.Pool(rng, d)
    b = booz_xform.Booz_xform()
    b.verbose = verbose
    h = []
    n = 0
    for k in range(int(rng.integers(4, 20))):
        op = ("inputs", 0) if k == 0 else hist.random_op(rng, b, pool)
        out = os.path.join(d, "w.nc")
        h.append((op[0], op[1] if op[0] not in ("set", "badrun") else [x[0] for x in op[1]]))
        if op[0] in ("run", "badrun"):
            observe(ctx, b, lambda: hist.do(b, op, pool, out), gen.OUTPUTS, "run() after %s" % h[-5:]); n += 1
        elif op[0] in ("write", "badwrite", "latewrite"):
            observe(ctx, b, lambda: hist.do(b, op, pool, out), [], "write_boozmn() after %s" % h[-5:], True); n += 1
        elif op[0] == "vmec":
            v = pool.vmecs[op[1][0]]
            s = {k: v[k].tobytes() for k in v if isinstance(v[k], np.ndarray)}
            hist.do(b, op, pool, out)
            for k2 in s:
                if v[k2].tobytes() != s[k2]: ctx.fail("source:" + k2, "init_from_vmec modified the caller's %s" % k2)
        else:
            hist.do(b, op, pool, out)
    for f, hs in pool.hash.items():
        if hist.digest(f) != hs: ctx.fail("file", "the input file %s was modified by %s" % (os.path.basename(f), h))
        ctx.stat("files compared")
    ctx.seen(tuple(map(str, h)) if n else None)
    ctx.sample(h)
