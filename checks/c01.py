"""C01: output spectra against the independent model, coefficient by coefficient."""
import numpy as np
import gen, model

BUILDS = ["rel"]
CASES = {"quick": 1800, "thorough": 27000}
RULE = ("random consistent equilibria (symmetric/asymmetric, nfp 1..17, full/sparse/permuted mode tables, boundary mode numbers, "
        "random scales, negative G and iota), resolutions mboz 1..40 and nboz 0..25, random lists of surfaces; a case is non-trivial "
        "if the spectra have more than one coefficient above the tolerance; distinct by (shape parameters, surfaces)")
ASSUMPTIONS = ["|G + iota I| and |B| stay away from zero, as in any equilibrium", "G+iota I and B of either sign of G are generated"]


def compare(ctx, e, snap, surfs, tag="", key="spectrum"):
    """Compare a snapshot of outputs with the model for every surface; returns number of coefficients compared."""
    n = 0
    for k, js in enumerate(surfs):
        ref, tol, f = model.transform(e, int(js))
        for name in ref:
            a = snap[name]
            if a.shape != (len(ref[name]), len(surfs)):
                ctx.fail(key + "-shape", "%s%s has shape %s, expected %s; %s" % (tag, name, a.shape, (len(ref[name]), len(surfs)), gen.describe(e)))
                return n
            d = np.abs(a[:, k] - ref[name])
            bad = ~(d <= tol[name])
            ctx.maxstat("error/tolerance", np.max(np.where(np.isfinite(d), d, 1e300)) / tol[name])
            n += len(d)
            if bad.any():
                j = int(np.argmax(np.where(np.isfinite(d), d, np.inf)))
                ctx.fail(key + ":" + name, "%s%s[%d,%d] (m=%d n=%d surface %d) is %r, expected %r, tolerance %.2g; %d wrong; %s" % (
                    tag, name, j, k, snap["xm_b"][j], snap["xn_b"][j], js, float(a[j, k]), float(ref[name][j]), tol[name], bad.sum(), gen.describe(e)))
                return n
        for name, v in (("Boozer_G", f["G"]), ("Boozer_I", f["I"])):
            if not snap[name][k] == v:
                ctx.fail(key + ":" + name, "%s%s[%d] is %r, expected %r; %s" % (tag, name, k, float(snap[name][k]), v, gen.describe(e)))
                return n
    return n


def case(ctx, i):
    import booz_xform
    rng = ctx.rng()
    kw = {}
    r = i % 40
    if r == 0: kw["big"] = True
    if r == 1: kw.update(mmax=int(rng.integers(8, 20)), nmax=int(rng.integers(4, 14)), ns_in=2)
    if r == 2: kw.update(nmax=0, nmax_nyq=0)
    if r == 3: kw.update(ns_in=int(rng.integers(40, 120)))
    if r == 4: kw.update(nfp=int(rng.integers(18, 60)))
    e = gen.complete(rng, **kw)
    if r == 5: e["nboz"] = 0
    if r == 6: e["mboz"] = 1
    if r == 7: e["s_in"] = np.zeros(0)
    if r == 8: e["mboz"] = int(rng.integers(30, 90)); e["nboz"] = 0
    if r == 9: e["nboz"] = int(rng.integers(20, 50)); e["mboz"] = int(rng.integers(1, 4)); e["compute_surfs"] = e["compute_surfs"][:1]
    with ctx.valid("run", gen.describe(e)):
        b = gen.apply(booz_xform.Booz_xform(), e)
        b.run()
        s = gen.snapshot(b)
    n = compare(ctx, e, s, e["compute_surfs"])
    ctx.stat("coefficients", n)
    ctx.stat("surfaces", len(e["compute_surfs"]))
    ctx.stat("asymmetric", int(e["asym"]))
    d = gen.describe(e)
    ctx.seen(d if n > 10 else None)
    ctx.sample(d)
