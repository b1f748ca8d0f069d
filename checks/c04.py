"""C04: columns belong to their surfaces and do not depend on the other surfaces."""
import numpy as np
import gen, model
from c01 import compare

BUILDS = ["rel"]
CASES = {"quick": 1600, "thorough": 24000}
RULE = ("random equilibria and lists of surfaces (subsets, permutations, repetitions, longer than ns_in); every column is compared with a run of that surface alone, with the same run after the data of "
        "all other surfaces was replaced by other values (bit for bit), with duplicates in the list, with a permuted list, and with the reference model; distinct by equilibrium and list")
ASSUMPTIONS = ["columns at different positions may differ by rounding (tolerance of the reference model)"]
NAMES = gen.OUT_MATS + gen.OUT_ASYM


def close(ctx, a, ka, b, kb, tol, key, what, exact=False):
    for n in NAMES:
        if a[n].size == 0 and b[n].size == 0: continue
        x, y = a[n][:, ka], b[n][:, kb]
        good = x.tobytes() == y.tobytes() if exact else x.shape == y.shape and bool(np.all(np.abs(x - y) <= 0.05 * tol[n]))
        if not good:
            ctx.fail("%s:%s" % (key, n), "column %d of %s differs: %s by up to %g" % (ka, n, what, np.max(np.abs(x - y)) if x.shape == y.shape else np.nan))
            return False
    for n in ("s_b", "Boozer_G", "Boozer_I"):
        if not gen.same(np.float64(a[n][ka]), np.float64(b[n][kb])):
            ctx.fail("%s:%s" % (key, n), "entry %d of %s differs: %s: %r, %r" % (ka, n, what, a[n][ka], b[n][kb]))
            return False
    ctx.stat("columns compared")
    return True


def run(ctx, e, surfs):
    import booz_xform
    e = dict(e, compute_surfs=np.asarray(surfs, dtype=np.int32))
    with ctx.valid("run", gen.describe(e)):
        b = gen.apply(booz_xform.Booz_xform(), e)
        b.run()
        return gen.snapshot(b)


def poison(rng, e, keep):
    """Other values for all surfaces but one."""
    f = dict(e)
    o = [k for k in range(e["ns_in"]) if k != keep]
    kind = int(rng.integers(3))
    for k in gen.MATS + ["iota"]:
        if e[k].size == 0: continue
        a = np.array(e[k], copy=True, order="F")
        if kind == 0: a[..., o] = a[..., o] * rng.uniform(0.3, 2.5)
        elif kind == 1: a[..., o] = a[..., [keep] * len(o)] * 1.25
        else: a[..., o] = np.nan   # whatever data: not even a number
        f[k] = a
    s = e["s_in"].copy()
    if len(s): s[o] += 0.01
    f["s_in"] = s
    return f


def case(ctx, i):
    rng = ctx.rng()
    e = gen.complete(rng, ns_in=int(rng.choice([1, 2, 3, 4, 6, 9, 16, 30])))
    e["mboz"], e["nboz"] = min(e["mboz"], 8), min(e["nboz"], 6)
    ns = e["ns_in"]
    if len(e["s_in"]) > 1 and rng.random() < 0.2: e["s_in"] = rng.permutation(e["s_in"])   # any labels, in any order
    style = i % 4
    if i % 40 == 17:
        # a very long list
        e["mboz"], e["nboz"] = min(e["mboz"], 3), min(e["nboz"], 1)
        L = rng.integers(0, ns, int(rng.integers(100, 700)))
    elif style == 0: L = gen.surfaces(rng, ns)
    elif style == 1: L = rng.integers(0, ns, int(rng.integers(1, 25)))          # repetitions, possibly longer than ns_in
    elif style == 2: L = rng.permutation(ns)
    else: L = np.concatenate([rng.permutation(ns)[:3], [ns - 1, 0, ns - 1]])
    L = [int(x) for x in L]
    d = dict(gen.describe(e), compute_surfs=L)
    s = run(ctx, e, L)
    # labels and reference
    e2 = dict(e, compute_surfs=np.array(L))
    ref = {js: model.transform(e, js)[1:] for js in sorted(set(L))[:6]}
    ctx.stat("coefficients", compare(ctx, e2, dict(s), L) if len(L) <= 6 else 0)
    for k, js in enumerate(L):
        if len(e["s_in"]) and s["s_b"][k] != e["s_in"][js]: return ctx.fail("s_b", "s_b[%d] is %r, expected s_in[%d] = %r; %s" % (k, s["s_b"][k], js, e["s_in"][js], d))
        if s["Boozer_G"][k] != e["bsubvmnc"][0, js] or s["Boozer_I"][k] != e["bsubumnc"][0, js]: return ctx.fail("GI", "G or I of column %d is not that of surface %d; %s" % (k, js, d))
    if not (gen.same(s["Boozer_G_all"], np.ascontiguousarray(e["bsubvmnc"][0])) and gen.same(s["Boozer_I_all"], np.ascontiguousarray(e["bsubumnc"][0]))):
        ctx.fail("all", "G_all or I_all is not the profile on all input surfaces; %s" % d)
    # duplicates are identical
    first = {}
    for k, js in enumerate(L):
        if js in first and js in ref: close(ctx, s, k, s, first[js], ref[js][0], "duplicate", "second occurrence of surface %d; %s" % (js, d))
        first.setdefault(js, k)
    # each surface alone
    for k in rng.permutation(len(L))[:3]:
        js = L[k]
        tol = ref[js][0] if js in ref else model.transform(e, js)[1]
        t = run(ctx, e, [js])
        close(ctx, s, k, t, 0, tol, "alone", "surface %d alone; %s" % (js, d))
    # the other surfaces hold other data, same list and same positions
    k = int(rng.integers(len(L)))
    keep = [q for q, x in enumerate(L) if x == L[k]]
    if ns > 1:
        t = run(ctx, poison(rng, e, L[k]), L)
        for q in keep: close(ctx, s, q, t, q, None, "isolation", "after the data of the other surfaces than %d was changed; %s" % (L[k], d), exact=True)
    # permuted list
    p = rng.permutation(len(L))
    t = run(ctx, e, [L[x] for x in p])
    for q, x in enumerate(p):
        tol = ref[L[x]][0] if L[x] in ref else model.transform(e, L[x])[1]
        if not close(ctx, t, q, s, int(x), tol, "permuted", "list permuted to %s; %s" % ([L[y] for y in p], d)): break
        if q > 5: break
    # no surfaces at all
    if i % 6 == 0:
        t = run(ctx, e, [])
        if not gen.same(t["Boozer_G_all"], s["Boozer_G_all"]) or not gen.same(t["Boozer_I_all"], s["Boozer_I_all"]): ctx.fail("all", "profiles differ when no surfaces are requested; %s" % d)
    ctx.seen(d if len(L) > 1 else None)
    ctx.sample(d)
