"""C08: init_from_vmec against an independent model of the grid conversion."""
import numpy as np
import gen, hist, model

BUILDS = ["rel"]
CASES = {"quick": 12000, "thorough": 200000}
RULE = ("random VMEC data (ns 2..150, mpol 1..14, ntor 0..8, with and without asymmetric arrays and flux profiles, mode tables in VMEC's or another order, non-zero junk in the first half-grid column) "
        "passed to init_from_vmec of a new or a used object; every attribute compared with a numpy model of the documentation; distinct by parameters")
ASSUMPTIONS = ["odd-m amplitudes of R and Z vanish on the axis, as in VMEC"]
EPS = np.finfo(float).eps
HALF = ["lmnc", "lmns", "bmnc", "bmns", "bsubumnc", "bsubumns", "bsubvmnc", "bsubvmns"]
RZ = ["rmnc", "rmns", "zmnc", "zmns"]


def permute(rng, v):
    """Other orders of the modes with first and last kept (as the validation of the code wants)."""
    for names, k in ((["rmnc", "zmns", "lmns", "rmns", "zmnc", "lmnc"], ("xm", "xn")), (["bmnc", "bsubumnc", "bsubvmnc", "bmns", "bsubumns", "bsubvmns"], ("xm_nyq", "xn_nyq"))):
        n = len(v[k[0]])
        if n < 4: continue
        p = np.concatenate([[0], 1 + rng.permutation(n - 2), [n - 1]])
        for x in k: v[x] = v[x][p]
        for x in names:
            if x in v: v[x] = np.asfortranarray(v[x][p, :])


def compare(ctx, v, flux, s, what, key="value"):
    """s: snapshot after init_from_vmec or read_wout."""
    m = model.vmec_to_half(v, flux)
    asym = bool(v["lasym__logical__"])
    ok = True

    def bad(k, msg):
        nonlocal ok
        ok = False
        ctx.fail("%s:%s" % (key, k), "%s %s; %s" % (k, msg, what))
    for k in ("ns_in", "mboz", "nboz"):
        if s[k] != m[k]: bad(k, "is %r, expected %r" % (s[k], m[k]))
    for k in ["iota", "phi", "chi", "pres", "compute_surfs"] + HALF:
        want = np.asarray(m.get(k, np.zeros((0, 0))))
        if k in HALF and not asym and k not in gen.SYM_MATS + gen.SYM_NYQ: continue
        if s[k].shape != want.shape: bad(k, "has shape %s, expected %s" % (s[k].shape, want.shape))
        elif not np.array_equal(s[k], want):
            q = np.argwhere(s[k] != want)[0]
            bad(k, "differs at %s: %r, expected %r" % (q, s[k][tuple(q)], want[tuple(q)]))
        ctx.stat("numbers", s[k].size)
    for k in RZ:
        if not asym and k in ("rmns", "zmnc"): continue
        want = m[k]
        if s[k].shape != want.shape: bad(k, "has shape %s, expected %s" % (s[k].shape, want.shape)); continue
        ns = v["ns"]
        mag = np.abs(v[k][:, :-1]) + np.abs(v[k][:, 1:])
        mag[:, 0] += np.abs(v[k][:, 1]) * 2 + (np.abs(v[k][:, 2]) if ns > 2 else 0)
        tol = 60 * EPS * (mag + np.abs(want))
        d = np.abs(s[k] - want)
        if not np.all(d <= tol):
            q = np.argwhere(~(d <= tol))[0]
            bad(k, "differs for m=%d n=%d surface %d of %d: %r, expected %r" % (v["xm"][q[0]], v["xn"][q[0]], q[1], want.shape[1], s[k][tuple(q)], want[tuple(q)]))
        with np.errstate(all="ignore"): ctx.maxstat("RZ error/tolerance", np.nanmax(np.where(tol > 0, d / np.where(tol > 0, tol, 1), 0)))
        ctx.stat("numbers", want.size)
    if s["s_in"].shape != m["s_in"].shape or np.max(np.abs(s["s_in"] - m["s_in"])) > 8 * EPS: bad("s_in", "is %s, expected %s" % (s["s_in"][:4], m["s_in"][:4]))
    p = m["phip"]
    if s["phip"].shape != p.shape or not np.all(np.abs(s["phip"] - p) <= 4 * EPS * np.abs(p)): bad("phip", "is not -phipf/(2 pi): %s, expected %s" % (s["phip"][:3], p[:3]))
    if s["toroidal_flux"] != m["toroidal_flux"]: bad("toroidal_flux", "is %r, expected %r" % (s["toroidal_flux"], m["toroidal_flux"]))
    return ok


def case(ctx, i):
    import booz_xform
    rng = ctx.rng()
    kw = {}
    if i % 10 == 0: kw["ns"] = int(rng.integers(2, 4))
    if i % 10 == 1: kw["ns"] = int(rng.integers(30, 150)); kw["mpol"] = int(rng.integers(1, 5))
    if i % 10 == 2: kw["mpol"] = int(rng.integers(8, 15))
    if i % 10 == 3: kw["ntor"] = int(rng.integers(4, 9))
    b = booz_xform.Booz_xform()
    b.verbose = 0
    used = rng.random() < 0.4
    if used:
        with ctx.valid("earlier use"):
            if rng.random() < 0.5:
                gen.apply(b, gen.complete(rng, ns_in=3)); b.mboz, b.nboz = 3, 2; b.run()
            else: hist.init_from_vmec(b, gen.vmec(rng), bool(rng.random() < 0.5))
    v = gen.vmec(rng, **kw)
    if rng.random() < 0.3: permute(rng, v)
    if v["mpol"] == 1 and rng.random() < 0.5: v["mpol"] = 0   # mpol is also documented as the largest m, which is 0 here
    flux = bool(rng.random() < 0.5)
    what = "asym=%d ns=%d mpol=%d ntor=%d nfp=%d flux=%s used=%s" % (v["lasym__logical__"], v["ns"], v["mpol"], v["ntor"], v["nfp"], flux, used)
    with ctx.valid("init_from_vmec", what):
        hist.init_from_vmec(b, v, flux, rng)
        s = gen.snapshot(b)
    compare(ctx, v, flux, s, what)
    # Nothing that was given is touched
    for k in hist.VMEC_SCALARS:
        if not (np.array_equal(s[k], v[k])): ctx.fail("given:" + k, "init_from_vmec changed %s; %s" % (k, what))
    ctx.seen((what, int(v["xm"].sum())))
    ctx.sample(what)
