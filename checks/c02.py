"""C02: equilibria with a known Boozer transformation; the output series are evaluated pointwise."""
import numpy as np
import gen, model

BUILDS = ["rel"]
CASES = {"quick": 600, "thorough": 9000}
RULE = ("manufactured equilibria: lambda and nu are chosen as Fourier series, the covariant components are derived from them so that the exact Boozer "
        "angles are known; |B|, R, Z are chosen as series in the original or in the Boozer angles; output series evaluated at random points; a case is "
        "non-trivial if the amplitude of nu or lambda exceeds 1e-3; distinct by parameters")
ASSUMPTIONS = ["the exact transformation is smooth enough to be resolved by the chosen mboz, nboz (amplitudes of the angle differences below about 0.15)"]


def manufacture(rng, amp):
    asym = bool(rng.random() < 0.5)
    nfp = int(rng.choice([1, 2, 3, 5, 7]))
    # lambda: modes up to (ml, nl); nu: up to (mw, nw)
    ml, nl = int(rng.integers(0, 3)), int(rng.integers(0, 3))
    mw, nw = int(rng.integers(max(1, ml), 4)), int(rng.integers(nl, 3))
    if nw == 0 and mw == 0: mw = 1
    twist = rng.random() < 0.06   # a large nu of (m, n) = (1, 0) in a field with n != 0
    if twist: nfp, ml, nl, mw, nw = 1, 1, int(rng.integers(0, 2)), int(rng.integers(1, 3)), 1
    ns_in = int(rng.integers(1, 4))
    xm, xn = gen.full_table(max(ml, 1), nl, nfp)
    xmq, xnq = gen.full_table(mw, nw, nfp)
    if rng.random() < 0.3:
        # the m = 0 modes may be listed with n < 0 instead of n > 0
        for a, c in ((xm, xn), (xmq, xnq)): c[(a == 0)] *= -1
    e = dict(asym=asym, nfp=nfp, mpol=int(xm.max()) + 1, ntor=nl, mnmax=len(xm), mpol_nyq=mw, ntor_nyq=nw, mnmax_nyq=len(xmq), xm=xm, xn=xn,
             xm_nyq=xmq, xn_nyq=xnq, ns_in=ns_in, s_in=(np.arange(ns_in) + 0.5) / ns_in)
    iota = rng.uniform(-1.5, 1.5, ns_in)
    if rng.random() < 0.15: iota[rng.random(ns_in) < 0.7] = 0   # no rotational transform at all
    steep = nl == 0 and nw == 0 and rng.random() < 0.5
    if steep or twist: iota = iota * 0.004   # then nu can be large (more than pi) in an axisymmetric field
    elif rng.spawn(1)[0].random() < 0.08: iota = iota * rng.spawn(1)[0].uniform(2.5, 8)
    B0 = rng.uniform(0.5, 5)
    scale = [10.0 ** rng.uniform(-6, 6) if rng.random() < 0.25 else 1.0 for _ in range(3)]   # units of B, G, lengths
    B0 *= scale[0]
    G = rng.choice([-1, 1]) * rng.uniform(1, 8) * scale[1]
    G = G * rng.uniform(0.8, 1.2, ns_in)
    I = rng.uniform(-0.3, 0.3, ns_in) * np.abs(G) / max(1, np.abs(iota).max() / 1.5)
    e["iota"] = iota
    t2 = ["s", "c"] if asym else ["s"]
    am = lambda x, n, tot: gen.amplitudes(rng, x, n, nfp, ns_in, tot)
    kk = 1 + max(mw, 1)
    lam = {t: am(xm, xn, amp * rng.uniform(0.1, 1) / kk) for t in t2}
    nu = {t: am(xmq, xnq, amp * rng.uniform(0.1, 1) / kk / (max(np.abs(iota).max(), 0.002) if steep else 1 + np.abs(iota).max())) for t in t2}
    if twist:
        for t in t2:
            keep = (xmq == 1) & (xnq == 0)
            nu[t][~keep] = 0
            nu[t][keep] = rng.uniform(-4, 4, ns_in) / len(t2)
            lam[t][xn != 0] = 0
    # the map must be well conditioned: its Jacobian must not come near 0
    gt, gz = [x.ravel() for x in np.meshgrid(np.linspace(0, 2 * np.pi, 36, endpoint=False), np.linspace(0, 2 * np.pi / nfp, 36, endpoint=False))]
    for js in range(ns_in):
        while True:
            D = {}
            for nm, S, mm, nn in (("l", lam, xm, xn), ("n", nu, xmq, xnq)):
                a = np.outer(gt, mm) - np.outer(gz, nn)
                D[nm + "t"] = np.cos(a) @ (mm * S["s"][:, js]) - (np.sin(a) @ (mm * S["c"][:, js]) if asym else 0)
                D[nm + "z"] = -np.cos(a) @ (nn * S["s"][:, js]) + (np.sin(a) @ (nn * S["c"][:, js]) if asym else 0)
            jac = (1 + D["lt"] + iota[js] * D["nt"]) * (1 + D["nz"]) - D["nt"] * (D["lz"] + iota[js] * D["nz"])
            if jac.min() > 0.45 and jac.max() < 2.2: break
            for S in lam, nu:
                for t in t2: S[t][:, js] *= 0.8
    # In the m = n = 0 term of nu there is no freedom, other than through lambda
    z = 0
    e["lmns"] = lam["s"]
    if asym: e["lmnc"] = lam["c"]
    # w = (G + iota I) nu + I lambda; dw/dtheta = bsubu - I, dw/dzeta = bsubv - G
    den = G + iota * I
    pos = {(int(m), int(n)): k for k, (m, n) in enumerate(zip(xmq, xnq))}
    w = {}
    for t in t2:
        w[t] = den * nu[t]
        for k, (m, n) in enumerate(zip(xm, xn)):
            if (int(m), int(n)) in pos: w[t][pos[(int(m), int(n))]] += I * lam[t][k]
            elif (int(m), int(-n)) in pos and m == 0: w[t][pos[(0, int(-n))]] += (-1 if t == "s" else 1) * I * lam[t][k]
            else: raise AssertionError
    if asym:
        w["c"][0] = 0  # constant: not recoverable from derivatives
    m, n = xmq[:, None].astype(float), xnq[:, None].astype(float)
    e["bsubumnc"] = m * w["s"]
    e["bsubvmnc"] = -n * w["s"]
    e["bsubumnc"][0], e["bsubvmnc"][0] = I, G
    if asym:
        e["bsubumns"] = -m * w["c"]
        e["bsubvmns"] = n * w["c"]
    nu_true = {}
    # nu = (w - I lambda) / den
    for t in t2:
        nu_true[t] = w[t] / den  # part on the nyquist table
    e["bmnc"] = am(xmq, xnq, 0.2 * B0); e["bmnc"][0] = B0
    e["rmnc"] = am(xm, xn, 0.5); e["rmnc"][0] = 3.0
    e["zmns"] = am(xm, xn, 0.6)
    if asym:
        e["bmns"] = am(xmq, xnq, 0.1 * B0); e["rmns"] = am(xm, xn, 0.2); e["zmnc"] = am(xm, xn, 0.3)
    for k in ("rmnc", "zmns", "rmns", "zmnc"):
        if k in e: e[k] = e[k] * scale[2]
    for k in gen.MATS:
        if k not in e: e[k] = np.zeros((0, 0))
        e[k] = np.asfortranarray(e[k])
    e["aspect"], e["toroidal_flux"] = 5.0, 1.0
    for k in ("phi", "phip", "chi", "pres"): e[k] = np.zeros(0)
    return e, nu_true, w, twist


def evaluate(e, s, k, tb, zb):
    xm, xn = s["xm_b"].astype(float), s["xn_b"].astype(float)
    out = {}
    for q, c, sn in (("B", "bmnc_b", "bmns_b"), ("R", "rmnc_b", "rmns_b"), ("J", "gmnc_b", "gmns_b")):
        out[q] = model.series(xm, xn, s[c][:, k], s[sn][:, k] if e["asym"] else None, tb, zb)
    for q, c, sn in (("Z", "zmnc_b", "zmns_b"), ("nu", "numnc_b", "numns_b")):
        out[q] = model.series(xm, xn, s[c][:, k] if e["asym"] else None, s[sn][:, k], tb, zb)
    return out


def case(ctx, i):
    import booz_xform
    rng = ctx.rng()
    amp = 0.12 if i % 4 else 0.3
    e, nu_true, w, twist = manufacture(rng, amp)
    axi = e["ntor"] == 0 and e["ntor_nyq"] == 0
    th = rng.uniform(-7, 7, 40); ze = rng.uniform(-7, 7, 40)
    errs = {}
    levels = [(6, 4), (12, 9), (24, 20 if not axi else 3)]
    if axi and rng.random() < 0.5: levels = [(6, 0), (12, 0), (26, 0)]
    surfs = np.arange(e["ns_in"])[::-1].astype(np.int32)
    e["compute_surfs"] = surfs
    for lev, (mb, nb) in enumerate(levels):
        e["mboz"], e["nboz"] = mb, nb
        with ctx.valid("run", gen.describe(e)):
            b = gen.apply(booz_xform.Booz_xform(), e); b.run(); s = gen.snapshot(b)
        for k, js in enumerate(surfs):
            js = int(js)
            # the exact transformation, from the chosen series
            lam = model.series(e["xm"], e["xn"], e["lmnc"][:, js] if e["asym"] else None, e["lmns"][:, js], th, ze)
            ww = model.series(e["xm_nyq"], e["xn_nyq"], w["c"][:, js] if e["asym"] else None, w["s"][:, js], th, ze)
            I, G, iota = e["bsubumnc"][0, js], e["bsubvmnc"][0, js], e["iota"][js]
            nu = (ww - I * lam) / (G + iota * I)
            tb, zb = th + lam + iota * nu, ze + nu
            f = evaluate(e, s, k, tb, zb)
            want = dict(B=model.series(e["xm_nyq"], e["xn_nyq"], e["bmnc"][:, js], e["bmns"][:, js] if e["asym"] else None, th, ze),
                        R=model.series(e["xm"], e["xn"], e["rmnc"][:, js], e["rmns"][:, js] if e["asym"] else None, th, ze),
                        Z=model.series(e["xm"], e["xn"], e["zmnc"][:, js] if e["asym"] else None, e["zmns"][:, js], th, ze), nu=nu)
            want["J"] = (G + iota * I) / want["B"] ** 2
            for q in want:
                errs.setdefault(q, [0, 0, 0])
                scale = np.abs(want[q]).max() if q != "nu" else max(1.0, np.abs(nu).max())
                errs[q][lev] = max(errs[q][lev], float(np.abs(f[q] - want[q]).max() / scale))
            ctx.maxstat("largest |nu|", float(np.abs(nu).max()))
            if s["Boozer_G"][k] != G or s["Boozer_I"][k] != I: ctx.fail("GI", "G, I of surface %d are %r, %r, expected %r, %r" % (js, s["Boozer_G"][k], s["Boozer_I"][k], G, I))
    for q, r in errs.items():
        # resolved to the expected accuracy at the finest level, and converging on the way
        lim = 1e-8 if amp < 0.2 and not twist else 1e-5
        if q == "J": lim *= 300
        # (errors that are not small yet must at least be falling rapidly: they fall exponentially)
        if not (r[2] < lim):
            ctx.stat("still falling")
            ctx.maxstat("last ratio of errors still falling " + q, r[2] / r[1])
        if not (r[2] < lim or r[2] < 0.15 * r[1] and r[2] < (1e-4 if amp < 0.2 and not twist else 2e-3) * (300 if q == "J" else 1)):
            ctx.fail("reconstruct:" + q, "series for %s does not reproduce the input: relative errors %s at resolutions %s; %s" % (q, r, levels, gen.describe(e)))
        elif not (r[2] <= max(0.5 * r[0], 1e-11)):
            ctx.fail("converge:" + q, "no convergence of %s: %s at %s; %s" % (q, r, levels, gen.describe(e)))
        ctx.maxstat("final error " + q + (" (large nu)" if twist else " (amp .12)" if amp < 0.2 else " (amp .3)"), r[2])
    ctx.stat("points", len(th) * e["ns_in"] * 3)
    ctx.seen(gen.describe(e) if np.abs(e["lmns"]).max() > 1e-3 or np.abs(w["s"]).max() > 1e-3 else None)
    ctx.sample(dict(gen.describe(e), errors={q: r for q, r in errs.items()}))
