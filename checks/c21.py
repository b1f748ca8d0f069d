"""C21: exact symmetries of the transformation, as pairs (or triples) of runs."""
import numpy as np
import gen, model

BUILDS = ["rel"]
CASES = {"quick": 2200, "thorough": 33000}
RULE = ("random equilibria of both symmetries, transformed together with a partner related by: scaling of B, of the covariant components or of R and Z; linear combination of R and Z; change of R or Z alone; permutation of modes; splitting of modes; "
        "zero padding; change of sign of n for m = 0; toroidal reversal; reversal of both angles; shift of the origin by grid steps (asymmetric) or half periods (symmetric); nfp periods as one or fewer; all outputs compared with those predicted from "
        "the partner; distinct by relation and parameters")
ASSUMPTIONS = ["tolerances are those of the rounding analysis of C01", "periods are merged in odd ratios, for which a resolution with the same grid exists"]

Q = {"B": ("bmnc_b", "bmns_b"), "R": ("rmnc_b", "rmns_b"), "Z": ("zmnc_b", "zmns_b"), "nu": ("numnc_b", "numns_b"), "J": ("gmnc_b", "gmns_b")}
NYQ = gen.SYM_NYQ + gen.ASY_NYQ
LAB = gen.SYM_MATS + gen.ASY_MATS


def go(ctx, e, what):
    import booz_xform
    with ctx.valid("run", "%s %s" % (what, gen.describe(e))):
        b = gen.apply(booz_xform.Booz_xform(), e)
        b.run()
        return gen.snapshot(b)


def complexes(s):
    """Every output as an array c - i s, so that f = Re sum a exp(i (m theta - n zeta)). None where there is no such array."""
    out = {}
    shape = s["bmnc_b"].shape
    for q, (c, sn) in Q.items():
        out[q] = (s[c] if s[c].size else np.zeros(shape)) - 1j * (s[sn] if s[sn].size else np.zeros(shape))
    return out


def tolerance(e, s):
    T = {q: np.zeros(s["bmnc_b"].shape[1]) for q in Q}
    for k, js in enumerate(s["compute_surfs"]):
        t = model.transform(e, int(js))[1]
        for q, (c, sn) in Q.items(): T[q][k] = max(t.get(c, 0), t.get(sn, 0))
    return T


def compare(ctx, rel, got, want, tol, what, skip_imag00=True):
    for q in Q:
        a, b = got[q], want[q]
        if a.shape != b.shape: ctx.fail(rel + ":" + q, "%s: shape %s, expected %s; %s" % (rel, a.shape, b.shape, what)); return False
        for part, x in (("cosine", (a - b).real), ("sine", (a - b).imag)):
            for k in range(a.shape[1]):
                d = np.abs(x[:, k])
                if len(d): ctx.maxstat("difference/tolerance", np.nan_to_num(d, nan=1e300).max() / tol[q][k] if tol[q][k] else 0)
                if not (d <= tol[q][k]).all():
                    j = int(np.argmax(np.where(np.isnan(d), np.inf, d)))
                    ctx.fail("%s:%s" % (rel, q), "%s: the %s amplitude %d of %s on surface number %d is %s, expected %s, tolerance %.2g; %s" % (rel, part, j, q, k, a[j, k], b[j, k], tol[q][k], what)); return False
        ctx.stat("coefficients compared", a.size * 2)
    return True


def radial(ctx, rel, s, want, what, rtol=1e-14):
    for k, w in want.items():
        if s[k].shape != np.shape(w) or not np.allclose(s[k], w, rtol=rtol, atol=0): ctx.fail("%s:%s" % (rel, k), "%s: %s is %s, expected %s; %s" % (rel, k, s[k], w, what)); return False
    return True


def bitwise(ctx, rel, s, t, names, what):
    w = gen.diff(s, t, names)
    if w: ctx.fail("%s:%s" % (rel, w[0]), "%s changes %s; %s" % (rel, w, what)); return False
    return True


def phase(e, keys, xm, xn, a, b):
    """Amplitudes of f(theta + a, zeta + b)."""
    out = {}
    for c, s in keys:
        if not e[c].size and not e[s].size: continue
        shape = (e[c] if e[c].size else e[s]).shape
        z = (e[c] if e[c].size else np.zeros(shape)) - 1j * (e[s] if e[s].size else np.zeros(shape))
        z = z * np.exp(1j * (xm.astype(float) * a - xn.astype(float) * b))[:, None]
        if e[c].size: out[c] = np.asfortranarray(z.real)
        if e[s].size: out[s] = np.asfortranarray(-z.imag)
    return out


PAIRS = [("rmnc", "rmns"), ("zmnc", "zmns"), ("lmnc", "lmns")]
PAIRSN = [("bmnc", "bmns"), ("bsubumnc", "bsubumns"), ("bsubvmnc", "bsubvmns")]
RELATIONS = ["scale B", "scale covariant", "scale R and Z", "combine R and Z", "R alone", "Z alone", "permute", "split", "pad", "sign of n", "reverse zeta", "reverse both", "shift", "periods", "merge fields"]


def case(ctx, i):
    rng = ctx.rng()
    rel = RELATIONS[i % len(RELATIONS)]
    asym = bool((i // len(RELATIONS)) % 2)
    kw = dict(asym=asym)
    if rel == "periods": kw["nfp"] = int(rng.choice([3, 5, 6, 9, 10, 15]))
    e = gen.complete(rng, **kw)
    if rel == "periods": e["mboz"], e["nboz"], e["compute_surfs"] = min(e["mboz"], 6), min(e["nboz"], 2), e["compute_surfs"][:2]
    what = str(gen.describe(e))
    if rel == "scale R and Z" and rng.random() < 0.5:
        # modes of R and Z alone
        for k in ("lmns", "lmnc"):
            if e[k].size: e[k] = np.asfortranarray(np.where(rng.random((len(e["xm"]), 1)) < 0.5, 0.0, e[k]))
    s = go(ctx, e, "base")
    C = complexes(s)
    T = tolerance(e, s)
    g = dict(e)
    nz = 1 if e["nboz"] == 0 else 4 * e["nboz"] + 2
    nt = 4 * e["mboz"] + 2
    W = dict(C)
    add = lambda A, B: {q: A[q] + B[q] for q in Q}
    names = ["xm_b", "xn_b", "mnboz", "ns_b", "s_b", "compute_surfs"]
    rad = {k: s[k] for k in ("Boozer_G", "Boozer_I", "Boozer_G_all", "Boozer_I_all")}
    if rel == "scale B":
        c = float(rng.choice([2.0, 0.5, 1024.0, 3.0, 0.1, 1e5, 1e-6, 1e-12, 1e-20, 1e-40, 1e-80, 1e15, 1e30, 1e80, float(rng.uniform(0.2, 5))]))
        for k in NYQ: g[k] = e[k] * c
        t = go(ctx, g, rel); T2 = tolerance(g, t)
        what += " factor %r" % c
        W["B"], W["J"] = C["B"] * c, C["J"] / c
        tol = {q: T2[q] + T[q] * {"B": c, "J": 1 / c}.get(q, 1) for q in Q}
        rad = {k: v * c for k, v in rad.items()}
    elif rel == "scale covariant":
        c = float(rng.choice([2.0, 1e3, 1e-3, -1.0, -2.5, 1e-10, -1e-25, 1e-60, 1e20, -1e60, float(rng.uniform(0.2, 5))]))
        for k in NYQ[1:3] + NYQ[4:]: g[k] = e[k] * c
        t = go(ctx, g, rel); T2 = tolerance(g, t)
        what += " factor %r" % c
        W["J"] = C["J"] * c
        tol = {q: T2[q] + T[q] * {"J": abs(c)}.get(q, 1) for q in Q}
        rad = {k: v * c for k, v in rad.items()}
    elif rel == "scale R and Z":
        c, f = float(rng.choice([2.0, -3.0, 1e-8, 1e8, 1e-30, 1e-100, -1e60, 0.0])), float(rng.choice([0.5, -1.0, 7.0, 0.0]))
        for k in ("rmnc", "rmns"): g[k] = e[k] * c
        for k in ("zmnc", "zmns"): g[k] = e[k] * f
        t = go(ctx, g, rel); T2 = tolerance(g, t)
        what += " factors %r, %r" % (c, f)
        W["R"], W["Z"] = C["R"] * c, C["Z"] * f
        tol = {q: T2[q] + T[q] * {"R": abs(c), "Z": abs(f)}.get(q, 1) for q in Q}
    elif rel == "combine R and Z":
        h = dict(e)
        for k in ("rmnc", "rmns", "zmnc", "zmns"): h[k] = np.asfortranarray(rng.standard_normal(e[k].shape)) * np.abs(e[k]).max(initial=0)
        a, b = float(rng.uniform(-2, 2)), float(rng.uniform(-2, 2))
        for k in ("rmnc", "rmns", "zmnc", "zmns"): g[k] = a * e[k] + b * h[k]
        sh = go(ctx, h, rel); Th = tolerance(h, sh); Ch = complexes(sh)
        t = go(ctx, g, rel); T2 = tolerance(g, t)
        for q in "RZ": W[q] = a * C[q] + b * Ch[q]
        tol = {q: T2[q] + abs(a) * T[q] + abs(b) * Th[q] if q in "RZ" else T2[q] + T[q] for q in Q}
    elif rel in ("R alone", "Z alone"):
        L = ("rmnc", "rmns") if rel[0] == "R" else ("zmnc", "zmns")
        for k in L: g[k] = np.asfortranarray(rng.standard_normal(e[k].shape)) * 10.0 ** rng.integers(-6, 6)
        t = go(ctx, g, rel); T2 = tolerance(g, t)
        keep = [x for q in Q if q != rel[0] for x in Q[q]]
        if not bitwise(ctx, rel, s, t, keep, what): return
        W[rel[0]] = complexes(t)[rel[0]]
        tol = {q: T2[q] + T[q] for q in Q}
    elif rel in ("permute", "split", "pad", "sign of n", "merge fields"):
        for (pairs, xm, xn, m, first) in ((PAIRS, "xm", "xn", "mnmax", False), (PAIRSN, "xm_nyq", "xn_nyq", "mnmax_nyq", True)):
            n = len(e[xm])
            ks = [k for p in pairs for k in p if e[k].size]
            if rel == "permute":
                p = rng.permutation(n)
                if first: p = np.concatenate([[0], 1 + rng.permutation(n - 1)]).astype(int)
                g[xm], g[xn] = e[xm][p], e[xn][p]
                for k in ks: g[k] = np.asfortranarray(e[k][p])
            elif rel == "split":
                d = rng.integers(0, n, int(rng.integers(1, 6)))
                if rng.random() < 0.3: d[0] = 0
                g[xm], g[xn] = np.concatenate([e[xm], e[xm][d]]).astype("int32"), np.concatenate([e[xn], e[xn][d]]).astype("int32")
                for k in ks:
                    a = np.array(e[k]); x = np.zeros((len(d), a.shape[1]))
                    for r, j in enumerate(d):
                        x[r] = rng.uniform(-1, 1, a.shape[1]) * np.abs(e[k][j])
                        a[j] -= x[r]
                    g[k] = np.asfortranarray(np.concatenate([a, x]))
                if not first and rng.random() < 0.5:
                    p = rng.permutation(len(g[xm]))
                    g[xm], g[xn] = g[xm][p], g[xn][p]
                    for k in ks: g[k] = np.asfortranarray(g[k][p])
                g[m] = len(g[xm])
            elif rel == "pad":
                dm, dn = int(rng.integers(0, 5)), int(rng.integers(0, 4))
                mk, nk = ("mpol", "ntor") if not first else ("mpol_nyq", "ntor_nyq")
                M, N = e[mk] + dm, e[nk] + dn
                num = int(rng.integers(1, 9))
                x = rng.integers(0, M + (1 if first or e["mpol"] == e["xm"].max() else 0), num) if M > 0 else np.zeros(num, dtype=int)
                y = rng.integers(-N, N + 1, num) * e["nfp"]
                g[mk], g[nk], g[m] = M, N, e[m] + num
                p = np.arange(n + num)
                if first: p[1:] = 1 + rng.permutation(n + num - 1)
                else: p = rng.permutation(n + num)
                g[xm], g[xn] = np.concatenate([e[xm], x])[p].astype("int32"), np.concatenate([e[xn], y])[p].astype("int32")
                for k in ks: g[k] = np.asfortranarray(np.concatenate([e[k], np.zeros((num, e["ns_in"]))])[p])
            elif rel == "sign of n":
                f = (e[xm] == 0) & (rng.random(n) < 0.6)
                if first: f[0] = False
                g[xn] = np.where(f, -e[xn], e[xn]).astype("int32")
                for c, sn in pairs:
                    # cos(-x) = cos(x), sin(-x) = -sin(x); B_zeta and B_theta amplitudes are those of the functions
                    if e[sn].size: g[sn] = np.asfortranarray(np.where(f[:, None], -e[sn], e[sn]))
            else:
                # all quantities on the same, larger table
                continue
        if rel == "merge fields":
            # R, Z and lambda listed on the table of the field
            P = sorted(set(zip(e["xm"].tolist(), e["xn"].tolist())) | set(zip(e["xm_nyq"].tolist(), e["xn_nyq"].tolist())))
            P.remove((0, 0)); P.insert(0, (0, 0))
            x, y = np.array([p[0] for p in P], dtype="int32"), np.array([p[1] for p in P], dtype="int32")
            for (pairs, xm, xn, m, mk, nk) in ((PAIRS, "xm", "xn", "mnmax", "mpol", "ntor"), (PAIRSN, "xm_nyq", "xn_nyq", "mnmax_nyq", "mpol_nyq", "ntor_nyq")):
                pos = {p: k for k, p in enumerate(P)}
                for k in [k for p in pairs for k in p if e[k].size]:
                    a = np.zeros((len(P), e["ns_in"]), order="F")
                    for j, q in enumerate(zip(e[xm].tolist(), e[xn].tolist())): a[pos[q]] += e[k][j]
                    g[k] = a
                g[xm], g[xn], g[m], g[mk], g[nk] = x, y, len(P), max(e["mpol"], e["mpol_nyq"]), max(e["ntor"], e["ntor_nyq"])
        t = go(ctx, g, rel); T2 = tolerance(g, t)
        tol = {q: T2[q] + T[q] for q in Q}
    elif rel in ("reverse zeta", "reverse both"):
        if rel == "reverse zeta":
            # zeta' = -zeta: B_zeta and iota change sign
            for k in ("xn", "xn_nyq"): g[k] = -e[k]
            g["iota"] = -e["iota"]
            for k in ("bsubvmnc", "bsubvmns"): g[k] = -e[k]
            rad["Boozer_G"], rad["Boozer_G_all"] = -rad["Boozer_G"], -rad["Boozer_G_all"]
        else:
            # both angles and the direction of the field reversed: the covariant components stay as functions of space
            for k in ("rmns", "zmns", "lmnc", "bmns", "bsubumns", "bsubvmns"): g[k] = -e[k]
        t = go(ctx, g, rel); T2 = tolerance(g, t)
        if rel == "reverse zeta":
            pos = {p: k for k, p in enumerate(zip(s["xm_b"].tolist(), s["xn_b"].tolist()))}
            for q in Q:
                A = np.empty_like(C[q])
                for k, (m, n) in enumerate(zip(s["xm_b"].tolist(), s["xn_b"].tolist())):
                    # for m = 0 the mode (0, -n) is listed as (0, n), with the sine reversed
                    A[k] = np.conj(C[q][k]) if m == 0 else C[q][pos[(m, -n)]]
                W[q] = A * (-1 if q in ("nu", "J") else 1)
        else:
            for q in Q: W[q] = np.conj(C[q]) * (-1 if q == "nu" else 1)
        if rel == "reverse both" and not asym:
            # the reversed Z is odd: in symmetric mode the partner is the mirror image
            W["Z"] = np.conj(C["Z"])
        tol = {q: T2[q] + T[q] for q in Q}
    elif rel == "shift":
        if asym: a, b = 2 * np.pi * int(rng.integers(nt)) / nt, 2 * np.pi * int(rng.integers(nz)) / nz / e["nfp"]
        else:
            # half periods keep the symmetry
            a, b = np.pi * int(rng.integers(2)), (np.pi / e["nfp"] * int(rng.integers(2)) if nz > 1 else 0.0)
        what += " by %r, %r" % (a, b)
        g.update(phase(e, PAIRS, e["xm"], e["xn"], a, b))
        g.update(phase(e, PAIRSN, e["xm_nyq"], e["xn_nyq"], a, b))
        for k in ("bsubumnc", "bsubvmnc"): g[k][0] = e[k][0]
        t = go(ctx, g, rel); T2 = tolerance(g, t)
        f = np.exp(1j * (s["xm_b"].astype(float) * a - s["xn_b"].astype(float) * b))[:, None]
        for q in Q: W[q] = C[q] * f
        tol = {q: 3 * T2[q] + 3 * T[q] for q in Q}
    else:
        # nfp periods as nfp/r ones
        r = [r for r in (3, 5, 9, 15) if e["nfp"] % r == 0]
        r = int(rng.choice(r))
        g["nfp"] = e["nfp"] // r
        g["ntor"], g["ntor_nyq"] = e["ntor"] * r, e["ntor_nyq"] * r
        g["nboz"] = 0 if e["nboz"] == 0 else (r * (2 * e["nboz"] + 1) - 1) // 2
        what += " as %d periods" % g["nfp"]
        t = go(ctx, g, rel); T2 = tolerance(g, t)
        pos = {p: k for k, p in enumerate(zip(s["xm_b"].tolist(), s["xn_b"].tolist()))}
        D = complexes(t)
        for q in Q:
            A = np.zeros_like(D[q])
            for k, p in enumerate(zip(t["xm_b"].tolist(), t["xn_b"].tolist())):
                if p in pos: A[k] = C[q][pos[p]]
            W[q] = A
        tol = {q: T2[q] + T[q] for q in Q}
        names = ["ns_b", "s_b", "compute_surfs"]
    if not bitwise(ctx, rel, s, t, names, what): return
    if not radial(ctx, rel, t, rad, what): return
    if compare(ctx, rel, complexes(t), W, tol, what):
        ctx.stat("pairs: " + rel)
        ctx.seen((rel, what))
        ctx.sample((rel, what))
