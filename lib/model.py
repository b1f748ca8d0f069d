"""Independent reference models (numpy). They follow the documentation, not the code's loops."""
import numpy as np

EPS = np.finfo(float).eps


def grids(e, mboz, nboz):
    nt, nz = 2 * (2 * mboz + 1), (1 if nboz == 0 else 2 * (2 * nboz + 1))
    if e["asym"]:
        j = np.arange(nt)
        wt = np.ones(nt)
    else:
        j = np.arange(nt // 2 + 1)
        wt = np.ones(nt // 2 + 1)
        wt[0] = wt[-1] = 0.5
    th = 2 * np.pi * j / nt
    ze = 2 * np.pi * np.arange(nz) / (nz * e["nfp"])
    T, Z = np.meshgrid(th, ze, indexing="ij")
    W = np.repeat(wt / wt.sum() / nz, nz)
    return T.ravel(), Z.ravel(), W


def series(xm, xn, c, s, th, ze, deriv=False):
    """sum c cos(m th - n ze) + s sin(m th - n ze), optionally with derivatives."""
    f = np.zeros(th.shape)
    ft = np.zeros(th.shape)
    fz = np.zeros(th.shape)
    n = max(1, 2_000_000 // max(1, len(th)))
    for a in range(0, len(xm), n):
        m, k = xm[a:a + n].astype(float), xn[a:a + n].astype(float)
        A = np.outer(th, m) - np.outer(ze, k)
        C, S = np.cos(A), np.sin(A)
        cc = c[a:a + n] if c is not None else np.zeros(len(m))
        ss = s[a:a + n] if s is not None else np.zeros(len(m))
        f += C @ cc + S @ ss
        if deriv:
            ft += S @ (-m * cc) + C @ (m * ss)
            fz += S @ (k * cc) + C @ (-k * ss)
    return (f, ft, fz) if deriv else f


def col(e, k, js):
    a = e.get(k)
    return a[:, js] if a is not None and a.size else None


def fields(e, js, th, ze):
    """R, Z, |B|, nu, Boozer angles and d(Boozer)/d(original) at given original angles."""
    xm, xn, xmq, xnq = e["xm"], e["xn"], e["xm_nyq"], e["xn_nyq"]
    asym = e["asym"]
    g = lambda k: col(e, k, js)
    a = lambda k: col(e, k, js) if asym else None
    R = series(xm, xn, g("rmnc"), a("rmns"), th, ze)
    Z = series(xm, xn, a("zmnc"), g("zmns"), th, ze)
    lam, lt, lz = series(xm, xn, a("lmnc"), g("lmns"), th, ze, True)
    B = series(xmq, xnq, g("bmnc"), a("bmns"), th, ze)
    i0 = np.where((xmq == 0) & (xnq == 0))[0]
    I, G = e["bsubumnc"][i0, js].sum(), e["bsubvmnc"][i0, js].sum()
    ws, wc = np.zeros(len(xmq)), np.zeros(len(xmq))
    m, n = xmq.astype(float), xnq.astype(float)
    pm, pn = xmq != 0, (xmq == 0) & (xnq != 0)
    ws[pm] = g("bsubumnc")[pm] / m[pm]
    ws[pn] = -g("bsubvmnc")[pn] / n[pn]
    if asym:
        wc[pm] = -g("bsubumns")[pm] / m[pm]
        wc[pn] = g("bsubvmns")[pn] / n[pn]
    w, wt, wz = series(xmq, xnq, wc, ws, th, ze, True)
    iota = e["iota"][js]
    den = G + iota * I
    nu, nt, nz = (w - I * lam) / den, (wt - I * lt) / den, (wz - I * lz) / den
    tb, zb = th + lam + iota * nu, ze + nu
    D = (1 + lt) * (1 + nz) + (iota - lz) * nt
    # size of the rounding errors in the angles, for tolerances
    wsum = (np.abs(ws).sum() + np.abs(wc).sum()) / abs(den)
    lsum = sum(np.abs(x).sum() for x in (g("lmns"), a("lmnc")) if x is not None)
    asum = (1 + abs(iota)) * (wsum + abs(I / den) * lsum) + lsum
    mx = 1 + max(xm.max(), xmq.max()) + max(np.abs(xn).max(), np.abs(xnq).max()) / e["nfp"]
    return dict(R=R, Z=Z, B=B, nu=nu, tb=tb, zb=zb, D=D, G=G, I=I, J=den / B ** 2, lam=lam, asum=asum, mx=mx,
                Dsum=1 + asum * (1 + mx * e["nfp"]))


def table(mboz, nboz, nfp):
    xm, xn = [], []
    for m in range(mboz):
        for n in range(0 if m == 0 else -nboz, nboz + 1):
            xm.append(m)
            xn.append(n * nfp)
    return np.array(xm, dtype=int), np.array(xn, dtype=int)


def transform(e, js, mboz=None, nboz=None):
    """All output spectra on one surface, and tolerances for them."""
    mboz = e["mboz"] if mboz is None else mboz
    nboz = e["nboz"] if nboz is None else nboz
    th, ze, W = grids(e, mboz, nboz)
    f = fields(e, js, th, ze)
    xm, xn = table(mboz, nboz, e["nfp"])
    out = {}
    names = [("B", "bmnc_b", "c"), ("R", "rmnc_b", "c"), ("Z", "zmns_b", "s"), ("nu", "numns_b", "s"), ("J", "gmnc_b", "c")]
    if e["asym"]:
        names += [("B", "bmns_b", "s"), ("R", "rmns_b", "s"), ("Z", "zmnc_b", "c"), ("nu", "numnc_b", "c"), ("J", "gmns_b", "s")]
    for _, k, _t in names: out[k] = np.empty(len(xm))
    n = max(1, 2_000_000 // len(th))
    for a in range(0, len(xm), n):
        A = np.outer(xm[a:a + n].astype(float), f["tb"]) - np.outer(xn[a:a + n].astype(float), f["zb"])
        M = {"c": np.cos(A), "s": np.sin(A)}
        for q, k, t in names:
            out[k][a:a + n] = 2 * (M[t] @ (f[q] * f["D"] * W))
    for _, k, _t in names: out[k][0] *= 0.5
    # rounding: trig recurrences (m + n terms), evaluation of the angles, and of the field itself
    rel = 20 * EPS * (mboz + nboz * e["nfp"] + 10) * (1 + f["asum"]) * (1 + f["mx"])
    tol = {}
    dmax = np.abs(f["D"]).max() + f["Dsum"] * 1e-3
    for q, k, _t in names:
        mag = np.abs(f[q]).max()
        if q == "nu": mag = max(mag, f["asum"])
        if q == "J": mag = mag * (1 + np.abs(f["B"]).max() / np.abs(f["B"]).min())
        if q in "RZ": mag = max(mag, sum(np.abs(e[x][:, js]).sum() for x in (("rmnc", "rmns") if q == "R" else ("zmns", "zmnc")) if e[x].size and (e["asym"] or x in ("rmnc", "zmns"))))
        tol[k] = rel * mag * dmax
    return out, tol, f


def vmec_to_half(v, flux):
    """What init_from_vmec() has to make of VMEC's arrays (dict of attributes)."""
    ns = v["ns"]
    n = ns - 1
    out = dict(ns_in=n, iota=v["iotas"][1:])
    s_full = np.linspace(0, 1, ns)
    s_half = (np.arange(n) + 0.5) / n
    out["s_in"] = s_half
    for k in ("lmnc", "lmns", "bmnc", "bmns", "bsubumnc", "bsubumns", "bsubvmnc", "bsubvmns"):
        if k in v and v[k].size: out[k] = v[k][:, 1:]
    for k in ("rmnc", "rmns", "zmnc", "zmns"):
        if k not in v or not v[k].size: continue
        a = v[k]
        h = np.empty((a.shape[0], n))
        for j, m in enumerate(v["xm"]):
            if m % 2 == 0:
                h[j] = 0.5 * (a[j, :-1] + a[j, 1:])
            else:
                q = np.empty(ns)
                q[1:] = a[j, 1:] / np.sqrt(s_full[1:])
                if m == 1:
                    q[0] = 2 * q[1] - q[2] if ns > 2 else q[1]   # linear extrapolation to the axis
                else:
                    q[0] = a[j, 0]   # amplitude/sqrt(s) vanishes at the axis; a is 0 there in VMEC
                h[j] = 0.5 * (q[:-1] + q[1:]) * np.sqrt(s_half)
        out[k] = h
    out["compute_surfs"] = np.arange(n)
    out["mboz"] = 6 * v["mpol"]
    out["nboz"] = max(2 * v["ntor"] - 1, 0)
    if flux:
        out["phi"], out["chi"], out["pres"] = v["phi"], v["chi"], v["pres"]
        out["phip"] = -v["phipf"] / (2 * np.pi)
        out["toroidal_flux"] = float(v["phi"][-1])
    else:
        for k in ("phi", "chi", "pres", "phip"): out[k] = np.zeros(0)
        out["toroidal_flux"] = 0.0
    return out
