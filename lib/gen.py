"""Random equilibria. An equilibrium is a dict of the input attributes of a Booz_xform object."""
import numpy as np

SYM_MATS = ["rmnc", "zmns", "lmns"]
SYM_NYQ = ["bmnc", "bsubumnc", "bsubvmnc"]
ASY_MATS = ["rmns", "zmnc", "lmnc"]
ASY_NYQ = ["bmns", "bsubumns", "bsubvmns"]
MATS = SYM_MATS + SYM_NYQ + ASY_MATS + ASY_NYQ
INPUTS = ["asym", "nfp", "mpol", "ntor", "mnmax", "mpol_nyq", "ntor_nyq", "mnmax_nyq", "xm", "xn", "xm_nyq", "xn_nyq",
          "ns_in", "s_in", "iota"] + MATS + ["mboz", "nboz", "compute_surfs", "aspect", "toroidal_flux", "phi", "phip", "chi", "pres"]
OUT_MATS = ["bmnc_b", "rmnc_b", "zmns_b", "numns_b", "gmnc_b"]
OUT_ASYM = ["bmns_b", "rmns_b", "zmnc_b", "numnc_b", "gmns_b"]
OUT_VECS = ["s_b", "Boozer_G", "Boozer_I", "Boozer_G_all", "Boozer_I_all"]
OUT_IVECS = ["xm_b", "xn_b"]
OUT_INTS = ["ns_b", "mnboz"]
OUTPUTS = OUT_INTS + OUT_IVECS + OUT_VECS + OUT_MATS + OUT_ASYM
ALL = ["verbose"] + INPUTS + OUTPUTS
INT_ATTRS = ["verbose", "nfp", "mpol", "ntor", "mnmax", "mpol_nyq", "ntor_nyq", "mnmax_nyq", "ns_in", "mboz", "nboz", "ns_b", "mnboz"]
DBL_ATTRS = ["aspect", "toroidal_flux"]
IVEC_ATTRS = ["xm", "xn", "xm_nyq", "xn_nyq", "compute_surfs", "xm_b", "xn_b"]
VEC_ATTRS = ["s_in", "iota", "s_b", "Boozer_G", "Boozer_G_all", "Boozer_I", "Boozer_I_all", "phi", "phip", "chi", "pres"]
MAT_ATTRS = MATS + OUT_MATS + OUT_ASYM


def full_table(mmax, nmax, nfp):
    """VMEC's table: m = 0..mmax, n = -nmax..nmax (n >= 0 for m = 0)."""
    xm, xn = [], []
    for m in range(mmax + 1):
        for n in range(0 if m == 0 else -nmax, nmax + 1):
            xm.append(m)
            xn.append(n * nfp)
    return np.array(xm, dtype=np.int32), np.array(xn, dtype=np.int32)


def mode_table(rng, mmax, nmax, nfp, style, zero_first):
    xm, xn = full_table(mmax, nmax, nfp)
    if style == "vmec":
        return xm, xn
    if style == "sparse":
        keep = rng.random(len(xm)) < 0.5
        keep[0] = True
        xm, xn = xm[keep], xn[keep]
    elif style == "negzero":
        # also n < 0 for m = 0
        ns = np.arange(1, nmax + 1) * -nfp
        xm = np.concatenate([xm, np.zeros(len(ns), dtype=np.int32)])
        xn = np.concatenate([xn, ns])
    if style in ("permuted", "sparse", "negzero"):
        p = rng.permutation(len(xm))
        if zero_first:
            i0 = np.where((xm[p] == 0) & (xn[p] == 0))[0][0]
            p = np.concatenate([[p[i0]], np.delete(p, i0)])
        xm, xn = xm[p], xn[p]
    return xm.astype(np.int32), xn.astype(np.int32)


def amplitudes(rng, xm, xn, nfp, ns, total, odd_zero=None):
    """Random amplitudes whose absolute values add up to `total` on each surface."""
    k = xm + np.abs(xn) / nfp
    a = rng.standard_normal((len(xm), ns)) * np.exp(-rng.uniform(0.1, 1.0) * k)[:, None]
    if odd_zero is not None:
        a[odd_zero, :] = 0
    s = np.abs(a).sum(axis=0)
    s[s == 0] = 1
    return a * (total / s)


def vanish(rng, e):
    """Exact zeros (and equal columns) where real equilibria have them too: amplitudes that vanish in some arrays, on some
    surfaces or for some modes but not in others. The modes (0,0) of |B| and of the covariant components are kept."""
    keep = ("bmnc", "bsubumnc", "bsubvmnc")
    have = [k for k in MATS if e[k].size]
    for _ in range(int(rng.integers(1, 4))):
        how = int(rng.integers(6))
        groups = [["rmnc", "zmns"], ["rmnc", "zmns", "rmns", "zmnc"], ["lmns", "lmnc"], ["rmns", "zmnc", "lmnc"], ["bmnc", "bmns"], ["bmns", "bsubumns", "bsubvmns"],
                  ["bsubumnc", "bsubumns"], ["bsubvmnc", "bsubvmns"], [str(rng.choice(have))], [str(rng.choice(have))]]
        g = [k for k in groups[int(rng.integers(len(groups)))] if k in have]
        if not g: continue
        n, ns = e[g[0]].shape
        if how == 0: mask = np.ones((n, ns), dtype=bool)
        elif how == 1: mask = np.repeat(rng.random((n, 1)) < 0.4, ns, axis=1)
        elif how == 2: mask = np.repeat(rng.random((1, ns)) < 0.4, n, axis=0)
        elif how == 3: mask = rng.random((n, ns)) < 0.3
        elif how == 4:
            m = e["xm"] if n == len(e["xm"]) and g[0] in SYM_MATS + ASY_MATS else e["xm_nyq"]
            mask = np.repeat((m == (0 if rng.random() < 0.5 else 1))[:, None], ns, axis=1)
        else:
            # the same values on two surfaces (G + iota I must not get close to 0, so not for these)
            if g[0].startswith("bsub"): continue
            a, b = int(rng.integers(ns)), int(rng.integers(ns))
            for k in g: e[k][:, b] = e[k][:, a]
            continue
        zero = -0.0 if rng.random() < 0.2 else 0.0
        for k in g:
            x = mask.copy()
            if k in keep: x[0, :] = False
            if k == "rmnc": x[(e["xm"] == 0) & (e["xn"] == 0), :] = False
            e[k][x] = zero
    if rng.random() < 0.2: e["iota"][:] = e["iota"][0]


def odd_aspect(rng):
    """Only carried along: any number will do."""
    x = float(rng.uniform(1, 20))
    return x if x < 17 else -x if x < 19 else 0.0


def equilibrium(rng, asym=None, nfp=None, mmax=None, nmax=None, mmax_nyq=None, nmax_nyq=None, ns_in=None, style=None,
                scale=True, amp=0.35, flux=None, vmec_mpol=None):
    if asym is None: asym = bool(rng.random() < 0.5)
    if nfp is None:
        nfp = int(rng.choice([1, 1, 2, 3, 4, 5, 6, 10, 17]))
        if rng.random() < 0.02: nfp = int(rng.choice([7, 8, 12, 20, 31, 48, 100, 257]))
    if mmax is None: mmax = int(rng.choice([0, 1, 2, 3, 4, 5, 7], p=[.06, .1, .2, .2, .2, .14, .1]))
    if nmax is None: nmax = int(rng.choice([0, 1, 2, 3, 4, 6], p=[.2, .2, .2, .2, .1, .1]))
    if mmax_nyq is None: mmax_nyq = mmax + int(rng.integers(0, 4)) if mmax < 2 or rng.random() < 0.95 else mmax - 1  # usually the larger table
    if nmax_nyq is None:
        nmax_nyq = nmax + (int(rng.integers(0, 3)) if nmax > 0 or rng.random() < 0.2 else 0)
        if nmax > 1 and rng.random() < 0.05: nmax_nyq = nmax - 1
    if ns_in is None: ns_in = int(rng.choice([1, 2, 3, 4, 5, 7, 11, 24]))
    if style is None: style = str(rng.choice(["vmec", "vmec", "permuted", "sparse", "negzero"]))
    xm, xn = mode_table(rng, mmax, nmax, nfp, style, rng.random() < 0.7)
    xm_nyq, xn_nyq = mode_table(rng, mmax_nyq, nmax_nyq, nfp, style, True)
    if vmec_mpol is None: vmec_mpol = rng.random() < 0.7
    e = dict(asym=asym, nfp=nfp, mpol=mmax + (1 if vmec_mpol else 0), ntor=nmax, mnmax=len(xm), mpol_nyq=mmax_nyq, ntor_nyq=nmax_nyq,
             mnmax_nyq=len(xm_nyq), xm=xm, xn=xn, xm_nyq=xm_nyq, xn_nyq=xn_nyq, ns_in=ns_in)
    hs = 1.0 / ns_in
    e["s_in"] = (np.arange(ns_in) + 0.5) * hs
    e["iota"] = rng.uniform(-2, 2) + rng.uniform(-0.5, 0.5, ns_in)
    if rng.random() < 0.1: e["iota"][rng.integers(ns_in)] = 0.0
    w = 3 if rng.random() < 0.9 else 12
    B0 = 10 ** rng.uniform(-w, w) if scale and rng.random() < 0.5 else rng.uniform(0.5, 5)
    L0 = 10 ** rng.uniform(-w, w) if scale and rng.random() < 0.5 else rng.uniform(0.5, 5)
    z = np.where((xm == 0) & (xn == 0))[0]
    zn = 0
    both = ["c", "s"] if asym else ["c"]
    # R, Z: any amplitudes; the (0,0) sine amplitudes mean nothing but may be present
    for base in "rmn", "zmn":
        for t in (["c", "s"] if asym else (["c"] if base == "rmn" else ["s"])):
            a = amplitudes(rng, xm, xn, nfp, ns_in, rng.uniform(0.2, 0.8) * L0)
            if base == "rmn" and t == "c": a[z, :] += 2 * L0
            e[base + t] = a
    for t in (["s", "c"] if asym else ["s"]):
        e["lmn" + t] = amplitudes(rng, xm, xn, nfp, ns_in, rng.uniform(0, amp) / (1 + 0.5 * mmax))
    sgn = -1 if rng.random() < 0.3 else 1
    G = sgn * B0 * L0 * rng.uniform(1.0, 3.0, ns_in)
    I = rng.uniform(-0.25, 0.25, ns_in) * np.abs(G)
    u = rng.random()
    if u < 0.2: I[:] = 0
    elif u < 0.3: I *= 10.0 ** -rng.uniform(9, 19)  # a vacuum field: rounding level
    e["bmnc"] = amplitudes(rng, xm_nyq, xn_nyq, nfp, ns_in, rng.uniform(0.1, 0.5) * B0)
    e["bmnc"][0] = B0 * rng.uniform(0.9, 1.3, ns_in)
    for t in both:
        if t == "s": e["bmns"] = amplitudes(rng, xm_nyq, xn_nyq, nfp, ns_in, rng.uniform(0.02, 0.3) * B0)
        for base in "bsubumn", "bsubvmn":
            a = amplitudes(rng, xm_nyq, xn_nyq, nfp, ns_in, 1.0) * np.abs(G) * rng.uniform(0.02, 0.3)
            if t == "c": a[0] = I if base == "bsubumn" else G
            e[base + t] = a
    for k in MATS:
        if k not in e: e[k] = np.zeros((0, 0))
    more = rng.spawn(1)[0]   # numbers of its own: the draws below leave those of all other properties alone
    if more.random() < 0.06:
        # a large rotational transform (reversed-field pinches near the edge have small ones, tokamak cores with q << 1 large ones)
        f = more.uniform(2.5, 9)
        e["iota"] = e["iota"] * f
        for k in "bsubumn", "bsubvmn":
            for t in both:
                a = e[k + t]
                if t == "c": a[1:] /= f
                else: a /= f
        e["bsubumnc"][0] /= f
    if rng.random() < 0.25: vanish(rng, e)
    for k in MATS:
        e[k] = np.asfortranarray(e[k])
    if ns_in > 1 and rng.random() < 0.15: e["s_in"] = np.sort(rng.random(ns_in))  # inputs need not be on VMEC's grid
    if more.random() < 0.12:
        # the largest mode numbers are bounds: not all of them have to occur
        for k in "mpol", "ntor", "mpol_nyq", "ntor_nyq":
            if more.random() < 0.5: e[k] += int(more.integers(1, 4))
    e["aspect"] = odd_aspect(rng)
    if flux is None: flux = rng.random() < 0.5
    if flux:
        e["phi"] = np.linspace(0, 1, ns_in + 1) * rng.uniform(-3, 3)
        e["phip"] = rng.standard_normal(ns_in + 1)
        e["chi"] = rng.standard_normal(ns_in + 1)
        e["pres"] = np.abs(rng.standard_normal(ns_in + 1)) * 1e4
        if rng.random() < 0.15:
            for k in "phip", "chi", "pres": e[k][rng.random(ns_in + 1) < 0.4] = 0.0
        e["toroidal_flux"] = float(e["phi"][-1])
        # only carried along: any number, with or without connection to phi
        if more.random() < 0.15: e["toroidal_flux"] = [0.0, 1.0, -0.0, float(more.standard_normal())][int(more.integers(4))]
    else:
        for k in "phi", "phip", "chi", "pres": e[k] = np.zeros(0)
        e["toroidal_flux"] = 0.0
    return e


def surfaces(rng, ns_in, nmax=6, style=None):
    if style is None: style = str(rng.choice(["sorted", "shuffled", "dups", "all", "one", "reversed"]))
    n = int(rng.integers(1, min(ns_in, nmax) + 1))
    if style == "one": s = [int(rng.integers(ns_in))]
    elif style == "sorted": s = sorted(rng.choice(ns_in, n, replace=False))
    elif style == "shuffled": s = list(rng.choice(ns_in, n, replace=False))
    elif style == "dups": s = list(rng.integers(0, ns_in, int(rng.integers(1, nmax + 1))))
    elif style == "reversed": s = list(range(min(ns_in, nmax) - 1, -1, -1))
    else: s = list(range(ns_in))[:2 * nmax]
    return np.array(s, dtype=np.int32)


def resolution(rng, big=False):
    mb = int(rng.choice([1, 2, 3, 4, 5, 6, 8, 11, 14], p=[.08, .1, .12, .14, .14, .12, .12, .1, .08]))
    nb = int(rng.choice([0, 1, 2, 3, 4, 6, 9], p=[.2, .12, .18, .18, .14, .1, .08]))
    if big:
        mb, nb = int(rng.integers(16, 40)), int(rng.integers(8, 26))
    return mb, nb


def complete(rng, **kw):
    """Equilibrium plus resolution and surfaces: everything run() needs."""
    big = kw.pop("big", False)
    u = rng.random()
    rare = kw.pop("rare", True) and not big
    if rare and u < 0.02 and "ns_in" not in kw:
        # many surfaces
        e = equilibrium(rng, **dict(kw, ns_in=int(rng.integers(33, 131))))
        e["mboz"], e["nboz"] = int(rng.integers(1, 5)), int(rng.integers(0, 3))
        n = e["ns_in"]
        e["compute_surfs"] = [np.arange(n), rng.permutation(n), rng.integers(0, n, int(rng.integers(33, 150))), np.arange(n)[::-1], np.sort(rng.choice(n, n // 2, replace=False))][int(rng.integers(5))].astype(np.int32)
        return e
    if rare and u < 0.04:
        # many modes, resolution above or below them
        k = dict(kw)
        k.setdefault("mmax", int(rng.integers(8, 19))); k.setdefault("nmax", int(rng.integers(0, 15))); k.setdefault("ns_in", int(rng.integers(1, 4)))
        e = equilibrium(rng, **k)
        e["mboz"], e["nboz"] = int(rng.integers(1, 24)), int(rng.integers(0, 13))
        e["compute_surfs"] = surfaces(rng, e["ns_in"], 2)
        return e
    e = equilibrium(rng, **kw)
    if rare and u < 0.055:
        # a very fine grid in one direction
        e["mboz"], e["nboz"] = [(int(rng.integers(40, 300)), 0), (int(rng.integers(15, 70)), 1), (1, int(rng.integers(40, 300))), (2, int(rng.integers(15, 70)))][int(rng.integers(4))]
        e["compute_surfs"] = surfaces(rng, e["ns_in"], 2)
        return e
    e["mboz"], e["nboz"] = resolution(rng, big)
    e["compute_surfs"] = surfaces(rng, e["ns_in"], 2 if big else 6)
    return e


def describe(e):
    d = {k: (bool(e[k]) if k == "asym" else int(e[k])) for k in ("asym", "nfp", "mpol", "ntor", "mnmax", "mpol_nyq", "ntor_nyq", "mnmax_nyq", "ns_in")}
    for k in ("mboz", "nboz"):
        if k in e: d[k] = int(e[k])
    if "compute_surfs" in e: d["compute_surfs"] = [int(x) for x in e["compute_surfs"]]
    return d


def apply(b, e, verbose=0):
    """Assign all inputs to a Python Booz_xform object."""
    b.verbose = verbose
    for k in INPUTS:
        if k in e: setattr(b, k, e[k])
    return b


def snapshot(b, names=ALL):
    out = {}
    for k in names:
        v = getattr(b, k)
        out[k] = np.array(v, copy=True, order="F") if isinstance(v, np.ndarray) else v
    return out


def same(a, b):
    """Bitwise equality of two attribute values (shape, dtype kind and bits)."""
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        return a.shape == b.shape and a.dtype == b.dtype and a.tobytes() == b.tobytes()
    if isinstance(a, float) or isinstance(b, float):
        return np.float64(a).tobytes() == np.float64(b).tobytes()
    return type(a) == type(b) and a == b


def diff(a, b, names=None):
    """Names of the attributes that differ between two snapshots."""
    return [k for k in (names or a.keys()) if not same(a[k], b[k])]


# --- VMEC style data (full and half grids) for init_from_vmec / wout files

def vmec(rng, asym=None, ns=None, nfp=None, mpol=None, ntor=None, flux=True, full=False, rare=True):
    """Dict with the variables of a wout file. mpol as in VMEC: m = 0..mpol-1."""
    if asym is None: asym = bool(rng.random() < 0.5)
    if nfp is None: nfp = int(rng.choice([1, 2, 3, 5, 10]))
    if mpol is None:
        mpol = int(rng.choice([1, 2, 3, 4, 5, 6, 8]))
        if rare and rng.random() < 0.04: mpol = int(rng.integers(9, 21))
    if ntor is None: ntor = int(rng.choice([0, 0, 1, 2, 3, 5]))
    if ns is None:
        ns = int(rng.choice([2, 3, 4, 5, 6, 9, 12, 25]))
        if rare and rng.random() < 0.04: ns = int(rng.integers(40, 131)) if rng.random() < 0.8 else int(rng.integers(200, 600))
    e = equilibrium(rng, asym=asym, nfp=nfp, mmax=mpol - 1, nmax=ntor, mmax_nyq=mpol - 1 + int(rng.integers(0, 5)),
                    nmax_nyq=(ntor + int(rng.integers(0, 3)) if ntor < 2 or rng.random() < 0.95 else ntor - 1) if ntor > 0 else 0, ns_in=ns, style="vmec", scale=False, vmec_mpol=True, flux=False)
    v = dict(lasym__logical__=int(asym), ns=ns, nfp=nfp, mpol=mpol, ntor=ntor, mnmax=e["mnmax"], mnmax_nyq=e["mnmax_nyq"],
             aspect=odd_aspect(rng), xm=e["xm"], xn=e["xn"], xm_nyq=e["xm_nyq"], xn_nyq=e["xn_nyq"])
    v["iotas"] = e["iota"].copy()
    # Nothing says that the first entry of half-grid arrays is zero in the file; the reader drops it.
    junk = rng.random() < 0.5
    v["iotas"][0] = rng.standard_normal() if junk else 0.0
    for k in SYM_MATS + SYM_NYQ + (ASY_MATS + ASY_NYQ if asym else []):
        a = e[k].copy()
        if k[0] in "rz": a[e["xm"] % 2 == 1, 0] = 0.0  # odd m vanishes on the axis in VMEC
        if k[0] in "lb": a[:, 0] = rng.standard_normal(a.shape[0]) if junk else 0.0
        v[k] = np.asfortranarray(a)
    if flux:
        v["phi"] = np.linspace(0, 1, ns) * rng.uniform(-3, 3)
        v["phipf"] = rng.standard_normal(ns)
        v["chi"] = rng.standard_normal(ns)
        v["pres"] = np.abs(rng.standard_normal(ns)) * 1e4
    return v


def empties(v):
    return {k: v.get(k, np.zeros((0, 0))) for k in MATS}


def results(rng, asym=None, nfp=None, mboz=None, nboz=None, ns_in=None):
    """Random content for a boozmn file (any numbers: nothing has to be consistent physically)."""
    import model
    if asym is None: asym = bool(rng.random() < 0.5)
    if nfp is None: nfp = int(rng.choice([1, 2, 3, 5, 10])) if rng.random() < 0.96 else int(rng.choice([700, 9999, 40000, 1000003]))
    u = rng.random()
    if mboz is None: mboz = int(rng.integers(1, 8)) if u > 0.04 else int(rng.integers(8, 40))
    if nboz is None: nboz = int(rng.integers(0, 6)) if u > 0.04 else int(rng.integers(6, 25))
    if ns_in is None: ns_in = int(rng.integers(1, 12)) if u < 0.95 else int(rng.integers(33, 200))
    xm, xn = model.table(mboz, nboz, nfp)
    surfs = np.sort(rng.choice(ns_in, int(rng.integers(1, ns_in + 1)), replace=False)).astype(np.int32)
    if rng.random() < 0.3: surfs = rng.permutation(surfs)
    d = dict(asym=asym, nfp=nfp, mboz=mboz, nboz=nboz, ns_in=ns_in, xm_b=xm.astype(np.int32), xn_b=xn.astype(np.int32), compute_surfs=surfs,
             aspect=odd_aspect(rng), iota=rng.standard_normal(ns_in), Boozer_I_all=rng.standard_normal(ns_in), Boozer_G_all=rng.standard_normal(ns_in))
    for k in ("phi", "phip", "chi", "pres"): d[k] = rng.standard_normal(ns_in + 1)
    for k in OUT_MATS + (OUT_ASYM if asym else []): d[k] = rng.standard_normal((len(xm), len(surfs))) * 10.0 ** rng.integers(-12, 12)
    return d
