"""C13: invalid input is rejected with an exception and does no damage."""
import os, re
import numpy as np
import gen, ncio, execdrv, hist
import c12
from common import Inconclusive

BUILDS = ["asanrel"]
CASES = {"quick": 960, "thorough": 14400}
RULE = ("scripts of 8..14 invalid calls (run with corrupted inputs, init_from_vmec with corrupted arrays, corrupted wout and boozmn files, calls in the wrong state) on one long-lived C++ object in a build with "
        "AddressSanitizer and UndefinedBehaviorSanitizer but no assertions; every such call must raise, nothing may be reported, and after each the object, given valid input, must give bit for bit what a new object gives; "
        "distinct by (corruption, shape)")
ASSUMPTIONS = ["randomly damaged files may legitimately still load: for those only memory errors in the repository's code are violations",
               "libnetcdf is not instrumented: writes by it beyond a buffer are seen only through the missing exception"]

INTMAX, INTMIN = 2147483647, -2147483648


# ---------------------------------------------------------------- run()

def run_corruptions(rng, e):
    """List of (name, {attribute: bad value})."""
    ns, mn, mnq, nfp = e["ns_in"], e["mnmax"], e["mnmax_nyq"], e["nfp"]
    C = [("mboz", dict(mboz=int(x))) for x in (0, -1, INTMIN, INTMAX, 500000000)]
    C += [("nboz", dict(nboz=int(x))) for x in (-1, -7, INTMIN, INTMAX)]
    C += [("nfp", dict(nfp=int(x))) for x in (0, -1, INTMIN)]
    if e["nboz"] and nfp > 0: C.append(("nfp*nboz overflow", dict(nfp=INTMAX // max(1, e["nboz"]) + 1, xn=np.zeros(mn, dtype=np.int32), xn_nyq=np.zeros(mnq, dtype=np.int32), nboz=max(2, e["nboz"]))))
    C += [("ns_in", dict(ns_in=int(x))) for x in (0, -1, ns + 1, ns - 1, INTMAX)]
    for k, m in (("mnmax", mn), ("mnmax_nyq", mnq)):
        C += [(k, {k: int(x)}) for x in (0, -1, m + 1, m - 1, INTMAX, INTMIN)]
    for k, a in (("mpol", e["xm"]), ("mpol_nyq", e["xm_nyq"])):
        C += [(k, {k: x}) for x in (-1, INTMAX, INTMIN)]
        if a.max() > 0: C.append((k + " too small", {k: int(a.max()) - 1}))
    for k, a in (("ntor", e["xn"]), ("ntor_nyq", e["xn_nyq"])):
        C += [(k, {k: x}) for x in (-1, INTMAX, INTMIN)]
        if abs(a).max() > 0: C.append((k + " too small", {k: int(abs(a).max()) // nfp - 1}))
    for k in ("xm", "xn", "xm_nyq", "xn_nyq"):
        a = e[k]
        for b in (a[:-1], np.append(a, 0), np.zeros(0)):
            C.append((k + " size", {k: b.astype(np.int32)}))
        j = int(rng.integers(len(a)))
        for v in ([-1, 10000, INTMAX, INTMIN] if "m" == k[1] else [10000 * nfp, INTMAX, INTMIN] + ([nfp + 1, 1, -1] if nfp > 1 else [])):
            b = a.copy(); b[j] = v
            C.append((k + " entry", {k: b}))
    b = e["xm_nyq"].copy(); b[0] = 1
    C.append(("xm_nyq[0]", dict(xm_nyq=b, mpol_nyq=max(1, e["mpol_nyq"]))))
    b = e["xn_nyq"].copy(); b[0] = nfp
    C.append(("xn_nyq[0]", dict(xn_nyq=b, ntor_nyq=max(1, e["ntor_nyq"]))))
    for x in (ns + 1, ns - 1, 0):
        C.append(("iota size", dict(iota=np.ones(x))))
    for x in (ns + 1, ns - 1):
        if x > 0: C.append(("s_in size", dict(s_in=np.ones(x) * 0.5)))
    for k in gen.MATS:
        if k not in gen.SYM_MATS + gen.SYM_NYQ and not e["asym"]: continue
        r, c = e[k].shape
        for sh in ((r + 1, c), (r - 1, c), (r, c + 1), (r, c - 1), (0, 0), (1, 1), (c, r)):
            if sh != (r, c) and (sh[0] * sh[1] > 0 or sh == (0, 0)): C.append((k + " shape", {k: np.zeros(sh)}))
    for v in (-1, ns, ns + 7, INTMAX, INTMIN):
        b = e["compute_surfs"].copy(); b[int(rng.integers(len(b)))] = v
        C.append(("compute_surfs", dict(compute_surfs=b)))
    if not e["asym"]: C.append(("asym without data", dict(asym=True)))
    C.append(("no memory", dict(mboz=5000, nboz=0)))
    return C


def turn(C, k, n):
    """The k-th n entries of the catalogue: every entry has its turn. Neighbours, which are alike, are far apart."""
    o = [j for q in range(7) for j in range(q, len(C), 7)]
    return [C[o[(k * n + j) % len(C)]] for j in range(min(n, len(C)))]


def case_run(ctx, rng, d, k):
    s = execdrv.Script()
    if rng.random() < 0.4: e = gen.equilibrium(rng, asym=k % 2 == 1, mmax=int(rng.integers(0, 2)), nmax=int(rng.integers(0, 2)), ns_in=int(rng.integers(1, 3)))
    else: e = gen.equilibrium(rng, asym=k % 2 == 1)
    e["mboz"], e["nboz"], e["compute_surfs"] = int(rng.integers(1, 5)), int(rng.integers(0, 4)), gen.surfaces(rng, e["ns_in"], 4)
    C = run_corruptions(rng, e)
    pick = turn(C, k // 2, 14)
    s.add("new 0"); s.apply(0, e); s.add("run 0")
    ref = s.dump(0, d)
    s.add("new 1"); s.apply(1, e)
    if rng.random() < 0.5: s.add("run 1")
    expect, dumps = {}, []
    for name, c in pick:
        s.set(1, "verbose", int(rng.choice([0, 0, 0, 1, 2])))
        for k, v in c.items(): s.set(1, k, v)
        expect[s.add("run 1")] = ("run: " + name, [(k, "array %s" % (np.shape(v),) if isinstance(v, np.ndarray) and v.size > 12 else np.asarray(v).tolist()) for k, v in c.items()])
        s.set(1, "verbose", 0)
        if rng.random() < 0.5:
            for k in c: s.set(1, k, e[k])
        else:
            s.apply(1, e)
        s.add("run 1")
        dumps.append((name, s.dump(1, d)))
    return s, expect, ref, dumps, gen.describe(e)


# ---------------------------------------------------------------- init_from_vmec

def vmec_corruptions(rng, v, flux):
    ns, mn, mnq, nfp = v["ns"], v["mnmax"], v["mnmax_nyq"], v["nfp"]
    C = [("ns", dict(ns=int(x))) for x in (1, 0, -1, ns + 1, ns - 1, INTMIN, INTMAX)]
    C += [("iotas size", dict(iotas=np.ones(x))) for x in (ns - 1, ns + 1, 1) if x != ns]
    if flux:
        for k in ("phipf", "chi", "pres", "phi"): C += [(k + " size", {k: np.ones(x)}) for x in (ns - 1, ns + 1)]
    C += [("nfp", dict(nfp=x)) for x in (0, -1, INTMIN)]
    C += [("mpol", dict(mpol=x)) for x in (-1, INTMIN, INTMAX, 400000000)]
    C += [("ntor", dict(ntor=x)) for x in (-1, v["ntor"] + 1, INTMAX, INTMIN)]
    C += [("ntor_nyq", dict(ntor_nyq=x)) for x in (-1, int(v["xn_nyq"][-1] // nfp) + 1, INTMAX, INTMIN, INTMAX // nfp)]
    for k, m in (("mnmax", mn), ("mnmax_nyq", mnq)): C += [(k, {k: x}) for x in (0, -1, m + 1, m - 1, INTMAX, INTMIN)]
    for k in ("xm", "xn", "xm_nyq", "xn_nyq"):
        a = v[k]
        for b in (a[:-1], np.append(a, a[-1]), np.zeros(0)): C.append((k + " size", {k: b.astype(np.int32)}))
        b = a.copy(); b[0] = nfp if k[1] == "n" else 1
        C.append((k + "[0]", {k: b}))
    b = v["xn"].copy(); b[-1] += nfp
    C.append(("last xn", dict(xn=b)))
    for k in gen.MATS:
        if k not in v: continue
        r, c = v[k].shape
        for sh in ((r + 1, c), (r - 1, c), (r, c + 1), (r, c - 1), (0, 0), (1, 1), (c, r)):
            if sh != (r, c) and (sh[0] * sh[1] > 0 or sh == (0, 0)): C.append((k + " shape", {k: np.zeros(sh)}))
    if not v["lasym__logical__"]: C.append(("asym without data", dict(lasym__logical__=1)))
    # accepted by init_from_vmec() but not by run()
    if mn > 1:
        j = int(rng.integers(1, mn))
        for x in (-1, v["mpol"] + 1, INTMAX, INTMIN):
            b = v["xm"].copy(); b[j] = x
            C.append(("xm entry", dict(xm=b)))
    if mnq > 1:
        b = v["xn_nyq"].copy(); b[0], b[int(rng.integers(0, mnq - 1))] = 0, 1000 * nfp
        if b[0] == 0: C.append(("xn_nyq entry", dict(xn_nyq=b)))
    return C


def case_vmec(ctx, rng, d, k):
    s = execdrv.Script()
    v = gen.vmec(rng, asym=k % 2 == 1, ns=int(rng.choice([2, 2, 3, 4, 7])), mpol=int(rng.choice([1, 2, 3, 4])), ntor=int(rng.choice([0, 1, 2])))
    flux = bool(rng.random() < 0.6)
    C = vmec_corruptions(rng, v, flux)
    pick = turn(C, k // 2, 14)
    nyq = dict(mpol_nyq=int(v["xm_nyq"][-1]), ntor_nyq=int(v["xn_nyq"][-1] // v["nfp"]))

    def small(k):
        s.set(k, "mboz", 3); s.set(k, "nboz", 2)

    s.add("new 0"); s.vmec(0, v, flux); small(0); s.add("run 0")
    ref = s.dump(0, d)
    s.add("new 1")
    expect, dumps = {}, []
    for name, c in pick:
        w = dict(v); w.update(c)
        s.set(1, "verbose", int(rng.choice([0, 0, 1, 2])))
        # as Script.vmec, with the Nyquist limits of the valid data
        q = dict(w)
        if not len(q["xm_nyq"]) or not len(q["xn_nyq"]) or not q["nfp"]: q["xm_nyq"], q["xn_nyq"], q["nfp"] = v["xm_nyq"], v["xn_nyq"], v["nfp"]
        a = len(s.l)
        s.vmec(1, q, flux)
        line = s.l.pop()
        for k in ("xm_nyq", "xn_nyq", "nfp"): s.set(1, k, w[k])
        for k in nyq: s.set(1, k, w.get(k, nyq[k]))
        expect_line = s.add(line)
        inf = ("init_from_vmec: " + name, [(k, "array %s" % (np.shape(x),) if isinstance(x, np.ndarray) and x.size > 12 else np.asarray(x).tolist()) for k, x in c.items()])
        if name in ("xm entry", "xn_nyq entry"):
            small(1)
            l2 = s.add("run 1")
            expect[(expect_line, l2)] = inf
        else: expect[expect_line] = inf
        s.set(1, "verbose", 0)
        s.vmec(1, v, flux); small(1); s.add("run 1")
        dumps.append((name, s.dump(1, d)))
    return s, expect, ref, dumps, {k: v[k] for k in ("lasym__logical__", "ns", "nfp", "mpol", "ntor", "mnmax", "mnmax_nyq")}


# ---------------------------------------------------------------- files

def reshape_var(rng, dims, V, name, how):
    """Give a variable dimensions of its own."""
    out = []
    dims = dict(dims)
    for v in V:
        if v.name != name: out.append(v); continue
        a = np.asarray(v.data)
        sh = list(a.shape)
        if how == "scalar->array": sh = [3]
        elif how == "extra": sh = sh + [2]
        elif how == "transposed": sh = sh[::-1]
        else:
            ax, dl = how
            sh[ax] += dl
        b = np.zeros(sh, dtype=a.dtype)
        names = []
        for k, n in enumerate(sh):
            names.append("new%d_%s" % (k, name)); dims[names[-1]] = n
        out.append(ncio.Var(name, b, names, v.type))
    return dims, out


def replace(V, name, value):
    return [ncio.Var(v.name, np.array(value), v.dims, v.type) if v.name == name else v for v in V]


def to_char(dims, V, name):
    out, dims = [], dict(dims)
    for v in V:
        if v.name != name: out.append(v); continue
        n = int(np.prod(np.shape(v.data))) if len(v.dims) else 1
        out.append(ncio.Var(name, b"x" * n, v.dims))
    return dims, out


SIMILAR = {"chi": ["chipf", "chis", "poloidal_flux"], "iotas": ["iotaf", "iota"], "phipf": ["phips", "phip"], "pres": ["presf", "mass"], "phi": ["phipf_", "torflux"],
           "lasym__logical__": ["lasym", "lasym__logical", "lrfp__logical__"], "bmnc": ["bmn", "gmnc"], "bsubumnc": ["bsupumnc", "currumnc"], "bsubvmnc": ["bsupvmnc", "currvmnc"],
           "bsubumns": ["bsupumns"], "bsubvmns": ["bsupvmns"], "bmns": ["gmns"], "lmns": ["lmns_full"], "lmnc": ["lmnc_full"], "ns": ["radius"], "mnmax": ["mn_mode"], "mnmax_nyq": ["mn_mode_nyq", "mnmaxpot"], "aspect": ["Aminor_p", "aspect_b"],
           "nfp": ["nfp_b", "num_field_periods"], "xm_nyq": ["xmpot"], "xn_nyq": ["xnpot"], "rmnc": ["rmnc_b"], "zmns": ["zmns_b"], "mpol": ["mpol_nyq"], "ntor": ["ntor_nyq"],
           "jlist": ["jlist_b", "compute_surfs"], "ixm_b": ["xm_b", "xm"], "ixn_b": ["xn_b", "xn"], "iota_b": ["iotas", "iota"], "buco_b": ["buco"], "bvco_b": ["bvco"], "pres_b": ["pres"], "phip_b": ["phipf", "phip"],
           "phi_b": ["phi"], "bmnc_b": ["bmn_b", "bmnc"], "pmns_b": ["numns_b", "pmn_b"], "pmnc_b": ["numnc_b"], "gmn_b": ["gmnc_b"], "gmns_b": ["gmn_s"], "nfp_b": ["nfp"], "ns_b": ["ns"], "mboz_b": ["mboz"], "nboz_b": ["nboz"], "mnboz_b": ["mnboz"]}


def shapes(rng, dims, V, names, C):
    for k in names:
        v = [x for x in V if x.name == k][0]
        a = np.asarray(v.data)
        if a.ndim == 0:
            C.append((k + " is an array", lambda k=k: reshape_var(rng, dims, V, k, "scalar->array")))
        else:
            C.append((k + " has another dimension", lambda k=k: reshape_var(rng, dims, V, k, "extra")))
            for ax in range(a.ndim):
                C.append((k + " longer", lambda k=k, ax=ax: reshape_var(rng, dims, V, k, (ax, 1))))
                C.append((k + " much longer", lambda k=k, ax=ax: reshape_var(rng, dims, V, k, (ax, 40))))
                if a.shape[ax] > 1: C.append((k + " shorter", lambda k=k, ax=ax: reshape_var(rng, dims, V, k, (ax, -1))))
            if a.ndim == 2 and a.shape[0] != a.shape[1] and min(a.shape) > 1:
                C.append((k + " transposed", lambda k=k: reshape_var(rng, dims, V, k, "transposed")))
        C.append((k + " is text", lambda k=k: to_char(dims, V, k)))
        C.append((k + " missing", lambda k=k: (dims, [x for x in V if x.name != k])))
        # only under another name: one that the same programs use for something else, or a variant of the right one
        for n in [n for n in SIMILAR.get(k, []) if n not in [x.name for x in V]] + [k.upper() if k.upper() != k else k.lower(), k + "_"]:
            C.append((k + " is called " + n, lambda k=k, n=n: (dims, [ncio.Var(n if x.name == k else x.name, x.data, x.dims, x.type) for x in V])))


def wout_corruptions(rng, v, flux):
    dims, V = ncio.wout_vars(v)
    names = [x.name for x in V]
    if not flux: names = [k for k in names if k not in ("chi", "phipf", "pres", "phi")]
    C = []
    shapes(rng, dims, V, names, C)
    ns = v["ns"]
    sc = [("ns", x) for x in (1, 0, -1, ns + 1, ns - 1, INTMAX, INTMIN)] + [("nfp", x) for x in (0, -1, INTMIN)]
    for k in ("mnmax", "mnmax_nyq"): sc += [(k, x) for x in (0, -1, v[k] + 1, v[k] - 1, INTMAX, INTMIN)]
    sc += [("mpol", x) for x in (-1, INTMIN, INTMAX)] + [("ntor", x) for x in (-1, v["ntor"] + 1, INTMAX)]
    for k, x in sc: C.append(("%s = %d" % (k, x), lambda k=k, x=x: (dims, replace(V, k, x))))
    for k in ("xm", "xn", "xm_nyq", "xn_nyq"):
        b = v[k].copy(); b[0] = v["nfp"] if k[1] == "n" else 1
        C.append((k + "[0]", lambda k=k, b=b: (dims, replace(V, k, b))))
        b = v[k].astype(float); b[0] = 1e300
        C.append((k + " not an integer range", lambda k=k, b=b: (dims, replace(V, k, b))))
    if not v["lasym__logical__"]: C.append(("lasym without data", lambda: (dims, replace(V, "lasym__logical__", 1))))
    return C


def boozmn_content(rng, path, r, **kw):
    """dims and variables that ncio.write_boozmn would write."""
    box = []
    old = ncio.write
    ncio.write = lambda p, dims, vars, fmt="classic", **k: box.append((dims, vars))
    try: ncio.write_boozmn(path, r, **kw)
    finally: ncio.write = old
    return box[0]


OPTIONAL = ("chi_b", "aspect_b")
UNUSED = ("rmax_b", "rmin_b", "betaxis_b", "beta_b", "version")


def boozmn_corruptions(rng, r, path):
    dims, V = boozmn_content(rng, path, r)
    names = [x.name for x in V if x.name not in UNUSED]
    C = []
    shapes(rng, dims, V, names, C)
    C = [c for c in C if c[0] not in [o + " missing" for o in OPTIONAL] and not c[0].startswith(tuple(o + " is called" for o in OPTIONAL))]
    mn, ns = len(r["xm_b"]), r["ns_in"] + 1
    sc = [("nfp_b", 0), ("nfp_b", -3), ("nfp_b", INTMIN), ("ns_b", ns + 1), ("ns_b", ns - 1), ("ns_b", 1), ("ns_b", 0), ("ns_b", INTMIN), ("ns_b", INTMAX)]
    sc += [("mnboz_b", x) for x in (0, -1, mn + 1, mn - 1, INTMAX, INTMIN)]
    for k, x in sc: C.append(("%s = %d" % (k, x), lambda k=k, x=x: (dims, replace(V, k, x))))
    for x in (1, 0, -5, ns + 1, ns + 50, INTMAX, INTMIN):
        b = np.asarray(r["compute_surfs"]) + 2
        b[int(rng.integers(len(b)))] = x
        C.append(("jlist entry", lambda b=b: (dims, replace(V, "jlist", b))))
    if not r["asym"]: C.append(("lasym without data", lambda: (dims, replace(V, "lasym__logical__", 1))))
    for k in ("radius", "comput_surfs"):
        def nodim(k=k):
            dd = {("other_" + n if n == k else n): l for n, l in dims.items()}
            return dd, [ncio.Var(v.name, v.data, ["other_" + n if n == k else n for n in v.dims], v.type) for v in V]
        C.append(("no dimension " + k, nodim))

        def wrongdim(delta, k=k):
            # the dimension has another length than the variables
            dd = dict(dims); dd["x_" + k] = dims[k]; dd[k] = dims[k] + delta
            return dd, [ncio.Var(v.name, v.data, ["x_" + n if n == k else n for n in v.dims], v.type) for v in V]
        C.append(("dimension %s longer" % k, lambda f=wrongdim: f(1)))
        C.append(("dimension %s very long" % k, lambda f=wrongdim: f(2**31 - 8 - 100)))
        if dims[k] > 1: C.append(("dimension %s shorter" % k, lambda f=wrongdim: f(-1)))
        if k == "radius" and dims[k] > 1: C.append(("radius 1", lambda f=wrongdim: f(1 - dims["radius"])))
    return C


def judge_damaged(ctx, r, desc):
    ctx.stat("damaged files", 4)
    if r.hang: ctx.stat("damaged files: watchdog"); return
    rep = execdrv.sanitizer_report(r)
    if rep and re.search(r"ERROR: AddressSanitizer: (heap|stack|global)-|runtime error:|allocation-size-too-big", rep[1]):
        fr = [l for l in rep[1].split("\n") if re.match(r"\s+#\d+ ", l) and "libsanitizer" not in l]
        if "runtime error" in rep[1] or fr and "/src/_booz_xform/" in fr[0] or fr and "/eigen/" in fr[0]:
            ctx.fail("damaged:" + rep[0], "%s\nfor a damaged file; %s" % (rep[1], desc))
            return
    if rep or not r.complete: ctx.stat("damaged files: the library crashed or leaked")
    for k, (st, tx) in r.log.items():
        if r.lines[k].split()[0] in ("wout", "rd", "run", "write"): ctx.stat("damaged files: %s %s" % (r.lines[k].split()[0], "raised" if st == "EXC" else "succeeded"))


def execute(ctx, s, d):
    opt = execdrv.SAN_ENV["ASAN_OPTIONS"].replace("max_allocation_size_mb=6000", "max_allocation_size_mb=200").replace("max_malloc_fill_size=268435456", "max_malloc_fill_size=4096")
    return c12.execute(ctx, ctx.info["asanrel"], s, d, {"ASAN_OPTIONS": opt})


def damaged(rng, good, bad, hdf5):
    """A copy of a file with a piece missing or some bytes changed: may or may not be readable."""
    b = bytearray(open(good, "rb").read())
    how = 0 if hdf5 else int(rng.integers(4))
    if how == 0: b = b[:int(rng.integers(0, len(b)))]
    elif how == 1:
        for _ in range(int(rng.integers(1, 5))): b[int(rng.integers(min(len(b), 3000)))] = int(rng.integers(256))
    elif how == 2:
        for _ in range(int(rng.integers(1, 3))): b[int(rng.integers(min(len(b), 3000)))] ^= 1 << int(rng.integers(8))
    else:
        a = int(rng.integers(len(b)))
        b = b[:a] + b[a + 4:]
    with open(bad, "wb") as f: f.write(b)


def not_netcdf(rng, d, good):
    out = []
    for n, b in (("empty", b""), ("text", b"&INDATA\n  NFP = 3\n" * 50), ("magic", b"CDF\x01"), ("magic5", b"\x89HDF\r\n\x1a\n"), ("binary", bytes(rng.integers(0, 256, 5000, dtype=np.uint8)))):
        f = os.path.join(d, "not_" + n)
        with open(f, "wb") as h: h.write(b)
        out.append((n, f))
    out += [("missing", os.path.join(d, "missing")), ("directory", d), ("no name", d + "/"), ("below a file", os.path.join(good, "x"))]
    return out


def case_files(ctx, rng, d, kind, turns):
    s = execdrv.Script()
    good = os.path.join(d, "good.nc")
    fmt = str(rng.choice(["classic", "64bit", "cdf5", "netcdf4"]))
    flux = bool(rng.random() < 0.6)
    if kind == "wout":
        v = gen.vmec(rng, asym=turns % 2 == 1, ns=int(rng.choice([2, 3, 4, 7])), mpol=int(rng.choice([1, 2, 3, 4])), ntor=int(rng.choice([0, 1, 2])))
        ncio.write_wout(good, v, fmt)
        C = wout_corruptions(rng, v, flux)
        load = lambda k, f: s.add("wout %d %s %d" % (k, f, flux))
        desc = {k: v[k] for k in ("lasym__logical__", "ns", "nfp", "mpol", "ntor", "mnmax", "mnmax_nyq")}
    else:
        r = gen.results(rng, asym=turns % 2 == 1, ns_in=int(rng.integers(2, 8)))
        ncio.write_boozmn(good, r, fmt)
        C = boozmn_corruptions(rng, r, good)
        load = lambda k, f: s.add("rd %d %s" % (k, f))
        desc = {k: r[k] for k in ("asym", "nfp", "mboz", "nboz", "ns_in")}
    desc["format"] = fmt

    def use(k):
        load(k, good)
        if kind == "wout": s.set(k, "mboz", 3); s.set(k, "nboz", 1); s.add("run %d" % k)
    s.add("new 0"); use(0)
    ref = s.dump(0, d)
    s.add("new 1")
    expect, dumps = {}, []
    bad = [("file", n, f) for n, f in not_netcdf(rng, d, good)]
    todo = [("content",) + c for c in turn(C, turns // 2, 11)] + [bad[int(rng.integers(len(bad)))]]
    other = os.path.join(d, "other.nc")
    if kind == "wout": ncio.write_boozmn(other, gen.results(rng, ns_in=2))
    else: ncio.write_wout(other, gen.vmec(rng, ns=3, mpol=2, ntor=1))
    todo.append(("file", "the other kind of file", other))
    for n, (t, name, x) in enumerate(todo):
        s.set(1, "verbose", int(rng.choice([0, 0, 1])))
        if t == "content":
            f = os.path.join(d, "bad%d.nc" % n)
            dims, V = x()
            try: ncio.write(f, dims, V, fmt)
            except RuntimeError: ctx.stat("corruptions that this format cannot hold"); continue
            expect[load(1, f)] = (kind + ": " + name, fmt)
        else: expect[load(1, x)] = (kind + ": " + name, fmt)
        s.set(1, "verbose", 0)
        use(1)
        dumps.append((name, s.dump(1, d)))
    # in another process, as the libraries are not hardened against these: only errors in the code itself count
    loose = execdrv.Script()
    for n in range(4):
        f = os.path.join(d, "damaged%d.nc" % n)
        damaged(rng, good, f, fmt == "netcdf4")
        loose.add("new 1")
        loose.add("wout 1 %s %d" % (f, flux) if kind == "wout" else "rd 1 " + f)
        loose.set(1, "mboz", 3); loose.set(1, "nboz", 1)
        if kind == "wout": loose.add("run 1")
        loose.add("write 1 " + os.path.join(d, "damaged_out.nc"))
    judge_damaged(ctx, execute(ctx, loose, d), desc)
    return s, expect, ref, dumps, desc


# ---------------------------------------------------------------- calls in the wrong state

def case_state(ctx, rng, d):
    s = execdrv.Script()
    e = gen.complete(rng, ns_in=int(rng.integers(2, 6)), flux=True)
    e["mboz"], e["nboz"] = min(e["mboz"], 5), min(e["nboz"], 3)
    v = gen.vmec(rng, ns=4, mpol=2, ntor=1)
    wout = os.path.join(d, "wout.nc")
    ncio.write_wout(wout, v)
    out, ref, n = os.path.join(d, "o.nc"), None, len(e["compute_surfs"])
    s.add("new 0"); s.apply(0, e); s.add("run 0"); s.add("write 0 " + os.path.join(d, "ref.nc"))
    ref = s.dump(0, d)
    expect, dumps = {}, []

    def bad(name, *lines):
        for l in lines[:-1]: s.add(l)
        expect[s.add(lines[-1])] = ("state: " + name, "")

    todo = ["write new", "run new", "write after wout", "write after vmec", "write after failed boozmn", "surfs", "phip", "chi", "pres", "phi", "iota", "asym", "path", "ns", "write inputs", "no surfs", "write after failed wout", "write after run out of memory"]
    if e["asym"]: todo.remove("asym")
    for name in [todo[j] for j in rng.permutation(len(todo))[:13]]:
        s.add("new 1")
        w = "write 1 " + out
        if name == "write new": bad(name, w)
        elif name == "run new": bad(name, "run 1")
        elif name == "write inputs": s.apply(1, e); bad(name, w)
        elif name == "write after wout": s.apply(1, e); s.add("run 1"); bad(name, "wout 1 %s 1" % wout, w)
        elif name == "write after vmec": s.apply(1, e); s.add("run 1"); s.vmec(1, v, True); bad(name, w)
        elif name == "write after failed boozmn":
            s.apply(1, e); s.add("run 1"); expect[s.add("rd 1 " + wout)] = ("state: wrong kind", ""); bad(name, w)
        elif name == "write after failed wout":
            s.apply(1, e); s.add("run 1"); expect[s.add("wout 1 %s 1" % os.path.join(d, "ref.nc"))] = ("state: wrong kind", ""); bad(name, w)
        else:
            s.apply(1, e); s.add("run 1")
            if name == "surfs": s.set(1, "compute_surfs", np.zeros(n + int(rng.choice([-1, 1])), dtype=np.int32)); bad(name, w)
            elif name == "no surfs": s.set(1, "compute_surfs", np.zeros(0, dtype=np.int32)); s.add("run 1"); bad(name, w)
            elif name in ("phip", "chi", "pres", "phi"): s.set(1, name, np.ones(e["ns_in"] + int(rng.choice([0, 2, -1])))); bad(name, w)
            elif name == "iota": s.set(1, "iota", np.ones(e["ns_in"] + int(rng.choice([1, -1])))); bad(name, w)
            elif name == "asym": s.set(1, "asym", True); bad(name, w)
            elif name == "ns": s.set(1, "ns_in", e["ns_in"] + int(rng.choice([1, -1, 50]))); bad(name, w)
            elif name == "write after run out of memory":
                # in the middle of the transformation
                s.set(1, "mboz", 5000); s.set(1, "nboz", 0); expect[s.add("run 1")] = ("state: no memory", "")
                if rng.random() < 0.5: s.set(1, "mboz", e["mboz"]); s.set(1, "nboz", e["nboz"])
                bad(name, w)
            elif name == "path": bad(name, "write 1 " + os.path.join(d, "no", "dir.nc"))
        s.apply(1, e); s.add("run 1"); s.add("write 1 " + out)
        dumps.append((name, s.dump(1, d)))
    return s, expect, ref, dumps, gen.describe(e)


IGNORE = ("verbose",)


def case(ctx, i):
    rng = ctx.rng()
    d = ctx.dir()
    kind = ["run", "vmec", "wout", "boozmn", "run", "state", "wout", "boozmn"][i % 8]
    k = i // 8 if kind in ("vmec", "state") else i // 8 * 2 + (i % 8 >= 4)
    if kind == "run": s, expect, ref, dumps, desc = case_run(ctx, rng, d, k)
    elif kind == "vmec": s, expect, ref, dumps, desc = case_vmec(ctx, rng, d, k)
    elif kind == "state": s, expect, ref, dumps, desc = case_state(ctx, rng, d)
    else: s, expect, ref, dumps, desc = case_files(ctx, rng, d, kind, k)
    r = execute(ctx, s, d)
    if r.hang: raise Inconclusive("watchdog")
    # the call during which the process ended
    last = max(list(r.log) + [-1])
    nxt = [x for k in expect for x in (k if isinstance(k, tuple) else (k,)) if x > last]
    rep = execdrv.sanitizer_report(r)
    if rep and "LeakSanitizer: detected" in r.err:
        # the HDF5 library leaks when it opens garbage; leaks by the code itself are allocated outside the libraries
        own = [x for x in re.split(r"\n(?=(?:Direct|Indirect) leak)", r.err)[1:] if not re.search(r"libhdf5|libnetcdf", x)]
        if not own: rep = None; ctx.stat("runs with leaks inside libhdf5 only")
        else: rep = ("leak", own[0][:3000])
    if rep:
        inlib = "asan:SEGV" in rep[0] or "crash" in rep[0]
        top = re.search(r"#0 0x[0-9a-f]+ (in \S+ )?(.*)", rep[1])
        if inlib and top and "libnetcdf" in top.group(2) or top and "libhdf5" in top.group(2):
            raise Inconclusive("crash inside the library: " + top.group(0))
        return ctx.fail(rep[0], "%s\nduring %s, %s; %s" % (rep[1], [expect[k] for k in expect if (k if isinstance(k, int) else k[-1]) in nxt[:1]], desc, r.lines[last + 1][:80] if last + 1 < len(r.lines) else ""))
    if not r.complete: return ctx.fail("crash", "ended with %s after %s: %s; %s" % (r.rc, r.lines[last][:80] if last >= 0 else "-", r.err[-1500:], desc))
    allexp = set()
    for k, (name, det) in expect.items():
        ks = k if isinstance(k, tuple) else (k,)
        allexp |= set(ks)
        if not any(r.log.get(x, ("?",))[0] == "EXC" for x in ks):
            return ctx.fail("accepted:" + name.replace(" ", "_"), "%s %s was accepted; %s" % (name, det, desc))
        ctx.seen((name, str(desc)))
        ctx.stat("rejected: " + name.split(":")[0])
        ctx.sample("%s %s -> %s" % (name, det, [r.log[x][1] for x in ks if r.log[x][0] == "EXC"][0][:100]))
    # valid calls succeed
    for k, (st, tx) in sorted(r.log.items()):
        if st == "EXC" and k not in allexp:
            return ctx.fail("recovery-exception", "valid call %s after a rejected one raised %s; %s" % (r.lines[k][:80], tx, desc))
    A = execdrv.parse_dump(ref)
    for name, f in dumps:
        B = execdrv.parse_dump(f)
        df = [k for k in gen.diff(A, B) if k not in IGNORE]
        if df: return ctx.fail("recovery", "after a rejected %s and valid input again, %s differ from those of a new object; %s" % (name, df, desc))
        ctx.stat("recoveries")
    if kind == "state":
        a, b = os.path.join(d, "ref.nc"), os.path.join(d, "o.nc")
        ctx.check(hist.digest(a) == hist.digest(b), "recovery-file", "file written after rejected calls differs; %s" % desc)
