"""C10: every boozmn file is decoded by an independent reader and compared with the object."""
import os
import numpy as np
import gen, hist, ncio
from common import odd_path

BUILDS = ["rel"]
CASES = {"quick": 3000, "thorough": 45000}
RULE = ("files written after a transformation of random equilibria (assigned, or read from wout files with and without flux), after reading a boozmn file with arbitrary numbers, and after histories "
        "with changes of symmetry and size; target paths that do not exist or hold a larger, smaller, foreign or invalid file; decoded with scipy and compared variable by variable; distinct by parameters")
ASSUMPTIONS = ["scipy.io.netcdf_file decodes the classic format correctly"]

MATS = [("bmnc_b", "bmnc_b", 1), ("rmnc_b", "rmnc_b", 1), ("zmns_b", "zmns_b", 1), ("pmns_b", "numns_b", -1), ("gmn_b", "gmnc_b", 1)]
AMATS = [("bmns_b", "bmns_b", 1), ("rmns_b", "rmns_b", 1), ("zmnc_b", "zmnc_b", 1), ("pmnc_b", "numnc_b", -1), ("gmns_b", "gmns_b", 1)]


def check_file(ctx, f, s, what, phip_before=None):
    """s: snapshot of the object that was written."""
    def bad(k, msg): ctx.fail("file:" + k, "%s %s; %s" % (k, msg, what))
    with open(f, "rb") as h: magic = h.read(4)
    if magic not in (b"CDF\x01",): return bad("format", "the file starts with %r, not a classic NetCDF file" % magic)
    try:
        dims, V = ncio.read_scipy(f)
    except Exception as ex:
        return bad("format", "an independent reader fails on the file: %s: %s" % (type(ex).__name__, ex))
    N, ns, R = s["mnboz"], len(s["compute_surfs"]), s["ns_in"] + 1
    for k, n in (("radius", R), ("mn_mode", N), ("mn_modes", N), ("comput_surfs", ns), ("pack_rad", ns)):
        if dims.get(k) != n: bad("dim " + k, "is %r, expected %d" % (dims.get(k), n))
    MN, SU, RA = [("mn_mode",), ("mn_modes",)], [("comput_surfs",), ("pack_rad",)], [("radius",)]

    def var(name, want, dimlist, types):
        if name not in V: return bad(name, "is missing")
        a, dm, tc, at = V[name]
        if dm not in dimlist: return bad(name, "has dimensions %s" % (dm,))
        if tc not in types: return bad(name, "has type %s" % tc)
        want = np.asarray(want)
        if a.shape != want.shape: return bad(name, "has shape %s, expected %s" % (a.shape, want.shape))
        if tc == "d":
            if (a + 0.0).tobytes() != (np.ascontiguousarray(want, dtype=float) + 0.0).tobytes():
                q = np.argwhere(~((a == want) | (np.isnan(a) & np.isnan(want))))
                if len(q) or a.ndim == 0: return bad(name, "differs from the object at %s: %r, expected %r" % (q[:1], a[tuple(q[0])] if len(q) else a, want[tuple(q[0])] if len(q) else want))
        elif not np.array_equal(a, want): return bad(name, "is %s, expected %s" % (a.ravel()[:6], want.ravel()[:6]))
        ctx.stat("numbers", int(a.size))
    for n, v in (("lasym__logical__", int(s["asym"])), ("ns_b", R), ("nfp_b", s["nfp"]), ("mboz_b", s["mboz"]), ("nboz_b", s["nboz"]), ("mnboz_b", N)): var(n, v, [()], "i")
    var("aspect_b", s["aspect"], [()], "d")
    for n in ("rmax_b", "rmin_b", "betaxis_b"): var(n, 0.0, [()], "d")
    var("jlist", s["compute_surfs"] + 2, SU, "i")
    var("ixm_b", s["xm_b"], MN, "i")
    var("ixn_b", s["xn_b"], MN, "i")
    pre = lambda a: np.concatenate([[0.0], a])
    var("iota_b", pre(s["iota"]), RA, "d")
    var("buco_b", pre(s["Boozer_I_all"]), RA, "d")
    var("bvco_b", pre(s["Boozer_G_all"]), RA, "d")
    var("beta_b", np.zeros(R), RA, "d")
    for k in ("phip", "chi", "pres", "phi"):
        w = np.array(s[k] if len(s["phip"]) else np.zeros(R))
        if k == "phip":
            if phip_before is not None and len(phip_before): w = np.array(phip_before)
            w[0] = 0.0
        var(k + "_b", w, RA, "d")
    MD = [("pack_rad", "mn_modes"), ("pack_rad", "mn_mode"), ("comput_surfs", "mn_modes"), ("comput_surfs", "mn_mode")]
    for n, k, sg in MATS: var(n, (sg * s[k]).T, MD, "d")
    for n, k, sg in AMATS:
        if s["asym"]: var(n, (sg * s[k]).T, MD, "d")
        elif n in V: bad(n, "is present for a symmetric configuration")
    if "version" not in V or V["version"][2] != "c": bad("version", "is missing or not text")
    else:
        t = V["version"][0].tobytes()
        import booz_xform._booz_xform as ext
        if b"booz_xform" not in t or ext.__version__.encode() not in t or b"\0" in t.rstrip(b"\0"): bad("version", "is %r" % t)
    size = os.path.getsize(f)
    ctx.stat("files")
    return V


def case(ctx, i):
    import booz_xform
    rng = ctx.rng()
    d = ctx.dir()
    b = booz_xform.Booz_xform()
    b.verbose = 0
    kind = i % 6
    what = "kind %d" % kind
    with ctx.valid("preparation"):
        if kind in (0, 1, 2):
            e = gen.complete(rng, asym=bool(rng.random() < 0.5))
            if kind == 2:
                # an earlier life with the other symmetry and other sizes
                g = gen.complete(rng, asym=not e["asym"], ns_in=3)
                g["mboz"], g["nboz"] = 4, 2
                gen.apply(b, g); b.run()
                if rng.random() < 0.5: b.write_boozmn(os.path.join(d, "old.nc"))
            if rng.random() < 0.2: e["compute_surfs"] = e["compute_surfs"][:1]
            if len(e["phi"]):
                for k in ("phi", "chi", "pres", "phip"):
                    if rng.random() < 0.12: e[k][:] = 0
            if rng.random() < 0.1:
                # surfaces that are not requested can hold anything
                o = np.setdiff1d(np.arange(e["ns_in"]), e["compute_surfs"])
                e["iota"][o] = rng.choice([np.nan, np.inf, 1e300, 5e-324], len(o))
                for k in ("bsubumnc", "bsubvmnc"): e[k][0, o] = rng.choice([np.nan, -np.inf, 1e-300, -0.0], len(o))
            gen.apply(b, e); b.run()
            what += " " + str(gen.describe(e))
        elif kind in (3, 4):
            v = gen.vmec(rng)
            f = os.path.join(d, "wout.nc")
            ncio.write_wout(f, v)
            flux = bool(rng.random() < 0.6)
            b.read_wout(f, flux)
            b.mboz, b.nboz = min(b.mboz, 7), min(b.nboz, 4)
            if kind == 4: b.compute_surfs = gen.surfaces(rng, v["ns"] - 1)
            b.run()
            what += " wout flux=%s asym=%d ns=%d mpol=%d ntor=%d" % (flux, v["lasym__logical__"], v["ns"], v["mpol"], v["ntor"])
        else:
            r = gen.results(rng)
            # numbers that only an exact copy preserves
            for k in gen.OUT_MATS:
                r[k].flat[0] = rng.choice([5e-324, -0.0, 1.7976931348623157e308, -2.2250738585072014e-308, 0.1])
            f = os.path.join(d, "in.nc")
            ncio.write_boozmn(f, r, fmt=str(rng.choice(["classic", "netcdf4"])))
            b.read_boozmn(f)
            what += " read asym=%d nfp=%d mboz=%d nboz=%d ns_in=%d surfs=%s" % (r["asym"], r["nfp"], r["mboz"], r["nboz"], r["ns_in"], list(r["compute_surfs"]))
    out = odd_path(rng, d, str(rng.choice(["boozmn.nc", "a b.nc", "x" * 100 + ".nc", "no_suffix", "\u00fcber.nc"])))
    old = int(rng.integers(0, 8))
    if old == 1: open(out, "wb").write(b"x" * 10)
    elif old == 2: open(out, "wb").write(os.urandom(1) * 3000000)
    elif old == 3: ncio.write_boozmn(out, gen.results(rng, asym=True, mboz=9, nboz=6, ns_in=14), fmt="netcdf4")
    elif old == 4: ncio.write_boozmn(out, gen.results(rng, asym=True, mboz=9, nboz=6, ns_in=14))
    elif old == 5: open(out, "wb").close()
    elif old == 6:
        # a link to a file elsewhere: that file is written
        os.mkdir(os.path.join(d, "sub"))
        open(os.path.join(d, "sub", "target.nc"), "wb").write(b"y" * 50)
        os.symlink(os.path.join(d, "sub", "target.nc"), out)
    before = gen.snapshot(b)
    with ctx.valid("write_boozmn", what):
        b.write_boozmn(out)
        s = gen.snapshot(b)
    check_file(ctx, out, s, what + " over old kind %d" % old, before["phip"])
    if old == 6 and not os.path.islink(out): ctx.fail("link", "the link was replaced; %s" % what)
    w = [k for k in gen.diff(before, s) if k != "phip"]
    if w: ctx.fail("changed:" + w[0], "write_boozmn changed %s; %s" % (w, what))
    # nothing else appears beside the file, and nothing of an old file remains: same bytes as at a new path
    out2 = os.path.join(d, "fresh.nc")
    with ctx.valid("write_boozmn", what): b.write_boozmn(out2)
    if open(out, "rb").read() != open(out2, "rb").read(): ctx.fail("overwrite", "the file depends on what was there before (old kind %d); %s" % (old, what))
    ctx.stat("old kind %d" % old)
    ctx.seen(what)
    ctx.sample(what)
