"""C09: wout files written by libnetcdf's C API in all flavours, read by the code."""
import contextlib, os
import numpy as np
import gen, ncio, hist
import c08
from common import odd_path, without_override

BUILDS = ["rel"]
CASES = {"quick": 3000, "thorough": 45000}
RULE = ("random VMEC data written as wout files: classic, 64-bit offset, CDF-5, NetCDF-4 and NetCDF-4 classic model; integers stored as int, short, byte, double, int64; reals as double or (exactly representable) "
        "float; unlimited radius dimension; random variable order; unrelated variables; with and without attributes; read with and without flux into new and used objects; distinct by (format, types, parameters)")
ASSUMPTIONS = ["files are well formed"]
FORMATS = sorted(ncio.FORMATS)


def case(ctx, i):
    import booz_xform
    rng = ctx.rng()
    d = ctx.dir()
    f = odd_path(rng, d, "wout_%d.nc" % i)
    fmt = FORMATS[i % len(FORMATS)]
    kw = {}
    if i % 12 == 5: kw["ns"] = 2
    if i % 12 == 6: kw.update(ns=int(rng.integers(40, 100)))
    if i % 12 == 7: kw.update(mpol=1, ntor=0)
    v = gen.vmec(rng, **kw)
    if v["ns"] == v["mnmax"]: ctx.stat("square matrices")
    types = {}
    r = rng.random()
    ints = ["double", "int", "short", "float"] + (["int64"] if fmt in ("cdf5", "netcdf4") else [])
    if r < 0.6:
        for k in ("xm", "xn", "xm_nyq", "xn_nyq"): types[k] = str(rng.choice(ints))
    if rng.random() < 0.3:
        for k in ("ns", "nfp", "mpol", "mnmax", "lasym__logical__"): types[k] = str(rng.choice(["int", "short", "double"] + (["byte"] if k in ("nfp", "lasym__logical__") else [])))
    if rng.random() < 0.25:
        for k in ("rmnc", "zmns", "bmnc", "bsubvmnc", "lmns"):
            types[k] = "float"
            v[k] = np.asfortranarray(v[k].astype(np.float32).astype(float))
    if rng.random() < 0.2:
        # numbers that only an exact copy preserves
        for k in ("bmnc", "bsubumnc", "bsubvmnc", "lmns", "iotas", "chi", "pres", "phi"):
            if k in types: continue
            v[k].flat[-1 - int(rng.integers(min(3, v[k].size)))] = rng.choice([1e30, -3e37, 9.969209968386869e36, 1e300, 5e-324, -0.0, np.inf, 1e-310, 0.1])
    flux_vars = rng.random() < 0.85
    flux = bool(rng.random() < 0.5) and flux_vars
    vv = v if flux_vars else {k: x for k, x in v.items() if k not in ("phi", "phipf", "chi", "pres")}
    order = (lambda n: rng.permutation(n)) if rng.random() < 0.5 else None
    if v["lasym__logical__"] and rng.random() < 0.2:
        # any non-zero value means true
        vv = dict(vv, lasym__logical__=int(rng.choice([-1, 2, 100])))
    dims, V = ncio.wout_vars(vv, int_types=types, extras=bool(rng.random() < 0.6), order=order)
    if not v["lasym__logical__"] and rng.random() < 0.3:
        # asymmetric arrays in the file of a symmetric equilibrium have to be ignored
        V += [ncio.Var(k, np.full((v["ns"], v["mnmax"]), 7.5), ["radius", "mn_mode"]) for k in ("rmns", "zmnc", "lmnc")]
    unlimited = fmt in ("classic", "netcdf4", "64bit") and rng.random() < 0.15
    if unlimited: dims["radius"] = None
    ncio.write(f, dims, V, fmt, attrs=bool(rng.random() < 0.7))
    h = hist.digest(f)
    b = booz_xform.Booz_xform()
    b.verbose = 0
    used = rng.random() < 0.4
    what = "format=%s types=%s unlimited=%s flux=%s used=%s asym=%d ns=%d mpol=%d ntor=%d nfp=%d" % (fmt, sorted(types.items())[:4], unlimited, flux, used, v["lasym__logical__"], v["ns"], v["mpol"], v["ntor"], v["nfp"])
    if used:
        with ctx.valid("earlier use"):
            w = gen.vmec(rng)
            g = os.path.join(d, "old.nc")
            ncio.write_wout(g, w)
            b.read_wout(g, bool(rng.random() < 0.5))
            if rng.random() < 0.3: b.mboz, b.nboz = 3, 1; b.compute_surfs = np.array([0], dtype=np.int32); b.run()
    guard = contextlib.nullcontext()
    if i % 3 == 0:
        # a file, in a directory, that may be read and not written
        os.chmod(f, 0o444); os.chmod(d, 0o555)
        guard = without_override()
        ctx.stat("read-only files")
    u = rng.random()
    with ctx.valid("read_wout", what):
        try:
            with guard:
                if u < 0.3: b.read_wout(flux=flux, filename=f)
                elif flux or u < 0.6: b.read_wout(f, flux)
                else: b.read_wout(f)      # the default is not to read the flux
        finally: os.chmod(d, 0o755)
        s = gen.snapshot(b)
    c08.compare(ctx, v, flux, s, what)
    for k in ("nfp", "mpol", "ntor", "mnmax", "mnmax_nyq", "aspect"):
        if s[k] != v[k]: ctx.fail("scalar:" + k, "%s is %r, in the file %r; %s" % (k, s[k], v[k], what))
    if s["asym"] != bool(v["lasym__logical__"]): ctx.fail("asym", "asym is %r; %s" % (s["asym"], what))
    for k in ("xm", "xn", "xm_nyq", "xn_nyq"):
        if not np.array_equal(s[k], v[k]): ctx.fail("modes:" + k, "%s differs from the file; %s" % (k, what))
    if s["mpol_nyq"] != v["xm_nyq"][-1] or s["ntor_nyq"] * v["nfp"] != v["xn_nyq"][-1]: ctx.fail("nyquist", "mpol_nyq, ntor_nyq are %d, %d; %s" % (s["mpol_nyq"], s["ntor_nyq"], what))
    if hist.digest(f) != h: ctx.fail("file", "read_wout modified the file; %s" % what)
    # and the data can be transformed
    if i % 4 == 0 and v["ns"] < 20:
        with ctx.valid("run after read_wout", what):
            b.mboz, b.nboz = 4, 2
            b.run()
    ctx.stat("format " + fmt)
    ctx.seen(what)
    ctx.sample(what)
