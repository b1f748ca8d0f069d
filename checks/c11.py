"""C11: boozmn files by an independent writer are loaded faithfully; write -> read -> write is the identity."""
import contextlib, os
import numpy as np
import gen, hist, ncio
from c10 import check_file
from common import odd_path, without_override

BUILDS = ["rel"]
CASES = {"quick": 3000, "thorough": 45000}
RULE = ("(a) boozmn files with random content written by libnetcdf's C API in five formats, with and without chi_b, aspect_b and unrelated variables, in random order and with integers stored as other types; "
        "(b) results of random transformations written, read back into new and used objects, and rewritten; distinct by parameters")
ASSUMPTIONS = ["files are well formed"]
FORMATS = sorted(ncio.FORMATS)
EPS = np.finfo(float).eps


def compare_loaded(ctx, d, s, what, chi=True, aspect=True):
    def bad(k, msg): ctx.fail("load:" + k, "%s %s; %s" % (k, msg, what))
    want = dict(asym=bool(d["asym"]), nfp=d["nfp"], mboz=d["mboz"], nboz=d["nboz"], mnboz=len(d["xm_b"]), ns_in=d["ns_in"], ns_b=len(d["compute_surfs"]),
                aspect=d["aspect"] if aspect else 0.0, toroidal_flux=float(d["phi"][-1]))
    for k, v in want.items():
        if s[k] != v: bad(k, "is %r, expected %r" % (s[k], v))
    arr = {k: d[k] for k in ["xm_b", "xn_b", "compute_surfs", "iota", "Boozer_G_all", "Boozer_I_all", "phi", "phip", "pres"] + gen.OUT_MATS}
    arr["chi"] = d["chi"] if chi else np.zeros(d["ns_in"] + 1)
    cs = np.asarray(d["compute_surfs"])
    arr["Boozer_G"], arr["Boozer_I"] = d["Boozer_G_all"][cs], d["Boozer_I_all"][cs]
    for k in gen.OUT_ASYM: arr[k] = d[k] if d["asym"] else np.zeros((0, 0))
    for k, w in arr.items():
        w = np.asarray(w)
        if s[k].shape != w.shape: bad(k, "has shape %s, expected %s" % (s[k].shape, w.shape))
        elif not np.array_equal(s[k], w):
            q = np.argwhere(s[k] != w)[0]
            bad(k, "differs at %s: %r, expected %r" % (q, s[k][tuple(q)], w[tuple(q)]))
        ctx.stat("numbers", s[k].size)
    h = 1.0 / d["ns_in"]
    for k, w in (("s_in", (np.arange(d["ns_in"]) + 0.5) * h), ("s_b", (cs + 0.5) * h)):
        if s[k].shape != w.shape or (w.size and np.max(np.abs(s[k] - w)) > 8 * EPS): bad(k, "is %s, expected %s" % (s[k][:4], w[:4]))


def used_object(rng, d):
    import booz_xform
    b = booz_xform.Booz_xform()
    b.verbose = 0
    r = rng.random()
    if r < 0.4: return b
    if r < 0.7:
        e = gen.complete(rng, ns_in=int(rng.integers(1, 9)))
        e["mboz"], e["nboz"] = min(e["mboz"], 5), min(e["nboz"], 3)
        gen.apply(b, e)
        b.run()
    else:
        f = os.path.join(d, "earlier.nc")
        ncio.write_boozmn(f, gen.results(rng))
        b.read_boozmn(f)
    return b


def case(ctx, i):
    import booz_xform
    rng = ctx.rng()
    more = rng.spawn(1)[0]
    d = ctx.dir()
    f, g, h = (odd_path(rng, d, x) for x in ("a.nc", "b.nc", "c.nc"))
    if i % 2 == 0:
        kw = {}
        if i % 20 == 0: kw = dict(ns_in=1)
        if i % 20 == 2: kw = dict(mboz=1, nboz=0)
        if i % 20 == 4: kw = dict(mboz=int(rng.integers(15, 30)), nboz=int(rng.integers(10, 20)), ns_in=3)
        if i % 20 == 6: kw = dict(ns_in=60)
        r = gen.results(rng, **kw)
        if i % 20 in (8, 18) and len(r["xm_b"]) > 1:
            # only some of the modes, in an order of their own
            n = len(r["xm_b"])
            keep = np.concatenate([[0], 1 + more.permutation(n - 1)[:int(more.integers(0, n))]])
            for k in ["xm_b", "xn_b"] + gen.OUT_MATS + (gen.OUT_ASYM if r["asym"] else []): r[k] = r[k][keep]
            ctx.stat("files with a list of modes of their own")
        chi, aspect = bool(rng.random() < 0.6), bool(rng.random() < 0.6)
        fmt = FORMATS[(i // 2) % 5]
        it = str(rng.choice(["int", "int", "short", "double", "float"]))
        if it in ("short", "float") and max(np.abs(r["xn_b"]).max(initial=0), r["nfp"]) > (32767 if it == "short" else 2 ** 24): it = "int"
        what = "format=%s ints=%s chi=%s aspect=%s asym=%d nfp=%d mboz=%d nboz=%d ns_in=%d surfs=%s" % (fmt, it, chi, aspect, r["asym"], r["nfp"], r["mboz"], r["nboz"], r["ns_in"], [int(x) for x in r["compute_surfs"]][:20])
        order = (lambda n: rng.permutation(n)) if rng.random() < 0.5 else None
        w = dict(r)
        if r["asym"] and rng.random() < 0.25: w["asym"] = int(rng.choice([-1, 2, 100]))   # any non-zero value means true
        ncio.write_boozmn(f, w, fmt, chi=chi, aspect=aspect, extras=bool(rng.random() < 0.5), order=order, int_type=it)
        dg = hist.digest(f)
        with ctx.valid("read_boozmn", what):
            b = used_object(rng, d)
            guard = contextlib.nullcontext()
            if i % 6 == 0:
                # a file, in a directory, that may be read and not written
                os.chmod(f, 0o444); os.chmod(d, 0o555)
                guard = without_override()
                ctx.stat("read-only files")
            try:
                with guard: b.read_boozmn(f)
            finally: os.chmod(d, 0o755)
            s = gen.snapshot(b)
        compare_loaded(ctx, r, s, what, chi, aspect)
        if hist.digest(f) != dg: ctx.fail("file", "read_boozmn modified the file; %s" % what)
        with ctx.valid("write_boozmn of a loaded file", what):
            b.write_boozmn(g)
        check_file(ctx, g, s, what, s["phip"])
    else:
        e = gen.complete(rng)
        e["mboz"], e["nboz"] = min(e["mboz"], 9), min(e["nboz"], 6)
        if rng.random() < 0.7: e["s_in"] = (np.arange(e["ns_in"]) + 0.5) / e["ns_in"]
        what = str(gen.describe(e))
        with ctx.valid("write and read", what):
            b = gen.apply(booz_xform.Booz_xform(), e)
            b.run()
            b.write_boozmn(g)
            s = gen.snapshot(b)
            c = used_object(rng, d)
            c.read_boozmn(g)
            t = gen.snapshot(c)
        r = {k: s[k] for k in ["asym", "nfp", "mboz", "nboz", "ns_in", "aspect", "iota", "compute_surfs", "xm_b", "xn_b", "Boozer_G_all", "Boozer_I_all"] + gen.OUT_MATS + gen.OUT_ASYM}
        for k in ("phi", "phip", "chi", "pres"): r[k] = s[k] if len(s["phip"]) else np.zeros(s["ns_in"] + 1)
        compare_loaded(ctx, r, t, what)
        b = c
    # read -> write reproduces the file, any number of times
    with ctx.valid("write, read, write", what):
        c = used_object(rng, d)
        c.read_boozmn(g)
        c.write_boozmn(h)
    # (without profiles the first file describes its zeros as placeholders, so there only the data is the same)
    if len(s["phip"]) and open(g, "rb").read() != open(h, "rb").read(): ctx.fail("roundtrip", "write -> read -> write changed the file; %s" % what)
    (d1, V1), (d2, V2) = ncio.read_scipy(g), ncio.read_scipy(h)
    w = [k for k in sorted(set(V1) | set(V2)) if k not in V1 or k not in V2 or V1[k][0].tobytes() != V2[k][0].tobytes() or V1[k][1:3] != V2[k][1:3]]
    if w or d1 != d2: ctx.fail("roundtrip-data", "write -> read -> write changed %s; %s" % (w, what))
    with ctx.valid("second round trip", what):
        c = used_object(rng, d)
        c.read_boozmn(h)
        c.write_boozmn(f + "2")
    if open(f + "2", "rb").read() != open(h, "rb").read(): ctx.fail("roundtrip2", "a second read -> write changed the file; %s" % what)
    ctx.stat("round trips")
    ctx.seen(what)
    ctx.sample(what)
