"""C20: a symmetric equilibrium gives the same results in asymmetric mode."""
import os, shutil
import numpy as np
import gen, hist, model, ncio, execdrv
import c05, c10, c18
from common import Inconclusive

BUILDS = ["rel", "omp"]
CASES = {"quick": 1200, "thorough": 18000}
RULE = ("random stellarator-symmetric equilibria, assigned, given to init_from_vmec or read from wout files, once as such and once as asymmetric ones whose additional amplitudes are zero (also -0.0): spectra, grids, profiles, files decoded by an "
        "independent reader, files read back, and printed reports are compared; on new objects and on objects with an earlier life; distinct by parameters")
ASSUMPTIONS = ["tolerances are those of the rounding analysis of C01"]

ZERO = [("bmns_b", "bmns_b"), ("rmns_b", "rmns_b"), ("zmnc_b", "zmnc_b"), ("numnc_b", "pmnc_b"), ("gmns_b", "gmns_b")]
EXACT = ["nfp", "ns_in", "ns_b", "mnboz", "mboz", "nboz", "xm_b", "xn_b", "compute_surfs", "s_in", "s_b", "iota", "Boozer_G", "Boozer_I", "Boozer_G_all", "Boozer_I_all", "aspect", "toroidal_flux", "phi", "phip", "chi", "pres",
         "mpol", "ntor", "mnmax", "mpol_nyq", "ntor_nyq", "mnmax_nyq", "xm", "xn", "xm_nyq", "xn_nyq"] + gen.SYM_MATS + gen.SYM_NYQ


def zeros(rng, shape):
    return np.zeros(shape) * (-1.0 if rng.random() < 0.3 else 1.0)


def tolerances(e, surfs):
    T = []
    for js in surfs: T.append(model.transform(e, int(js))[1])
    return T


def compare(ctx, s, a, T, what):
    """s: outputs in symmetric mode, a: in asymmetric mode."""
    w = [k for k in EXACT if not gen.same(s[k], a[k])]
    if w: ctx.fail("differs:" + w[0], "%s differ between the modes: %s, %s; %s" % (w, str(s[w[0]])[:200], str(a[w[0]])[:200], what)); return False
    for k in gen.OUT_MATS:
        x, y = s[k], a[k]
        if x.shape != y.shape: ctx.fail("shape:" + k, "%s has shape %s in symmetric and %s in asymmetric mode; %s" % (k, x.shape, y.shape, what)); return False
        for c in range(x.shape[1]):
            d = np.abs(x[:, c] - y[:, c])
            ctx.maxstat("difference/tolerance", d.max() / T[c][k])
            if not (d <= T[c][k]).all():
                j = int(np.nanargmax(np.where(np.isnan(d), np.inf, d)))
                ctx.fail("differs:" + k, "%s[%d,%d] (m=%d, n=%d) is %r in symmetric and %r in asymmetric mode, tolerance %.2g; %s" % (k, j, c, s["xm_b"][j], s["xn_b"][j], float(x[j, c]), float(y[j, c]), T[c][k], what)); return False
        ctx.stat("coefficients compared", x.size)
    for k, _ in ZERO:
        if s[k].size: ctx.fail("extra:" + k, "%s has shape %s in symmetric mode; %s" % (k, s[k].shape, what)); return False
        if a[k].shape != a["bmnc_b"].shape: ctx.fail("shape:" + k, "%s has shape %s in asymmetric mode; %s" % (k, a[k].shape, what)); return False
        for c in range(a[k].shape[1]):
            d = np.abs(a[k][:, c])
            ctx.maxstat("zero/tolerance", d.max() / T[c][k])
            if not (d <= T[c][k]).all(): ctx.fail("zero:" + k, "%s reaches %g in asymmetric mode, tolerance %.2g; %s" % (k, d.max(), T[c][k], what)); return False
    return True


def files(ctx, f, g, T, what):
    """Symmetric file f against asymmetric file g."""
    A, B = ncio.read_scipy(f)[1], ncio.read_scipy(g)[1]
    spectra = {n: k for n, k, _ in c10.MATS}
    extra = {n: k for n, k, _ in c10.AMATS}
    if set(B) - set(A) != set(extra) or set(A) - set(B): return ctx.fail("file-variables", "variables only in the symmetric file: %s, only in the asymmetric one: %s; %s" % (sorted(set(A) - set(B)), sorted(set(B) - set(A)), what))
    for n in A:
        x, y = A[n][0], B[n][0]
        if n == "lasym__logical__":
            if int(x) != 0 or int(y) != 1: return ctx.fail("file:lasym", "lasym__logical__ is %s and %s; %s" % (x, y, what))
        elif n in spectra:
            for c in range(x.shape[0]):
                if not (np.abs(x[c] - y[c]) <= T[c][spectra[n]]).all(): return ctx.fail("file:" + n, "%s differs by %g between the files; %s" % (n, np.abs(x[c] - y[c]).max(), what))
        elif A[n][1:3] != B[n][1:3] or x.tobytes() != y.tobytes(): return ctx.fail("file:" + n, "%s differs between the files: %s, %s; %s" % (n, str(x)[:200], str(y)[:200], what))
    for n, k in extra.items():
        x = B[n][0]
        for c in range(x.shape[0]):
            if not (np.abs(x[c]) <= T[c][k]).all(): return ctx.fail("file:" + n, "%s reaches %g; %s" % (n, np.abs(x[c]).max(), what))
    ctx.stat("pairs of files compared")


def case(ctx, i):
    import booz_xform
    rng = ctx.rng()
    d = ctx.dir()
    kind = i % 5
    if kind == 4: return reports(ctx, i, rng, d)
    objs = []
    prior = rng.random() < 0.4
    for k in range(2):
        b = booz_xform.Booz_xform(); b.verbose = 0
        if prior:
            with ctx.valid("an earlier run"):
                o = gen.complete(np.random.default_rng([i, 5]), asym=bool(rng.random() < 0.5))
                o["mboz"], o["nboz"] = min(o["mboz"], 5), min(o["nboz"], 3)
                gen.apply(b, o); b.run()
        objs.append(b)
    if kind in (0, 1):
        e = gen.complete(rng, asym=False, big=(i % 100 == 0))
        for b, asym in zip(objs, (False, True)):
            q = dict(e, asym=asym)
            if asym:
                for k in gen.ASY_MATS: q[k] = zeros(rng, (e["mnmax"], e["ns_in"]))
                for k in gen.ASY_NYQ: q[k] = zeros(rng, (e["mnmax_nyq"], e["ns_in"]))
            with ctx.valid("run", gen.describe(q)):
                gen.apply(b, q); b.run()
        what = "assigned, %s" % gen.describe(e)
    else:
        v = gen.vmec(rng, asym=False, mpol=int(rng.choice([1, 2, 3, 4])), ntor=int(rng.choice([0, 1, 2, 3])))
        w = dict(v, lasym__logical__=1)
        for k in gen.ASY_MATS: w[k] = zeros(rng, (v["mnmax"], v["ns"]))
        for k in gen.ASY_NYQ: w[k] = zeros(rng, (v["mnmax_nyq"], v["ns"]))
        flux = bool(rng.random() < 0.5)
        res = (int(rng.integers(1, 9)), int(rng.integers(0, 6)))
        surfs = gen.surfaces(rng, v["ns"] - 1)
        default = rng.random() < 0.2 and v["mpol"] * max(1, v["ntor"]) < 5
        with ctx.valid("loading and running"):
            for b, x, n in zip(objs, (v, w), "sa"):
                if kind == 2: hist.init_from_vmec(b, x, flux)
                else:
                    f = os.path.join(d, "wout_%s.nc" % n)
                    ncio.write_wout(f, x, str(rng.choice(sorted(ncio.FORMATS))))
                    b.read_wout(f, flux)
                if not default: b.mboz, b.nboz, b.compute_surfs = res[0], res[1], surfs
                b.run()
        what = "%s, flux %s, ns=%d mpol=%d ntor=%d nfp=%d, resolution %s, surfaces %s" % (["init_from_vmec", "read_wout"][kind - 2], flux, v["ns"], v["mpol"], v["ntor"], v["nfp"], "default" if default else res, "default" if default else list(surfs))
    s, a = gen.snapshot(objs[0]), gen.snapshot(objs[1])
    if s["asym"] or not a["asym"]: return ctx.fail("asym", "asym is %s and %s; %s" % (s["asym"], a["asym"], what))
    T = tolerances(gen.snapshot(objs[1], gen.INPUTS), s["compute_surfs"])
    if not compare(ctx, s, a, T, what): return
    if rng.random() < 0.6:
        f, g = os.path.join(d, "s.nc"), os.path.join(d, "a.nc")
        with ctx.valid("write_boozmn"): objs[0].write_boozmn(f); objs[1].write_boozmn(g)
        files(ctx, f, g, T, what)
        c, e2 = booz_xform.Booz_xform(), booz_xform.Booz_xform()
        c.verbose = e2.verbose = 0
        with ctx.valid("read_boozmn"): c.read_boozmn(f); e2.read_boozmn(g)
        compare(ctx, gen.snapshot(c), gen.snapshot(e2), T, "read back; " + what)
        ctx.stat("pairs read back")
    ctx.seen(what)
    ctx.sample(what)
    shutil.rmtree(d, ignore_errors=True)


def reports(ctx, i, rng, d):
    e = gen.complete(rng, asym=False)
    q = dict(e, asym=True)
    for k in gen.ASY_MATS: q[k] = zeros(rng, (e["mnmax"], e["ns_in"]))
    for k in gen.ASY_NYQ: q[k] = zeros(rng, (e["mnmax_nyq"], e["ns_in"]))
    out = []
    what = "report, %s" % gen.describe(e)
    for n, x in (("s", e), ("a", q)):
        s, f, nc = c05.script(x, d, 1, 0, n)
        r = execdrv.run(ctx.info["omp"], s, d, {"OMP_NUM_THREADS": str(int(rng.integers(1, 6)))})
        if not c05.ok(ctx, r, "run", x): return
        D = execdrv.parse_dump(f)
        recs, rest, problem = c18.parse(r.out)
        if problem: raise Inconclusive("the report cannot be parsed (see C18): " + problem)
        out.append((D, {x[1]: x for x in recs}, nc))
    T = tolerances(q, e["compute_surfs"])
    if not compare(ctx, out[0][0], out[1][0], T, what): return
    files(ctx, out[0][2], out[1][2], T, what)
    exp = c18.expected(e, out[0][0])
    if set(out[0][1]) != set(out[1][1]): return ctx.fail("report", "the reports cover the surfaces %s and %s; %s" % (sorted(out[0][1]), sorted(out[1][1]), what))
    for jb, A in out[0][1].items():
        B = out[1][1][jb]
        if A[2] != B[2]: return ctx.fail("report", "the reports name the surfaces %d and %d for js_b=%d; %s" % (A[2], B[2], jb, what))
        for k in range(12):
            # both are rounded, possibly to either side
            if "n" in A[3][k] or "n" in B[3][k] or not abs(float(A[3][k]) - float(B[3][k])) <= 2 * max(c18.half_ulp(A[3][k]), c18.half_ulp(B[3][k])) * (1 + 1e-9) * (abs(float(A[3][k]) - float(B[3][k])) > 0) + 4 * exp[jb][1][k]:
                return ctx.fail("report", "%s is printed as %s in symmetric and %s in asymmetric mode for js_b=%d; %s" % (c18.NAMES[k], A[3][k], B[3][k], jb, what))
            if A[3][k] == B[3][k]: ctx.stat("printed numbers equal")
            else: ctx.stat("printed numbers different by rounding")
    ctx.seen(what)
    shutil.rmtree(d, ignore_errors=True)
