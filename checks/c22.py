"""C22: what the plots show, against an independent evaluation of the results."""
import os, re, shutil, sys, types, warnings
import numpy as np
import gen, hist, ncio
from common import Harness, Inconclusive

BUILDS = ["rel"]
CASES = {"quick": 1600, "thorough": 40000}
RULE = ("random results (run, read from files written here or by an independent writer; both symmetries, any nfp, single modes and surfaces, surfaces in any order), every plotting function with random options, from the object and from its file; the "
        "contents of the real matplotlib axes (lines with data, colours, labels; arguments of contour and contourf), and of the traces given to a recording stand-in for plotly, are compared with independent evaluations; "
        "objects and files compared before and after; distinct by results and options")
ASSUMPTIONS = ["plotly is not installed: a stand-in records the traces", "in asymmetric mode symplot and modeplot show the cosine amplitudes", "the helicity to remove is given in terms of xm_b and xn_b"]

rec = []


class Trace:
    def __init__(self, kind, args, kw): self.kind, self.kw = kind, kw


class Figure:
    def __init__(self, data=None, *a, **kw): self.data = list(data) if data is not None else []
    def add_trace(self, t, *a, **kw): self.data.append(t); return self
    def add_traces(self, t, *a, **kw): self.data += list(t); return self
    def __getattr__(self, n): return lambda *a, **kw: self


def worker_setup(ctx):
    m, g = types.ModuleType("plotly"), types.ModuleType("plotly.graph_objects")
    for n in ("Surface", "Scatter3d"):
        setattr(g, n, (lambda n: lambda *a, **kw: Trace(n, a, kw))(n))
    g.Figure = Figure
    m.graph_objects = g
    sys.modules["plotly"], sys.modules["plotly.graph_objects"] = m, g
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.axes as ma
    for n in ("contour", "contourf"):
        def wrap(n, old):
            def f(self, *a, **kw):
                rec.append((n, a, kw))
                return old(self, *a, **kw)
            return f
        setattr(ma.Axes, n, wrap(n, getattr(ma.Axes, n)))


def amplitude(m, n, c, s, th, ze):
    """Series at all points, independent of the order of the loops in the code."""
    A = th[..., None] * np.asarray(m, float) - ze[..., None] * np.asarray(n, float)
    r = np.zeros(th.shape)
    if c is not None: r = r + np.cos(A) @ c
    if s is not None: r = r + np.sin(A) @ s
    return r


def close(a, b, scale):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool((np.abs(a - b) <= 1e-11 * scale + 1e-300).all())


def objects(ctx, i, rng, d):
    """(b, file or None, description)"""
    import booz_xform
    b = booz_xform.Booz_xform()
    b.verbose = 0
    kind = i % 4
    with ctx.valid("preparation"):
        if kind == 3:
            r = gen.results(rng, ns_in=int(rng.choice([1, 2, 5, 11])))
            f = os.path.join(d, "boozmn_foreign.nc")
            ncio.write_boozmn(f, r, fmt=str(rng.choice(["classic", "netcdf4"])))
            b.read_boozmn(f)
            return b, f, "foreign file asym=%d nfp=%d mboz=%d nboz=%d surfaces %s" % (r["asym"], r["nfp"], r["mboz"], r["nboz"], list(r["compute_surfs"]))
        if kind == 2:
            v = gen.vmec(rng, mpol=int(rng.integers(1, 4)), ntor=int(rng.integers(0, 3)))
            hist.init_from_vmec(b, v, True)
            b.mboz, b.nboz = int(rng.integers(1, 7)), int(rng.integers(0, 5))
            b.compute_surfs = gen.surfaces(rng, v["ns"] - 1)
        else:
            e = gen.complete(rng, scale=False)
            e["mboz"], e["nboz"] = min(e["mboz"], 8), min(e["nboz"], 5)
            if rng.random() < 0.25: e["nboz"] = 1
            gen.apply(b, e)
        b.run()
        f = os.path.join(d, "boozmn_own.nc")
        b.write_boozmn(f)
    return b, f, str(gen.describe(gen.snapshot(b, gen.INPUTS)))


def case(ctx, i):
    import booz_xform, matplotlib.pyplot as plt
    rng = ctx.rng()
    d = ctx.dir()
    b, f, what = objects(ctx, i, rng, d)
    data = open(f, "rb").read()
    which = ["surfplot", "symplot", "modeplot", "wireplot"][(i // 4) % 4]
    for src in ["object", "file"] + ["rewritten file"] * (rng.random() < 0.3):
        if src == "rewritten file":
            # another configuration under the same name
            b, f2, what = objects(ctx, i, rng, d)
            if f2 != f: raise Harness("another name")
            data = open(f, "rb").read()
        s = gen.snapshot(b)
        plt.close("all")
        del rec[:]
        x = b if src == "object" else f
        given = s
        if src != "object":
            # the format has no radial coordinate: a file stands for uniform grids (C11 decides what is loaded)
            c = booz_xform.Booz_xform()
            c.verbose = 0
            with ctx.valid("reading"): c.read_boozmn(f)
            given = dict(s, s_b=np.array(c.s_b))
        r = np.random.default_rng([ctx.seed, i, 77])
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            good = {"surfplot": surf, "symplot": sym, "modeplot": mode, "wireplot": wire}[which](ctx, r, x, given, plt, "%s from %s, %s" % (which, src, what), src)
        w = gen.diff(s, gen.snapshot(b))
        if w: ctx.fail("changed:" + which, "%s changed %s of the object; %s" % (which, w, what))
        if open(f, "rb").read() != data: ctx.fail("file-changed:" + which, "%s changed the file; %s" % (which, what))
        if not good: return
        ctx.stat("%s from %s" % (which, src))
    ctx.seen((which, what, i % 4))
    ctx.sample((which, what))
    plt.close("all")
    shutil.rmtree(d, ignore_errors=True)


def opt(r, kw, name, p, values):
    if r.random() < p:
        kw[name] = values[int(r.integers(len(values)))]
    return kw.get(name)


def surf(ctx, r, x, s, plt, what, src):
    import booz_xform
    kw = {}
    ns = s["bmnc_b"].shape[1]
    js = opt(r, kw, "js", 0.7, [int(k) for k in range(ns)] + [-1, ns - 1])
    js = 0 if js is None else js
    fill = opt(r, kw, "fill", 0.6, [True, False])
    nt = opt(r, kw, "ntheta", 0.7, [2, 3, 7, 20, 51]) or 50
    nz = opt(r, kw, "nphi", 0.7, [2, 3, 8, 21, 90]) or 90
    nc = opt(r, kw, "ncontours", 0.5, [1, 3, 10, 30]) or 25
    cm = opt(r, kw, "cmap", 0.4, ["jet", "viridis"])
    what += ", options %s" % kw
    ze, th = np.linspace(0, 2 * np.pi / s["nfp"], nz), np.linspace(0, 2 * np.pi, nt)
    P, T = np.meshgrid(ze, th)
    c = s["bmnc_b"][:, js]
    sn = s["bmns_b"][:, js] if s["asym"] else None
    B = amplitude(s["xm_b"], s["xn_b"], c, sn, T, P)
    def draw():
        """matplotlib cannot draw a colour bar for contours of data that are constant up to rounding errors."""
        try: (plt.contour if fill is False else plt.contourf)(P, T, B, nc); plt.colorbar()
        except Exception: return False
        finally:
            plt.close("all")
            del rec[:]
        return True
    if np.ptp(B) <= 1e-12 * np.abs(B).max() or not draw():
        ctx.stat("data that matplotlib cannot draw")
        return True
    with ctx.valid("surfplot", what): booz_xform.surfplot(x, **kw)
    if len(rec) != 1: ctx.fail("surf:calls", "%d contour plots; %s" % (len(rec), what)); return False
    n, a, k = rec[0]
    if n != ("contour" if fill is False else "contourf"): ctx.fail("surf:fill", "drawn with %s; %s" % (n, what)); return False
    if len(a) < 3: ctx.fail("surf:arguments", "%d positional arguments; %s" % (len(a), what)); return False
    X, Y, Z = [np.asarray(q, float) for q in a[:3]]
    if X.ndim == 1: X, Y = np.meshgrid(X, Y)
    if X.shape == (nz, nt) and not close(X, P, 7): X, Y, Z = X.T, Y.T, Z.T
    if not close(X, P, 7) or not close(Y, T, 7): ctx.fail("surf:grid", "the grid is not that of %d x %d points in one period; %s" % (nt, nz, what)); return False
    if not close(Z, B, (np.abs(c).sum() + (np.abs(sn).sum() if sn is not None else 0)) * (1 + s["mboz"] + s["nboz"])):
        j = np.unravel_index(np.argmax(np.abs(Z - B)), B.shape) if Z.shape == B.shape else None
        ctx.fail("surf:values", "|B| at theta=%s, phi=%s is %s, expected %s; %s" % (T[j], P[j], Z[j], B[j], what) if j else "shape %s; %s" % (Z.shape, what)); return False
    lev = a[3] if len(a) > 3 else k.get("levels")
    if lev is None or np.ndim(lev) == 0 and lev != nc or np.ndim(lev) == 1 and not nc - 2 <= len(lev) <= nc + 2: ctx.fail("surf:levels", "levels %s for %d contours; %s" % (lev, nc, what)); return False
    if cm is not None and k.get("cmap") != cm: ctx.fail("surf:kwargs", "cmap was not passed on; %s" % what); return False
    ax = [q for q in plt.gcf().axes if q.get_title()]
    t = "{:.4}".format(float(s["s_b"][js]))
    if not ax or "=" + t not in ax[0].get_title().replace(" ", ""): ctx.fail("surf:title", "the title is %s, but s is %s; %s" % ([q.get_title() for q in ax], t, what)); return False
    ctx.stat("values of |B| compared", B.size)
    return True


def radial_options(ctx, r, s):
    kw = {}
    opt(r, kw, "sqrts", 0.4, [True, False]); opt(r, kw, "log", 0.4, [True, False]); opt(r, kw, "B0", 0.4, [True, False])
    opt(r, kw, "ymin", 0.3, [1e-6, 1e-2])
    n = s["nfp"]
    opt(r, kw, "remove_helicity", 0.35, [(1, 0), (0, 1), (0, n), (1, n), (1, -n), (2, n), (1, 1), (-1, n), (1, 2 * n)])
    opt(r, kw, "legend_args", 0.2, [{"loc": "upper left", "fontsize": 6}])
    opt(r, kw, "marker", 0.3, ["."]); opt(r, kw, "linewidth", 0.2, [0.5])
    D = np.array(s["bmnc_b"])
    if "remove_helicity" in kw:
        hm, hn = kw["remove_helicity"]
        for j in range(len(s["xm_b"])):
            if hn * int(s["xm_b"][j]) == hm * int(s["xn_b"][j]): D[j] = 0
    if kw.get("log", True): D = np.abs(D)
    rad = np.sqrt(s["s_b"]) if kw.get("sqrts") else np.array(s["s_b"])
    return kw, D, rad


def lines(ctx, plt, kw, rad, what):
    """Lines of the axes, without the reference line; None if something is wrong."""
    ax = plt.gca()
    L = list(ax.get_lines())
    log = kw.get("log", True)
    if ax.get_yscale() != ("log" if log else "linear"): ctx.fail("radial:scale", "the y axis is %s; %s" % (ax.get_yscale(), what)); return None
    if not log:
        k = [j for j, l in enumerate(L) if len(l.get_xdata()) == 2 and list(l.get_xdata()) == [0, 1] and list(l.get_ydata()) == [0, 0] and l.get_label().startswith("_")]
        if len(k): L.pop(k[0])
    if log and "ymin" in kw and not np.isclose(ax.get_ylim()[0], kw["ymin"]): ctx.fail("radial:ymin", "the y axis starts at %s; %s" % (ax.get_ylim()[0], what)); return None
    if tuple(ax.get_xlim()) != (0, 1): ctx.fail("radial:xlim", "the x axis is %s; %s" % (ax.get_xlim(), what)); return None
    for l in L:
        if not close(l.get_xdata(), rad, 1): ctx.fail("radial:x", "the radial coordinate is %s, expected %s; %s" % (l.get_xdata(), rad, what)); return None
        if "marker" in kw and l.get_marker() != kw["marker"] or "linewidth" in kw and l.get_linewidth() != kw["linewidth"]: ctx.fail("radial:kwargs", "options for plot were not passed on; %s" % what); return None
    return L


def key(y): return tuple(float("%.12g" % v) + 0.0 for v in np.asarray(y, float))


def label_class(t):
    if "Background" in t: return "background"
    if "Quasiaxi" in t: return "QA"
    if "Mirror" in t: return "mirror"
    if "Other helical" in t: return "helical"
    if re.search(r"n *= *-", t): return "helical minus"
    if re.search(r"n *= *n", t): return "helical plus"
    if "elical" in t: return "helical"
    return None


def classify(m, n, nfp, detail):
    if n == 0: return "background" if m == 0 else "QA"
    if m == 0: return "mirror"
    if detail and n == nfp * m: return "helical plus"
    if detail and n == -nfp * m: return "helical minus"
    return "helical"


def sym(ctx, r, x, s, plt, what, src):
    import booz_xform
    from matplotlib.colors import to_rgba
    kw, D, rad = radial_options(ctx, r, s)
    mm = opt(r, kw, "max_m", 0.4, [0, 1, 2, 4]); nn = opt(r, kw, "max_n", 0.4, [0, 1, 2, 3])
    mm, nn = 20 if mm is None else mm, 20 if nn is None else nn
    detail = bool(opt(r, kw, "helical_detail", 0.5, [True, True, False]))
    what += ", options %s" % kw
    with ctx.valid("symplot", what): booz_xform.symplot(x, **kw)
    L = lines(ctx, plt, kw, rad, what)
    if L is None: return False
    want = {}
    for j, (m, n) in enumerate(zip(s["xm_b"].tolist(), s["xn_b"].tolist())):
        if m > mm or abs(n) > nn * s["nfp"]: continue
        c = classify(m, n, s["nfp"], detail)
        if c == "background" and not kw.get("B0", True): continue
        want.setdefault(c, []).append(key(D[j]))
    labelled = [l for l in L if not l.get_label().startswith("_")]
    color = {}
    for l in labelled:
        c = label_class(l.get_label())
        if c is None: ctx.fail("sym:label", "label %r is not that of a class of modes; %s" % (l.get_label(), what)); return False
        if c in color: ctx.fail("sym:label", "the legend has several entries for %s; %s" % (c, what)); return False
        if c not in want: ctx.fail("sym:class", "the legend and a curve show %s modes, but there are none to include; %s" % (c, what)); return False
        if key(l.get_ydata()) not in want[c]: ctx.fail("sym:legend-curve", "the curve labelled %r is none of the %s modes included; %s" % (l.get_label(), c, what)); return False
        color[c] = to_rgba(l.get_color())
    if set(color) != set(want): ctx.fail("sym:legend", "the legend shows %s, the modes included are %s; %s" % (sorted(color), sorted(want), what)); return False
    if len(set(color.values())) != len(color): ctx.fail("sym:colors", "two classes have the same colour; %s" % what); return False
    back = {v: k for k, v in color.items()}
    got = {}
    for l in L:
        c = back.get(to_rgba(l.get_color()))
        if c is None: ctx.fail("sym:color", "a curve has a colour that is not in the legend; %s" % what); return False
        if l.get_label().startswith("_"): got.setdefault(c, []).append(key(l.get_ydata()))
    for c in want:
        # the curve with the label may or may not be drawn twice
        g, w = sorted(got.get(c, [])), sorted(want[c])
        lab = [key(l.get_ydata()) for l in labelled if label_class(l.get_label()) == c]
        if g != w and sorted(g + lab) != w:
            ctx.fail("sym:curves", "%d curves of class %s, expected %d, or with other values; only drawn: %s, missing: %s; %s" % (len(g), c, len(w), [q for q in g if q not in w][:2], [q for q in w if q not in g][:2], what)); return False
        ctx.stat("curves compared", len(w))
    if not plt.gca().get_legend() and labelled: ctx.fail("sym:nolegend", "no legend; " + what); return False
    return True


def mode(ctx, r, x, s, plt, what, src):
    import booz_xform
    kw, D, rad = radial_options(ctx, r, s)
    N = opt(r, kw, "nmodes", 0.6, [1, 2, 5, 1000])
    N = 10 if N is None else N
    what += ", options %s" % kw
    with ctx.valid("modeplot", what): booz_xform.modeplot(x, **kw)
    L = lines(ctx, plt, kw, rad, what)
    if L is None: return False
    M = list(zip(s["xm_b"].tolist(), s["xn_b"].tolist()))
    idx = [j for j in range(len(M)) if kw.get("B0", True) or M[j] != (0, 0)]
    out = len(s["s_b"]) - 1 - int(np.argmax(s["s_b"][::-1]))
    size = np.abs(D[:, out])
    if len(L) != min(N, len(idx)): ctx.fail("mode:number", "%d curves, expected %d; %s" % (len(L), min(N, len(idx)), what)); return False
    used = []
    for l in L:
        q = re.search(r"m=\$? *(-?\d+).*n=\$? *(-?\d+)", l.get_label())
        p = (int(q.group(1)), int(q.group(2))) if q else None
        if p not in M: ctx.fail("mode:label", "label %r; %s" % (l.get_label(), what)); return False
        j = M.index(p)
        if key(l.get_ydata()) != key(D[j]): ctx.fail("mode:values", "the curve labelled %r shows %s, expected %s; %s" % (l.get_label(), l.get_ydata(), D[j], what)); return False
        used.append(j)
    if len(set(used)) != len(used) or any(j not in idx for j in used): ctx.fail("mode:selection", "modes %s were drawn; %s" % ([M[j] for j in used], what)); return False
    best = sorted((size[j] for j in idx), reverse=True)[:len(used)]
    if [size[j] for j in used] != best: ctx.fail("mode:order", "the modes drawn have amplitudes %s on the outermost surface, the largest are %s; %s" % ([size[j] for j in used][:8], best[:8], what)); return False
    ctx.stat("curves compared", len(L))
    return True


def match(got, want, scale):
    """Both lists of (x, y, z): the same curves, in any order."""
    if len(got) != len(want): return "%d curves, expected %d" % (len(got), len(want))
    eq = lambda a, b: all(close(p, q, scale) for p, q in zip(a, b))
    left = list(range(len(want)))
    for n, g in enumerate(got):
        k = n if n in left and eq(g, want[n]) else next((j for j in left if eq(g, want[j])), None)
        if k is None: return "curve %d, with first point %s, is none of those expected (%s)" % (n, [np.ravel(q)[:1] for q in g], [np.ravel(q)[:1] for q in want[n]])
        left.remove(k)
    return None


def wire(ctx, r, x, s, plt, what, src):
    import booz_xform
    kw = {}
    ns = s["bmnc_b"].shape[1]
    js = opt(r, kw, "js", 0.5, [int(k) for k in range(ns)] + [None])
    nt = opt(r, kw, "ntheta", 1, [1, 2, 5, 8]); nz = opt(r, kw, "nphi", 1, [1, 2, 6, 9]); rf = opt(r, kw, "refine", 0.7, [1, 2, 3, 4]) or 3
    sf = opt(r, kw, "surf", 0.6, [True, False]); og = opt(r, kw, "orig", 0.6, [True, False])
    sf, og = sf is not False, og is not False
    if js is None: js = len(s["s_b"]) - 1 - int(np.argmax(s["s_b"][::-1]))
    what += ", options %s" % kw
    with ctx.valid("wireplot", what): fig = booz_xform.wireplot(x, **kw)
    if not isinstance(fig, Figure): ctx.fail("wire:figure", "wireplot returned %r; %s" % (type(fig), what)); return False
    th, ze = np.linspace(0, 2 * np.pi, nt * rf + 1), np.linspace(0, 2 * np.pi, nz * rf + 1)
    P, T = np.meshgrid(ze, th)
    g = lambda k: s[k][:, js] if s[k].size else None
    a = lambda k: s[k][:, js] if s["asym"] else None
    ev = lambda c, sn: amplitude(s["xm_b"], s["xn_b"], c, sn, T, P)
    R, Z, nu = ev(g("rmnc_b"), a("rmns_b")), ev(a("zmnc_b"), g("zmns_b")), ev(a("numnc_b"), g("numns_b"))
    scale = sum(np.abs(s[k][:, js]).sum() for k in ("rmnc_b", "zmns_b", "rmns_b", "zmnc_b") if s[k].size) * (1 + s["mboz"] + s["nboz"] * s["nfp"]) * (1 + np.abs(nu).max())
    scale *= 1 + sum(np.abs(s[k][:, js]).sum() for k in ("numns_b", "numnc_b") if s[k].size)
    curves = lambda X, Y, Z: [(X[k], Y[k], Z[k]) for k in range(0, nt * rf + 1, rf)] + [(X[:, k], Y[:, k], Z[:, k]) for k in range(0, nz * rf + 1, rf)]
    want = [curves(R * np.cos(P - nu), R * np.sin(P - nu), Z)]
    if og and src == "object" and s["rmnc"].size:
        q = int(s["compute_surfs"][js])
        h = lambda k: s[k][:, q]
        ah = lambda k: s[k][:, q] if s["asym"] else None
        R0, Z0 = amplitude(s["xm"], s["xn"], h("rmnc"), ah("rmns"), T, P), amplitude(s["xm"], s["xn"], ah("zmnc"), h("zmns"), T, P)
        want.append(curves(R0 * np.cos(P), R0 * np.sin(P), Z0))
    groups = {}
    for t in fig.data:
        if t.kind == "Scatter3d": groups.setdefault(str((t.kw.get("line") or {}).get("color")), []).append((t.kw["x"], t.kw["y"], t.kw["z"]))
    names = {str((t.kw.get("line") or {}).get("color")): t.kw.get("name") for t in fig.data if t.kind == "Scatter3d" and t.kw.get("showlegend") is True}
    if len(groups) != len(want): ctx.fail("wire:groups", "curves in %d colours, expected %d; %s" % (len(groups), len(want), what)); return False
    for c, L in groups.items():
        n = 1 if names.get(c) and "riginal" in names[c] else 0
        if n >= len(want): ctx.fail("wire:original", "curves of the original angles are shown; %s" % what); return False
        e = match(L, want[n], scale)
        if e: ctx.fail("wire:curves", "%s: %s; %s" % (names.get(c), e, what)); return False
        ctx.stat("curves compared", len(L))
    S = [t for t in fig.data if t.kind == "Surface"]
    if len(S) != int(sf): ctx.fail("wire:surface", "%d surfaces; %s" % (len(S), what)); return False
    if sf:
        m = s["xm_b"].astype(float)
        # slightly inside of the surface: 0.002 along the normal in the (R, Z) plane
        Rt = ev(m * a("rmns_b") if s["asym"] else None, -m * g("rmnc_b"))
        Zt = ev(m * g("zmns_b"), -m * a("zmnc_b") if s["asym"] else None)
        den = np.hypot(Rt, Zt)
        ok = den > 1e-6 * scale
        with np.errstate(invalid="ignore", divide="ignore"): Rs, Zs = R - 0.002 * Zt / den, Z + 0.002 * Rt / den
        W = (Rs * np.cos(P - nu), Rs * np.sin(P - nu), Zs)
        for p, q, n in zip((S[0].kw["x"], S[0].kw["y"], S[0].kw["z"]), W, "xyz"):
            if np.shape(p) != q.shape or not (np.abs(np.asarray(p) - q)[ok] <= 1e-11 * scale + 1e-3 * 0.002).all():
                ctx.fail("wire:surface-values", "%s of the surface differs by %s; %s" % (n, np.abs(np.asarray(p) - q)[ok].max() if np.shape(p) == q.shape else np.shape(p), what)); return False
        ctx.stat("points of surfaces compared", int(ok.sum()))
    return True
