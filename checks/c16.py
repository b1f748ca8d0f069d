"""C16: attributes from Python: faithful, typed, refused or accepted, and never aliasing internal memory."""
import array, gc, os
import numpy as np
import gen, hist, model, ncio
from common import Inconclusive

BUILDS = ["rel"]
CASES = {"quick": 1000, "thorough": 15000}
# freed memory is overwritten, so that a view of freed memory does not survive by luck
ENV = {"MALLOC_PERTURB_": "165", "MALLOC_TRIM_THRESHOLD_": "4096"}
RULE = ("random histories of assignments (every attribute; sources of every integer and float type, byte order, stride, sign of stride, alignment, sequence type), reads whose arrays are kept, attempts to write into them, "
        "refused assignments, run, reads of files, writes and deletion of the objects, against a shadow copy of all attributes; kept arrays and modified source arrays are checked after each step; distinct by history")
ASSUMPTIONS = ["a float sequence given for an integer attribute holds integers; values lie in the range of the attribute's type",
               "outputs after run() are compared with the file written, decoded by an independent reader"]

SETTABLE = ["verbose"] + gen.INPUTS
READONLY = gen.OUTPUTS
IV, V, M = gen.IVEC_ATTRS, gen.VEC_ATTRS, gen.MAT_ATTRS
BIG = np.finfo(float).max


def kind(k):
    return "i" if k in gen.INT_ATTRS else "b" if k == "asym" else "d" if k in gen.DBL_ATTRS else "iv" if k in IV else "v" if k in V else "m"


def layout(rng, a):
    """The same values in another memory layout."""
    r = int(rng.integers(0, 11))
    if a.size == 0: return a, "empty"
    if r == 0: return np.ascontiguousarray(a), "C"
    if r == 1: return np.asfortranarray(a), "F"
    if r == 2:
        big = np.zeros([2 * n for n in a.shape], dtype=a.dtype)
        v = big[tuple(slice(None, None, 2) for _ in a.shape)]
        v[...] = a
        return v, "strided"
    if r == 3:
        v = np.empty_like(a)[tuple(slice(None, None, -1) for _ in a.shape)]
        v[...] = a
        return v, "reversed"
    if r == 4:
        v = np.empty(a.shape[::-1], dtype=a.dtype).T
        v[...] = a
        return v, "transposed"
    if r == 5: return a.astype(a.dtype.newbyteorder(">")), "big endian"
    if r == 6:
        buf = bytearray(a.nbytes + 3)
        v = np.frombuffer(buf, dtype=a.dtype, count=a.size, offset=3 if a.dtype.itemsize > 1 else 0).reshape(a.shape)
        v[...] = a
        return v, "misaligned"
    if r == 7:
        v = a.copy(); v.setflags(write=False)
        return v, "read-only"
    if r == 8:
        big = np.zeros([n + 3 for n in a.shape], dtype=a.dtype)
        v = big[tuple(slice(1, 1 + n) for n in a.shape)]
        v[...] = a
        return v, "slice"
    if r == 9: return a.tolist(), "list"
    return (tuple(map(tuple, a.tolist())) if a.ndim == 2 else tuple(a.tolist())), "tuple"


def source(rng, k):
    """(value to assign, expected value, description)"""
    t = kind(k)
    if t == "i":
        v = int(rng.choice([0, 1, -1, 2, 7, 255, 32768, 2 ** 31 - 1, -2 ** 31, int(rng.integers(-1000, 1000))]))
        if k == "verbose": v = 0
        for c in rng.permutation(["int", "int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64"]):
            if c == "int": return v, v, "int"
            d = np.iinfo(c)
            if d.min <= v <= d.max: return np.dtype(c).type(v), v, str(c)
    if t == "b":
        v = bool(rng.random() < 0.5)
        return [v, np.bool_(v), int(v)][int(rng.integers(3))], v, "bool"
    if t == "d":
        v = float(rng.choice([0.0, -0.0, 1.5, np.inf, -np.inf, np.nan, 5e-324, BIG, -1e-300, rng.standard_normal()]))
        r = rng.random()
        if r < 0.25: return np.float64(v), v, "float64"
        if r < 0.4:
            with np.errstate(over="ignore", under="ignore"): w = np.float32(v)
            return w, float(w), "float32"
        if r < 0.6: w = int(rng.integers(-2 ** 40, 2 ** 40)); return (w if r < 0.5 else np.int64(w)), float(w), "int"
        return v, v, "float"
    if t in ("iv", "v"): shape = (int(rng.choice([0, 1, 2, 3, 5, 8, 17, 120])),)
    else: shape = tuple(int(x) for x in rng.choice([1, 2, 3, 5, 8, 40], 2)) if rng.random() < 0.9 else ((0, 0), (0, 3), (4, 0))[int(rng.integers(3))]
    if t == "iv" or rng.random() < 0.25:
        # integers, in any type that can hold them
        c = str(rng.choice(["int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64", "float32", "float64", "bool", "float16"]))
        lo, hi = {"bool": (0, 1), "float32": (-2 ** 24, 2 ** 24), "float64": (-2 ** 31, 2 ** 31 - 1), "float16": (-2048, 2048)}.get(c) or (max(np.iinfo(c).min, -2 ** 31), min(np.iinfo(c).max, 2 ** 31 - 1))
        a = rng.integers(lo, hi, shape, endpoint=True)
        want = a.astype(np.int32) if t == "iv" else a.astype(np.float64)
        if c == "int64" and a.ndim == 1 and rng.random() < 0.15: return array.array("q", a.tolist()), want, "array.array"
        if a.ndim == 1 and len(a) and rng.random() < 0.1: return range(3, 3 + len(a)), np.arange(3, 3 + len(a)).astype(want.dtype), "range"
        s, d = layout(rng, a.astype(c))
        return s, want, c + " " + d
    a = rng.standard_normal(shape) * 10.0 ** rng.integers(-300, 300, shape)
    if a.size:
        for v in rng.choice([np.inf, -np.inf, np.nan, -0.0, 5e-324, BIG], int(rng.integers(0, 3))): a.flat[int(rng.integers(a.size))] = v
    c = str(rng.choice(["float64", "float64", "float64", "float32", "float16", "longdouble"]))
    if c == "longdouble": s, d = a.astype(c), "C"
    else:
        with np.errstate(over="ignore", under="ignore"): a = a.astype(c)
        s, d = layout(rng, a)
    return s, np.asarray(a).astype(np.float64), c + " " + d


def wrong(rng, k):
    t = kind(k)
    if t == "i": L = [1.5, 3.0, "3", None, [3], 2 ** 31, -2 ** 31 - 1, 2 ** 70, 1j, np.arange(3), np.float64(2), {}, object()]
    elif t == "b": L = ["x", [1], np.arange(3), {}, object(), (True,)] [:2] + ["yes", np.arange(2)]
    elif t == "d": L = ["2.5", None, [1.0], 1j, np.arange(3.0), {}, object()]
    elif t in ("iv", "v"): L = ["abc", None, 5, 2.5, np.zeros((2, 2)), np.zeros((3, 4)), np.zeros((2, 2, 2)), [[1, 2], [3]], ["a", "b"], {"a": 1}, object(), np.zeros((1, 2))]
    else: L = ["abc", None, 5, 2.5, np.zeros((2, 2, 2)), [[1, 2], [3]], ["a", "b"], [["a"]], {"a": 1}, object(), np.zeros((1, 1, 1))]
    return L[int(rng.integers(len(L)))]


def same_value(t, got, want):
    """Type, shape and value (NaN as NaN)."""
    if t == "i": return type(got) is int and got == want
    if t == "b": return type(got) is bool and got == want
    if t == "d": return type(got) is float and (np.float64(got).tobytes() == np.float64(want).tobytes() or (got != got and want != want))
    if not isinstance(got, np.ndarray) or got.shape != want.shape: return False
    if got.dtype != (np.int32 if t == "iv" else np.float64): return False
    return bool(np.array_equal(got, want)) if t == "iv" else bool(np.array_equal(got, want, equal_nan=True) and np.array_equal(np.signbit(got[got == 0]), np.signbit(want[want == 0])))


class World:
    """Objects under test, their shadow copies, and everything handed out or taken in."""

    def __init__(self, ctx):
        self.ctx, self.objs, self.shadow, self.kept, self.h = ctx, {}, {}, [], ["new"]

    def verify(self, names=None, keys=None, what=""):
        """All attributes of the objects equal their shadows."""
        for j in (names if names is not None else list(self.objs)):
            for k in (keys or gen.ALL):
                got = getattr(self.objs[j], k)
                if not same_value(kind(k), got, self.shadow[j][k]):
                    self.ctx.fail("value:" + k, "%s: %s of object %d is %s (%s), expected %s; history %s" % (
                        what, k, j, str(got)[:150], getattr(got, "dtype", type(got)), str(self.shadow[j][k])[:150], self.h[-8:]))
            self.ctx.stat("attributes compared", len(keys or gen.ALL))

    def adopt(self, j):
        """After an operation that sets attributes: what is read now must stay."""
        self.shadow[j] = gen.snapshot(self.objs[j])
        for k in gen.ALL:
            t, v = kind(k), self.shadow[j][k]
            ok = {"i": lambda: type(v) is int, "b": lambda: type(v) is bool, "d": lambda: type(v) is float,
                  "iv": lambda: v.dtype == np.int32 and v.ndim == 1, "v": lambda: v.dtype == np.float64 and v.ndim == 1, "m": lambda: v.dtype == np.float64 and v.ndim == 2}[t]()
            if not ok: self.ctx.fail("type:" + k, "%s has type %s %s; history %s" % (k, type(v), getattr(v, "dtype", ""), self.h[-5:]))

    def snapshots(self, what):
        for n, (a, c, k, j) in enumerate(self.kept):
            if a.tobytes() != c:
                self.ctx.fail("aliased:" + k, "an array obtained as %s of object %d changed later (%s); history %s" % (k, j, what, self.h[-8:]))
                self.kept[n] = (a, a.tobytes(), k, j)
            self.ctx.stat("kept arrays compared")


def file_against(ctx, b, d, h):
    """Every output attribute against the decoded file (an independent path out of the object)."""
    f = os.path.join(d, "out.nc")
    b.write_boozmn(f)
    _, F = ncio.read_scipy(f)
    f64 = lambda n: F[n][0].astype(float)
    want = dict(xm_b=F["ixm_b"][0], xn_b=F["ixn_b"][0], bmnc_b=f64("bmnc_b").T, rmnc_b=f64("rmnc_b").T, zmns_b=f64("zmns_b").T, gmnc_b=f64("gmn_b").T, numns_b=-f64("pmns_b").T,
                Boozer_G_all=f64("bvco_b")[1:], Boozer_I_all=f64("buco_b")[1:], iota=f64("iota_b")[1:], compute_surfs=F["jlist"][0] - 2)
    if b.asym: want.update(bmns_b=f64("bmns_b").T, rmns_b=f64("rmns_b").T, zmnc_b=f64("zmnc_b").T, gmns_b=f64("gmns_b").T, numnc_b=-f64("pmnc_b").T)
    else:
        for k in gen.OUT_ASYM: want[k] = np.zeros((0, 0))
    cs = b.compute_surfs
    want["Boozer_G"], want["Boozer_I"] = want["Boozer_G_all"][cs], want["Boozer_I_all"][cs]
    if len(b.s_in): want["s_b"] = b.s_in[cs]
    for k, w in want.items():
        g = getattr(b, k)
        if g.shape != w.shape or not np.array_equal(g, w): ctx.fail("output:" + k, "%s read from the object (%s) is not what is in the file written; history %s" % (k, str(g)[:100], h[-5:]))
    for k, w in (("nfp", "nfp_b"), ("mboz", "mboz_b"), ("nboz", "nboz_b"), ("mnboz", "mnboz_b")):
        if getattr(b, k) != int(F[w][0]): ctx.fail("output:" + k, "%s is %s in Python and %s in the file" % (k, getattr(b, k), F[w][0]))
    if b.ns_b != len(cs): ctx.fail("output:ns_b", "ns_b is %s for %d surfaces" % (b.ns_b, len(cs)))
    ctx.stat("outputs compared with a file", len(want))


def wout_against(ctx, b, v, flux, h):
    """Every input attribute against the data of the file read: unrelated attributes must not be mixed up."""
    want = model.vmec_to_half(v, flux)
    for k in ("nfp", "mpol", "ntor", "mnmax", "mnmax_nyq", "aspect", "xm", "xn", "xm_nyq", "xn_nyq"): want[k] = v[k]
    want["asym"] = bool(v["lasym__logical__"])
    for k, w in want.items():
        g = getattr(b, k)
        if isinstance(w, np.ndarray):
            if g.shape != w.shape or not np.allclose(g, w, rtol=1e-9, atol=1e-9 * (1 + np.abs(w).max() if w.size else 1)): ctx.fail("input:" + k, "%s is %s after loading, expected %s; history %s" % (k, str(g)[:120], str(w)[:120], h[-5:]))
        elif not np.isclose(g, w): ctx.fail("input:" + k, "%s is %s after loading, expected %s; history %s" % (k, g, w, h[-5:]))
    ctx.stat("inputs compared with a file", len(want))


def case(ctx, i):
    import booz_xform
    rng = ctx.rng()
    d = ctx.dir()
    pool = hist.Pool(rng, d, n=2)
    w = World(ctx)
    w.objs[0] = booz_xform.Booz_xform(); w.objs[0].verbose = 0
    w.adopt(0)
    nxt = 1

    def keep(j, keys):
        for k in keys:
            a = getattr(w.objs[j], k)
            if isinstance(a, np.ndarray) and a.size: w.kept.append((a, a.tobytes(), k, j))
        if len(w.kept) > 150: w.kept = w.kept[-150:]
    for step in range(int(rng.integers(8, 30))):
        j = int(rng.choice(sorted(w.objs)))
        b = w.objs[j]
        r = rng.random()
        if r < 0.36:
            k = str(rng.choice(SETTABLE))
            v, want, desc = source(rng, k)
            if rng.random() < 0.3: keep(j, [k])
            w.h.append(("assign", k, desc, np.shape(want)))
            with ctx.valid("assign", "%s = %s (%s)" % (k, str(v)[:100], desc)):
                setattr(b, k, v)
            w.shadow[j][k] = want
            w.verify([j], [k], "right after assignment of %s" % desc)
            if isinstance(v, np.ndarray) and v.flags.writeable and v.size:
                # changing the source later must not matter
                v[...] = 1
                w.h.append("source changed")
                w.verify([j], [k], "after a change of the source array")
        elif r < 0.42:
            # from another attribute, of this or another object, also a view of it
            t = str(rng.choice(["v", "iv", "m"]))
            K = [k for k in SETTABLE if kind(k) == t]
            k, k2 = str(rng.choice(K)), str(rng.choice(K))
            j2 = int(rng.choice(sorted(w.objs)))
            a = getattr(w.objs[j2], k2)
            s = a[::-1] if rng.random() < 0.3 else a.T if t == "m" and rng.random() < 0.3 else a
            want = np.array(s)
            w.h.append(("assign", k, "from %s of object %d" % (k2, j2)))
            setattr(b, k, s)
            w.shadow[j][k] = want
            w.verify(None, None, "after assignment from an attribute")
        elif r < 0.54:
            k = str(rng.choice(SETTABLE + ["compute_surfs"]))
            v = wrong(rng, k)
            w.h.append(("refused", k, str(v)[:30]))
            try:
                setattr(b, k, v)
            except Exception:
                ctx.stat("wrong kinds refused")
            else:
                ctx.fail("accepted:" + k, "%s = %r was accepted and reads %s" % (k, v, str(getattr(b, k))[:100]))
                w.adopt(j)
            w.verify([j], None, "after the refused assignment of %r to %s" % (str(v)[:50], k))
        elif r < 0.62:
            k = str(rng.choice(READONLY))
            v = w.shadow[j][k] if rng.random() < 0.5 else source(rng, k)[0]
            w.h.append(("assign output", k))
            try:
                setattr(b, k, v)
            except Exception:
                ctx.stat("outputs refused")
            else:
                ctx.fail("assignable:" + k, "the output %s can be assigned" % k)
                w.adopt(j)
            w.verify([j], None, "after the refused assignment of the output " + k)
        elif r < 0.72:
            K = [str(x) for x in rng.choice(gen.ALL, 12)]
            keep(j, K)
            w.h.append(("kept", len(K)))
            # writing into an array obtained is either refused or without effect on the object
            for n in range(len(w.kept) - 1, max(-1, len(w.kept) - 5), -1):
                a, c, k, jj = w.kept[n]
                try: a.flat[0] = 3
                except ValueError: ctx.stat("writes into arrays refused")
                else: w.kept[n] = (a, a.tobytes(), k, jj)
            w.verify(None, None, "after writing into an array obtained")
        elif r < 0.94:
            if rng.random() < 0.5: keep(j, [str(x) for x in rng.choice(gen.ALL, 12)])
            op = str(rng.choice(["inputs+run", "inputs+run", "wout", "rd", "vmec", "write", "badrun", "badfile", "run"]))
            w.h.append(op)
            if op == "inputs+run":
                e = pool.eqs[int(rng.integers(len(pool.eqs)))]
                with ctx.valid("run", gen.describe(e)):
                    gen.apply(b, e); b.run()
                for k in gen.INPUTS:
                    if not same_value(kind(k), getattr(b, k), np.asarray(e[k], dtype=np.int32) if kind(k) == "iv" else e[k]): ctx.fail("value:" + k, "%s is %s after assignment and run(), expected %s" % (k, str(getattr(b, k))[:100], str(e[k])[:100]))
                w.adopt(j)
                keep(j, READONLY)
                file_against(ctx, b, d, w.h)
                w.shadow[j]["phip"] = np.array(b.phip)
            elif op == "wout":
                n, fl = int(rng.integers(len(pool.wouts))), bool(rng.random() < 0.5)
                with ctx.valid("read_wout"):
                    if rng.random() < 0.5: b.read_wout(pool.wouts[n], fl)
                    else: b.read_wout(filename=pool.wouts[n], flux=fl)
                w.adopt(j)
                wout_against(ctx, b, pool.vmecs[n], fl, w.h)
            elif op == "vmec":
                n, fl = int(rng.integers(len(pool.vmecs))), bool(rng.random() < 0.5)
                with ctx.valid("init_from_vmec"):
                    hist.init_from_vmec(b, pool.vmecs[n], fl, rng)
                w.adopt(j)
                wout_against(ctx, b, pool.vmecs[n], fl, w.h)
            else:
                if op == "rd": hist.do(b, ("rd", int(rng.integers(len(pool.boozmns)))), pool, None)
                elif op == "write": hist.do(b, ("write", None), pool, os.path.join(d, "w.nc"))
                elif op == "badfile": hist.do(b, ("badfile", (str(rng.choice(["wout", "rd"])), int(rng.integers(len(pool.bad))))), pool, None)
                else: hist.do(b, ("run", None), pool, None) if op == "run" and w.shadow[j]["mboz"] in range(1, 9) and w.shadow[j]["nboz"] in range(0, 6) else None
                if op == "badrun":
                    for bad in ("x", 3):
                        try: [b.read_wout, b.write_boozmn, b.read_boozmn][int(rng.integers(3))](None if bad == "x" else bad)
                        except Exception: pass
                        else: ctx.fail("accepted:file", "a file name that is no string was accepted")
                    w.verify([j], None, "after refused file names")
                w.adopt(j)
        elif r < 0.97 and len(w.objs) < 3:
            w.objs[nxt] = booz_xform.Booz_xform(); w.objs[nxt].verbose = 0
            w.adopt(nxt)
            w.h.append("new object")
            nxt += 1
        elif len(w.objs) > 1:
            keep(j, M + V + IV)
            w.h.append("delete object %d" % j)
            del b, w.objs[j], w.shadow[j]
            gc.collect()
            junk = [np.full(int(rng.integers(1, 4000)), 7.25) for _ in range(60)]
            w.snapshots("object deleted")
            del junk
        w.snapshots(str(w.h[-1]))
        w.verify(None, None, "after %s" % str(w.h[-1]))
    keep(sorted(w.objs)[0], M + V + IV)
    w.objs.clear()
    gc.collect()
    w.snapshots("all objects deleted")
    ctx.seen(tuple(map(str, w.h)))
    ctx.sample(w.h)
