"""Random histories of API calls on Python objects. An operation is (name, argument) and can be replayed."""
import contextlib, os, hashlib, resource, signal
import numpy as np
import gen, ncio


@contextlib.contextmanager
def limit(n):
    """Files cannot grow beyond n bytes: writing fails with EFBIG, as on a full disk."""
    signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
    old = resource.getrlimit(resource.RLIMIT_FSIZE)
    resource.setrlimit(resource.RLIMIT_FSIZE, (n, old[1]))
    try: yield
    finally: resource.setrlimit(resource.RLIMIT_FSIZE, old)


class Pool:
    """Equilibria and files that histories draw from."""

    def __init__(self, rng, d, n=3, small=True):
        import booz_xform
        self.d = d
        kw = dict(mmax=None) if not small else {}
        self.eqs = []
        for k in range(n):
            e = gen.complete(rng, asym=bool(k % 2), ns_in=int(rng.integers(1, 7)))
            e["mboz"], e["nboz"] = min(e["mboz"], 6), min(e["nboz"], 4)
            if rng.random() < 0.25: e["s_in"] = np.zeros(0)  # need not be provided
            self.eqs.append(e)
        self.vmecs = [gen.vmec(rng, asym=bool((k + 1) % 2), mpol=int(rng.integers(1, 4)), ntor=int(rng.integers(0, 3)), ns=int(rng.integers(2, 7))) for k in range(n)]
        self.wouts, self.boozmns = [], []
        for k, v in enumerate(self.vmecs):
            f = os.path.join(d, "wout_%d.nc" % k)
            ncio.write_wout(f, v, ["classic", "netcdf4", "64bit"][k % 3])
            self.wouts.append(f)
        for k, e in enumerate(self.eqs):
            b = gen.apply(booz_xform.Booz_xform(), e)
            b.run()
            f = os.path.join(d, "boozmn_%d.nc" % k)
            b.write_boozmn(f)
            self.boozmns.append(f)
        g = os.path.join(d, "foreign.nc")
        ncio.write_boozmn(g, gen.results(rng, **(dict(mboz=int(rng.integers(20, 81)), nboz=int(rng.integers(0, 4)), ns_in=3) if rng.random() < 0.3 else {})), chi=False, aspect=False)
        self.boozmns.append(g)
        self.bad = [os.path.join(d, "missing.nc")]
        g = os.path.join(d, "garbage.nc")
        with open(g, "wb") as f: f.write(b"not a netcdf file at all" * 40)
        self.bad.append(g)
        # incomplete files: a wout file that lacks its last variables, and a boozmn file likewise
        dims, V = ncio.wout_vars(self.vmecs[0])
        g = os.path.join(d, "partial_wout.nc")
        ncio.write(g, dims, V[:len(V) // 2])
        self.bad.append(g)
        g = os.path.join(d, "partial_wout2.nc")
        ncio.write(g, dims, [v for v in V if v.name != "bsubvmnc"])
        self.bad.append(g)
        self.hash = {f: digest(f) for f in self.files()}

    def files(self):
        return self.wouts + self.boozmns + [f for f in self.bad if os.path.exists(f)]


def digest(f):
    with open(f, "rb") as h: return hashlib.sha256(h.read()).hexdigest()


VMEC_SCALARS = ["nfp", "mpol", "ntor", "mnmax", "mnmax_nyq", "aspect", "xm", "xn", "xm_nyq", "xn_nyq"]
INIT_ORDER = ["rmnc", "rmns", "zmnc", "zmns", "lmnc", "lmns", "bmnc", "bmns", "bsubumnc", "bsubumns", "bsubvmnc", "bsubvmns"]


FLUX_ORDER = [("phips", "phipf"), ("chi", "chi"), ("pres", "pres"), ("phi", "phi")]


def init_from_vmec(b, v, flux, rng=None):
    """Through the public Python interface, as read_wout() does from a file. With rng: arguments partly by name, in any order."""
    b.asym = bool(v["lasym__logical__"])
    for n in VMEC_SCALARS: setattr(b, n, v[n])
    b.mpol_nyq = int(v["xm_nyq"][-1])
    b.ntor_nyq = int(v["xn_nyq"][-1] // v["nfp"])
    m = gen.empties(v)
    if rng is not None and rng.random() < 0.5:
        named = [("ns", v["ns"]), ("iotas", v["iotas"])] + [(k + "0", m[k]) for k in INIT_ORDER] + ([(k, v[x]) for k, x in FLUX_ORDER] if flux else [])
        n = int(rng.integers(len(named)))
        rest = [named[j] for j in n + rng.permutation(len(named) - n)]
        return b.init_from_vmec(*[x for _, x in named[:n]], **dict(rest))
    args = [m[k] for k in INIT_ORDER]
    if flux: b.init_from_vmec(v["ns"], v["iotas"], *args, v["phipf"], v["chi"], v["pres"], v["phi"])
    else: b.init_from_vmec(v["ns"], v["iotas"], *args)


def do(b, op, pool, out):
    """Perform an operation; returns None or the exception text. out: path for written files."""
    n, a = op
    try:
        if n == "inputs": gen.apply(b, pool.eqs[a], b.verbose)
        elif n == "vmec": init_from_vmec(b, pool.vmecs[a[0]], a[1])
        elif n == "wout": b.read_wout(pool.wouts[a[0]], a[1])
        elif n == "rd": b.read_boozmn(pool.boozmns[a])
        elif n == "run": b.run()
        elif n == "write": b.write_boozmn(out)
        elif n == "set":
            for k, v in a: setattr(b, k, v)
        elif n == "scale": setattr(b, a[0], np.array(getattr(b, a[0])) * a[1])
        elif n == "badfile":
            if a[0] == "wout": b.read_wout(pool.bad[a[1]], True)
            else: b.read_boozmn(pool.bad[a[1]])
        elif n == "badwrite": b.write_boozmn(os.path.join(pool.d, "no", "such", "dir.nc"))
        elif n == "latewrite":
            # the disk is full after so many bytes
            with limit(a): b.write_boozmn(out)
        elif n == "badrun":
            old = {k: getattr(b, k) for k, _ in a}
            try:
                for k, v in a: setattr(b, k, v)
                b.run()
            finally:
                for k, v in old.items(): setattr(b, k, v)
        else: raise AssertionError(n)
    except RuntimeError as ex:
        return str(ex)
    return None


def random_op(rng, b, pool, verbose=False):
    """Draw an operation; b only tells current sizes, so that most of them are valid."""
    r = rng.random()
    ns = int(b.ns_in)
    if r < 0.30: return ("run", None)
    if r < 0.38: return ("write", None)
    if r < 0.48: return ("inputs", int(rng.integers(len(pool.eqs))))
    if r < 0.54: return ("vmec", (int(rng.integers(len(pool.vmecs))), bool(rng.random() < 0.5)))
    if r < 0.62: return ("wout", (int(rng.integers(len(pool.wouts))), bool(rng.random() < 0.5)))
    if r < 0.70: return ("rd", int(rng.integers(len(pool.boozmns))))
    if r < 0.76: return ("set", [("mboz", int(rng.integers(1, 7))), ("nboz", int(rng.integers(0, 5)))])
    if r < 0.82: return ("set", [("compute_surfs", gen.surfaces(rng, max(1, ns)))])
    if r < 0.86:
        k = str(rng.choice(["rmnc", "zmns", "bmnc", "lmns", "bsubvmnc", "iota", "aspect", "s_in"]))
        return ("scale", (k, float(rng.uniform(0.5, 1.5))))
    if r < 0.88: return ("set", [("verbose", int(rng.integers(0, 3)) if verbose else 0)])
    if r < 0.885: return ("set", [("s_in", np.zeros(0))])
    if r < 0.90: return ("set", [(k, np.zeros(0)) for k in ("phip", "chi", "pres", "phi")])
    if r < 0.92: return ("set", [(k, np.asarray(rng.standard_normal(ns + 1))) for k in ("phip", "chi", "pres", "phi")])
    if r < 0.95: return ("badfile", (str(rng.choice(["wout", "rd"])), int(rng.integers(len(pool.bad)))))
    if r < 0.96: return ("badwrite", None)
    if r < 0.98: return ("latewrite", int(rng.choice([0, 100, 2000, 6000, 8000, 12000, 20000])))
    return ("badrun", [[("compute_surfs", np.array([0, ns], dtype=np.int32))], [("mboz", 0)], [("nboz", -1)], [("mnmax", 0)]][int(rng.integers(4))])
