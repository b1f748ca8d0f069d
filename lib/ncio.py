"""NetCDF files written through libnetcdf's C API by ctypes (all formats), and read back independently of the code
under test (scipy for the classic formats)."""
import ctypes, os
import numpy as np

_lib = None
FORMATS = {"classic": 0, "64bit": 0x0200, "cdf5": 0x0020, "netcdf4": 0x1000, "netcdf4classic": 0x1000 | 0x0100}
NC_BYTE, NC_CHAR, NC_SHORT, NC_INT, NC_FLOAT, NC_DOUBLE, NC_INT64 = 1, 2, 3, 4, 5, 6, 10
TYPES = {"byte": NC_BYTE, "char": NC_CHAR, "short": NC_SHORT, "int": NC_INT, "float": NC_FLOAT, "double": NC_DOUBLE, "int64": NC_INT64}


def lib():
    global _lib
    if _lib is None:
        for n in ("libnetcdf.so", "libnetcdf.so.19", "libnetcdf.so.20", "libnetcdf.so.18"):
            try:
                _lib = ctypes.CDLL(n)
                break
            except OSError:
                pass
        if _lib is None: raise RuntimeError("libnetcdf not found")
        _lib.nc_strerror.restype = ctypes.c_char_p
    return _lib


def chk(r):
    if r: raise RuntimeError("netcdf: " + lib().nc_strerror(r).decode())


class Var:
    def __init__(self, name, data, dims, type=None):
        self.name, self.data, self.dims, self.type = name, data, dims, type


def write(path, dims, vars, fmt="classic", attrs=True, fill=False):
    """dims: dict name -> length (None: unlimited). vars: list of Var (data in C order of dims)."""
    L = lib()
    nc = ctypes.c_int()
    chk(L.nc_create(path.encode(), FORMATS[fmt], ctypes.byref(nc)))
    ids = {}
    try:
        for n, l in dims.items():
            d = ctypes.c_int()
            chk(L.nc_def_dim(nc, n.encode(), ctypes.c_size_t(l or 0), ctypes.byref(d)))
            ids[n] = d.value
        vid = []
        for v in vars:
            a = v.data
            if isinstance(a, bytes): t = NC_CHAR
            elif v.type: t = TYPES[v.type]
            else: t = NC_INT if np.asarray(a).dtype.kind in "iub" else NC_DOUBLE
            arr = (ctypes.c_int * max(1, len(v.dims)))(*[ids[x] for x in v.dims])
            k = ctypes.c_int()
            chk(L.nc_def_var(nc, v.name.encode(), t, len(v.dims), arr, ctypes.byref(k)))
            vid.append(k.value)
            if attrs:
                s = b"units of " + v.name.encode()
                chk(L.nc_put_att_text(nc, k, b"units", ctypes.c_size_t(len(s)), s))
        chk(L.nc_enddef(nc))
        for v, k in zip(vars, vid):
            if v.data is None: continue
            if isinstance(v.data, bytes):
                chk(L.nc_put_var_text(nc, k, v.data))
                continue
            a = np.asarray(v.data)
            if a.size == 0: continue
            if any(dims[x] is None for x in v.dims):
                st = (ctypes.c_size_t * len(v.dims))(*([0] * len(v.dims)))
                ct = (ctypes.c_size_t * len(v.dims))(*a.shape)
                a = np.ascontiguousarray(a, dtype=np.float64)
                chk(L.nc_put_vara_double(nc, k, st, ct, a.ctypes.data_as(ctypes.c_void_p)))
            elif a.dtype.kind in "iub":
                a = np.ascontiguousarray(a, dtype=np.int32)
                chk(L.nc_put_var_int(nc, k, a.ctypes.data_as(ctypes.c_void_p)))
            else:
                a = np.ascontiguousarray(a, dtype=np.float64)
                chk(L.nc_put_var_double(nc, k, a.ctypes.data_as(ctypes.c_void_p)))
    finally:
        r = L.nc_close(nc)
    chk(r)


WOUT_SCALARS = ["lasym__logical__", "ns", "nfp", "mpol", "ntor", "mnmax", "mnmax_nyq", "aspect"]
EXTRA = ["volume_p", "rmax_surf", "betatotal", "b0", "ctor", "wb"]


def wout_vars(v, rng=None, int_types=None, extras=False, order=None, flux=True):
    """List of Var and dims for a wout file from a gen.vmec() dict."""
    dims = {"radius": v["ns"], "mn_mode": v["mnmax"], "mn_mode_nyq": v["mnmax_nyq"], "dim_00020": 20}
    out = []
    for k in WOUT_SCALARS:
        out.append(Var(k, np.array(v[k]), [], None if k == "aspect" else (int_types or {}).get(k)))
    for k in ("xm", "xn"): out.append(Var(k, v[k], ["mn_mode"], (int_types or {}).get(k, "double")))
    for k in ("xm_nyq", "xn_nyq"): out.append(Var(k, v[k], ["mn_mode_nyq"], (int_types or {}).get(k, "double")))
    for k in ("iotas", "chi", "phipf", "pres", "phi"):
        if k in v: out.append(Var(k, v[k], ["radius"]))
    for k in ("rmnc", "zmns", "lmns", "rmns", "zmnc", "lmnc"):
        if k in v: out.append(Var(k, v[k].T, ["radius", "mn_mode"], (int_types or {}).get(k)))
    for k in ("bmnc", "bsubumnc", "bsubvmnc", "bmns", "bsubumns", "bsubvmns"):
        if k in v: out.append(Var(k, v[k].T, ["radius", "mn_mode_nyq"], (int_types or {}).get(k)))
    if extras:
        for k in EXTRA: out.append(Var(k, np.array(float(len(k))), []))
        out.append(Var("input_extension", b"abc".ljust(20), ["dim_00020"]))
        out.append(Var("iotaf", np.arange(float(v["ns"])), ["radius"]))
        out.append(Var("gmnc", np.ones((v["ns"], v["mnmax_nyq"])), ["radius", "mn_mode_nyq"]))
        out.append(Var("bsupumnc", np.ones((v["ns"], v["mnmax_nyq"])), ["radius", "mn_mode_nyq"]))
    if order is not None: out = [out[k] for k in order(len(out))]
    return dims, out


def write_wout(path, v, fmt="classic", **kw):
    dims, vars = wout_vars(v, **kw)
    write(path, dims, vars, fmt)


def read_scipy(path):
    """Independent reader for classic files: (dims, {name: (array, dims, typecode, attributes)}). Data is little endian, in memory."""
    from scipy.io import netcdf_file
    f = netcdf_file(path, "r", mmap=False)
    try:
        dims = dict(f.dimensions)
        out = {}
        for k, v in f.variables.items():
            a = v.data if v.shape == () else v[:]
            a = np.array(a)
            if a.dtype.kind in "if": a = a.astype(a.dtype.newbyteorder("="))
            at = {n: (x.decode() if isinstance(x, bytes) else x) for n, x in v._attributes.items()}
            out[k] = (a, tuple(v.dimensions), v.typecode(), at)
        return dims, out
    finally:
        f.close()


def write_boozmn(path, d, fmt="classic", chi=True, aspect=True, extras=True, order=None, int_type=None, fortran=True):
    """A boozmn file by an independent writer. d: dict with the results (see c11)."""
    ns = d["ns_in"] + 1
    mn, nsb = len(d["xm_b"]), len(d["compute_surfs"])
    dims = {"radius": ns, "mn_mode": mn, "mn_modes": mn, "comput_surfs": nsb, "pack_rad": nsb, "dim_00038": 38}
    pre = lambda a: np.concatenate([[0.0], a])
    V = [Var("nfp_b", np.array(d["nfp"]), [], int_type), Var("ns_b", np.array(ns), [], int_type), Var("lasym__logical__", np.array(int(d["asym"])), [], int_type),
         Var("mboz_b", np.array(d["mboz"]), [], int_type), Var("nboz_b", np.array(d["nboz"]), [], int_type), Var("mnboz_b", np.array(mn), [], int_type)]
    if aspect: V.append(Var("aspect_b", np.array(d["aspect"]), []))
    for k in ("rmax_b", "rmin_b", "betaxis_b"): V.append(Var(k, np.array(1.5), []))
    V += [Var("iota_b", pre(d["iota"]), ["radius"]), Var("buco_b", pre(d["Boozer_I_all"]), ["radius"]), Var("bvco_b", pre(d["Boozer_G_all"]), ["radius"]),
          Var("pres_b", d["pres"], ["radius"]), Var("phip_b", d["phip"], ["radius"]), Var("phi_b", d["phi"], ["radius"]), Var("beta_b", np.ones(ns), ["radius"])]
    if chi: V.append(Var("chi_b", d["chi"], ["radius"]))
    V += [Var("jlist", np.asarray(d["compute_surfs"]) + 2, ["comput_surfs"], int_type), Var("ixm_b", d["xm_b"], ["mn_mode"], int_type), Var("ixn_b", d["xn_b"], ["mn_mode"], int_type)]
    M = [("bmnc_b", "bmnc_b", 1), ("rmnc_b", "rmnc_b", 1), ("zmns_b", "zmns_b", 1), ("pmns_b", "numns_b", -1), ("gmn_b", "gmnc_b", 1)]
    if d["asym"]: M += [("bmns_b", "bmns_b", 1), ("rmns_b", "rmns_b", 1), ("zmnc_b", "zmnc_b", 1), ("pmnc_b", "numnc_b", -1), ("gmns_b", "gmns_b", 1)]
    for n, k, s in M: V.append(Var(n, s * d[k].T, ["pack_rad", "mn_modes"]))
    if extras: V.append(Var("version", b"Boozer Transformation Code Version 2.0".ljust(38), ["dim_00038"]))
    if order is not None: V = [V[k] for k in order(len(V))]
    write(path, dims, V, fmt)
