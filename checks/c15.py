"""C15: I/O failures are reported and release all resources."""
import os, re
import numpy as np
import gen, ncio, execdrv, hist
from common import Inconclusive, short

BUILDS = ["fault"]
CASES = {"quick": 60, "thorough": 1200}
LEVEL = "fault_enumeration"
RULE = ("for read_wout, read_boozmn and write_boozmn on random content (symmetric or not, every NetCDF format, with and without optional parts): every single NetCDF library call of the operation is made to fail in turn (a failing "
        "close still closes), every single system call on files below the library likewise (with partial writes), the file size limit is set to every kind of value and the number of descriptors to none; "
        "a call that returns must have left the same state or file as without the fault, otherwise it must raise; descriptors are counted around each; the same call must then work; distinct by (operation, function, fault)")
ASSUMPTIONS = ["files in the HDF5-based formats get faults at the NetCDF level only: libhdf5 itself leaks descriptors when its system calls fail", "libnetcdf passes on the errors of its system calls (those it swallows without effect on the data are accepted: only a result that differs is a violation)"]

ERRORS = [28, 5, -101, -61, -60, -33, -36, -62, -107]
MUST_RAISE = ("nc_close", "nc_enddef", "nc__enddef", "nc_sync")


class Op:
    def __init__(self, kind, line, out=None):
        self.kind, self.line, self.out = kind, line, out


def prepare(rng, d, i):
    """An operation: (set-up lines, operation, description). The object is number 1."""
    s = execdrv.Script()
    kind = ["write", "rd", "wout"][i % 3]
    asym = bool((i // 3) % 2)
    if kind == "wout":
        v = gen.vmec(rng, ns=int(rng.choice([2, 3, 6])), mpol=int(rng.choice([1, 2, 4])), ntor=int(rng.choice([0, 1, 3])), asym=asym)
        f = os.path.join(d, "w.nc")
        fmt = str(rng.choice(sorted(ncio.FORMATS)))
        ncio.write_wout(f, v, fmt)
        flux = int(rng.random() < 0.6)
        return "wout 1 %s %d" % (f, flux), kind, dict(kind=kind, format=fmt, asym=asym, ns=v["ns"], mpol=v["mpol"], ntor=v["ntor"], flux=flux), None
    if kind == "rd":
        r = gen.results(rng, asym=asym, ns_in=int(rng.choice([1, 2, 5, 40])))
        f = os.path.join(d, "b.nc")
        fmt = str(rng.choice(sorted(ncio.FORMATS)))
        chi, asp = bool(rng.random() < 0.7), bool(rng.random() < 0.7)
        ncio.write_boozmn(f, r, fmt, chi=chi, aspect=asp)
        return "rd 1 " + f, kind, dict(kind=kind, format=fmt, asym=asym, ns_in=r["ns_in"], mboz=r["mboz"], nboz=r["nboz"], chi=chi, aspect=asp), None
    out = os.path.join(d, "out.nc")
    return "write 1 " + out, kind, dict(kind=kind, asym=asym), out


def setup_object(rng, d, k, e, pre):
    """Lines that give object k a state with results."""
    s = execdrv.Script()
    s.add("new %d" % k)
    s.apply(k, e)
    s.add("run %d" % k)
    return s.l


def case(ctx, i):
    rng = ctx.rng()
    d = ctx.dir()
    line, kind, desc, out = prepare(rng, d, i)
    asym = desc["asym"] if kind == "write" else bool(rng.random() < 0.5)
    e = gen.complete(rng, asym=asym, ns_in=int(rng.integers(1, 6)), flux=bool(rng.random() < 0.6))
    e["mboz"], e["nboz"] = (min(e["mboz"], 4), min(e["nboz"], 3)) if rng.random() < 0.6 else (10, 6)
    if kind == "write": desc.update(gen.describe(e), flux=len(e["phip"]) > 0)
    pre = setup_object(rng, d, 1, e, kind)
    exe = ctx.info["fault"]
    exists = bool(rng.random() < 0.5)   # is there an older file in the way?
    old = os.path.join(d, "old.nc")
    ncio.write_boozmn(old, gen.results(rng))
    other = os.path.join(d, "mine.nc")
    # without faults
    s = execdrv.Script()
    s.l += pre
    s.add("write 1 " + other)
    s.add("fault 0 0"); s.add("sysfault 0 0 0")
    a = s.add(line)
    n2 = s.add("nosysfault"); n1 = s.add("nofault")
    ref = s.dump(1, d)
    r = execdrv.run(exe, s, d)
    if not r.complete or r.log.get(a, ("",))[0] != "OK": raise Inconclusive("reference run failed: %s %s" % (r.log.get(a), r.err[:300]))
    calls, syscalls = int(r.log[n1][1].split()[0]), int(r.log[n2][1].split()[0])
    if calls == 0: raise Inconclusive("no NetCDF call was intercepted")
    R = execdrv.parse_dump(ref)
    refdata = open(out, "rb").read() if out else None
    mine = hist.digest(other)
    ctx.maxstat("NetCDF calls of one operation", calls); ctx.maxstat("system calls of one operation", syscalls)

    # faults: (description, lines before, lines after)
    F = []
    for k in range(1, calls + 1): F.append(("NetCDF call %d" % k, ["fault %d %d" % (k, int(rng.choice(ERRORS)))], ["nofault"]))
    # libhdf5 leaks descriptors of its own, and crashes, when its system calls fail
    if desc.get("format", "").startswith("netcdf4"): syscalls = 0
    for k in range(1, syscalls + 1): F.append(("system call %d" % k, ["sysfault %d %d %d" % (k, int(rng.choice([5, 28, 122])), int(rng.random() < 0.5))], ["nosysfault"]))
    if out:
        n = len(refdata)
        for v in sorted(set([0, 1, 3, 4, 100, 1000, 1024, 4096, n // 2, n - 8, n - 1] + [int(x) for x in rng.integers(0, n, 6)] + [n])):
            if v <= n: F.append(("size limit %d of %d" % (v, n), ["fsize %d" % v], ["fsize -1"]))
    F.append(("no descriptors", ["nofile 3"], ["nofile -1"]))
    if ctx.tier == "quick" and len(F) > 260: F = [F[j] for j in sorted(rng.permutation(len(F))[:260])]
    per = 60
    for b in range(0, len(F), per):
        s = execdrv.Script()
        s.l += pre
        marks = []
        keep = None
        for n, (what, before, after) in enumerate(F[b:b + per]):
            # 0: the object has results of its own; 1: a new object
            fresh = kind != "write" and rng.random() < 0.5
            s.l += ["new 1", "set 1 verbose 0"] if fresh else pre
            f0 = s.add("fds")
            l = line
            s.l += before
            op = s.add(l)
            fl = None
            for x in after: fl = s.add(x)
            f1 = s.add("fds")
            d1 = s.dump(1, d)
            save = None
            w = None
            if kind != "write" and not fresh:
                w = (s.add("write 1 " + os.path.join(d, "after%d.nc" % (b + n))), os.path.join(d, "after%d.nc" % (b + n)))
            marks.append((what, f0, op, fl, f1, d1, w, fresh))
            if out:
                # what a successful call left is compared before the next call replaces it
                s.add("copyfile")
                marks[-1] += (len(marks) - 1,)
                g = os.path.join(d, "kept%d.nc" % (b + n))
                s.l[-1] = "keep %s %s" % (out, g)
                marks[-1] = marks[-1][:-1] + (g,)
            else: marks[-1] += (None,)
            op2 = s.add(line)
            d2 = s.dump(1, d)
            g2 = None
            if out:
                g2 = os.path.join(d, "again%d.nc" % (b + n))
                s.add("keep %s %s" % (out, g2))
                if not exists: s.add("unlink " + out)
            marks[-1] += (op2, d2, g2)
        r = execdrv.run(exe, s, d, timeout=300)
        if r.hang: raise Inconclusive("watchdog")
        if not r.complete:
            last = max(list(r.log) + [-1])
            return ctx.fail("crash", "the process ended with %s after line %s (%s), fault: %s; %s %s" % (r.rc, last, r.lines[last][:60] if last >= 0 else "-", [m[0] for m in marks if m[2] > last][:1], desc, r.err[-800:]))
        said = re.sub(r"(?m)^Error \d+: .*$", "", r.out).strip()    # libnetcdf itself prints this when system calls fail
        if said: return ctx.fail("printed:" + kind, "with verbosity 0 failing calls print %s; %s" % (short(said, 300), desc))
        for what, f0, op, fl, f1, d1, w, fresh, g, op2, d2, g2 in marks:
            fn = r.log[fl][1].split()[1] if fl is not None and r.log.get(fl, ("",))[0] == "FAULT" else None
            cls = fn if fn else re.sub(r" [\d].*", "", what)
            tag = "%s, fault at %s%s; %s" % (line.split()[0], what, " (%s)" % fn if fn else "", desc)
            st, tx = r.log[op]
            if "call" in what and fn in (None, "-"): ctx.stat("faults that were not reached"); continue
            ctx.seen((kind, cls, what, str(desc)))
            ctx.stat("faults: " + re.sub(r" [\d].*", "", what))
            if fn: ctx.stat("functions made to fail: " + fn)
            if r.log[f0] != r.log[f1]:
                return ctx.fail("descriptor:%s:%s" % (kind, cls), "descriptors before %s, after %s: %s" % (r.log[f0][1], r.log[f1][1], tag))
            if st == "OK":
                if fn in MUST_RAISE and (out or fn == "nc_close"): return ctx.fail("unreported:%s:%s" % (kind, cls), "no exception: " + tag)
                if out:
                    if not os.path.exists(g) or open(g, "rb").read() != refdata: return ctx.fail("incomplete-file:%s:%s" % (kind, cls), "no exception, but the file is not what it should be: " + tag)
                else:
                    df = gen.diff(R, execdrv.parse_dump(d1))
                    # what the file does not set differs in a new object
                    if not fresh and df or fresh and [k for k in df if k in LOADED[kind]]: return ctx.fail("incomplete-data:%s:%s" % (kind, cls), "no exception, but %s differ: %s" % (df, tag))
                ctx.stat("faults without consequences")
            else:
                ctx.stat("faults reported by an exception")
                if w is not None:
                    if r.log[w[0]][0] == "OK" and hist.digest(w[1]) != mine:
                        return ctx.fail("incomplete-state:%s:%s" % (kind, cls), "after the failed call a file with incomplete results could be written: " + tag)
            if r.log[op2][0] != "OK": return ctx.fail("recovery:%s:%s" % (kind, cls), "the same call without the fault raised %s: %s" % (r.log[op2][1], tag))
            df = gen.diff(R, execdrv.parse_dump(d2))
            if not fresh and df or fresh and [k for k in df if k in LOADED[kind]]: return ctx.fail("recovery:%s:%s" % (kind, cls), "the same call without the fault gives different %s: %s" % (df, tag))
            if out and open(g2, "rb").read() != refdata: return ctx.fail("recovery-file:%s:%s" % (kind, cls), "the same call without the fault writes another file: " + tag)
        for x in os.listdir(d):
            if x.startswith(("kept", "again", "after", "dump")) and os.path.join(d, x) != ref: os.unlink(os.path.join(d, x))
    ctx.sample(dict(desc, calls=calls, syscalls=syscalls, faults=len(F)))
    import shutil
    shutil.rmtree(d, ignore_errors=True)


_VM = ["asym", "nfp", "mpol", "ntor", "mnmax", "mnmax_nyq", "aspect", "xm", "xn", "xm_nyq", "xn_nyq", "mpol_nyq", "ntor_nyq", "ns_in", "s_in", "iota", "mboz", "nboz", "compute_surfs", "toroidal_flux", "phi", "phip", "chi", "pres"] + gen.MATS
LOADED = {"wout": _VM,
          "rd": ["asym", "nfp", "aspect", "mboz", "nboz", "mnboz", "xm_b", "xn_b", "ns_in", "iota", "Boozer_G_all", "Boozer_I_all", "phi", "phip", "chi", "pres", "toroidal_flux", "ns_b", "compute_surfs", "s_b", "s_in", "Boozer_G", "Boozer_I"] + gen.OUT_MATS + gen.OUT_ASYM,
          "write": gen.ALL}
