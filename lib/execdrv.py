"""Call scripts for harness/exec.cpp and their outcome."""
import os, re, subprocess, tempfile
import numpy as np
import gen
from common import Harness, short

SCRATCH = os.path.realpath(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), ".build")) + os.sep
TYPE = {}
for _k in gen.INT_ATTRS: TYPE[_k] = "i"
for _k in gen.DBL_ATTRS: TYPE[_k] = "d"
for _k in gen.IVEC_ATTRS: TYPE[_k] = "iv"
for _k in gen.VEC_ATTRS: TYPE[_k] = "v"
for _k in gen.MAT_ATTRS: TYPE[_k] = "m"
TYPE["asym"] = "i"


def hexs(a):
    return " ".join(float(x).hex() for x in a)


def mat(a):
    a = np.atleast_2d(a) if np.ndim(a) == 2 else np.asarray(a).reshape(-1, 1)
    return "%d %d %s" % (a.shape[0], a.shape[1], hexs(a.ravel(order="F")))


class Script:
    def __init__(self):
        self.l = []
        self.ndump = 0

    def add(self, s):
        self.l.append(s)
        return len(self.l) - 1

    def set(self, k, name, v):
        t = TYPE[name]
        if t == "i": r = "%d" % int(v)
        elif t == "d": r = float(v).hex()
        elif t == "iv": r = "%d %s" % (len(v), " ".join(str(int(x)) for x in v))
        elif t == "v": r = "%d %s" % (len(v), hexs(v))
        else: r = mat(v)
        return self.add("set %d %s %s" % (k, name, r))

    def apply(self, k, e, verbose=0):
        self.set(k, "verbose", verbose)
        for n in gen.INPUTS:
            if n in e: self.set(k, n, e[n])

    def vmec(self, k, v, flux):
        """stage the arrays of a gen.vmec() dict and call init_from_vmec; scalars are set as read_wout does"""
        self.set(k, "asym", v["lasym__logical__"])
        for n in ("nfp", "mpol", "ntor", "mnmax", "mnmax_nyq", "aspect"): self.set(k, n, v[n])
        self.set(k, "mpol_nyq", v["xm_nyq"][-1]); self.set(k, "ntor_nyq", v["xn_nyq"][-1] // v["nfp"])
        for n in ("xm", "xn", "xm_nyq", "xn_nyq"): self.set(k, n, v[n])
        for n, a in gen.empties(v).items(): self.add("smat %s %s" % (n, mat(a)))
        self.add("smat iotas " + mat(v["iotas"]))
        if flux:
            for n, s in (("phips", "phipf"), ("chi", "chi"), ("pres", "pres"), ("phi", "phi")): self.add("smat %s %s" % (n, mat(v[s])))
        return self.add("vmec %d %d %d" % (k, v["ns"], int(flux)))

    def dump(self, k, d):
        self.ndump += 1
        f = os.path.join(d, "dump%d" % self.ndump)
        self.add("dump %d %s" % (k, f))
        return f


def parse_dump(f):
    out = {}
    for l in open(f):
        t = l.split()
        n, k = t[0], t[1]
        if k == "i": out[n] = bool(int(t[2])) if n == "asym" else int(t[2])
        elif k == "d": out[n] = float.fromhex(t[2])
        elif k == "iv": out[n] = np.array([int(x) for x in t[3:]], dtype=np.int32)
        elif k == "v": out[n] = np.array([float.fromhex(x) for x in t[3:]])
        else: out[n] = np.array([float.fromhex(x) for x in t[4:]]).reshape((int(t[2]), int(t[3])), order="F")
        if k in ("iv", "v") and len(out[n]) != int(t[2]): raise Harness("bad dump " + f)
    return out


def contained(l):
    """Nothing may ever be written to, or removed, outside the build and scratch area: a failing write
    makes libnetcdf remove its target, which as root removes even devices."""
    t = l.split()
    n = {"write": t[2:3], "dump": t[2:3], "keep": t[2:3], "unlink": t[1:2]}.get(t[0] if t else "", [])
    for f in n:
        if not os.path.realpath(f).startswith(SCRATCH): raise Harness("refused to write to %s" % f)


class Result:
    pass


def run(exe, script, d, env=None, timeout=120, prefix=(), stdin=None):
    """Run a script; returns Result: rc, out, err, log (dict line -> (status, text)), complete."""
    n = len([x for x in os.listdir(d) if x.startswith("script")])
    sf, lf = os.path.join(d, "script%d" % n), os.path.join(d, "log%d" % n)
    lines = script.l if isinstance(script, Script) else script
    for l in lines: contained(l)
    with open(sf, "w") as f: f.write("\n".join(lines) + "\n")
    e = dict(os.environ)
    e.update(env or {})
    r = Result()
    try:
        p = subprocess.run(list(prefix) + [exe, sf, lf], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, timeout=timeout, cwd=d)
        r.rc, r.out, r.err, r.hang = p.returncode, p.stdout.decode(errors="replace"), p.stderr.decode(errors="replace"), False
    except subprocess.TimeoutExpired as ex:
        r.rc, r.hang = None, True
        r.out = (ex.stdout or b"").decode(errors="replace")
        r.err = (ex.stderr or b"").decode(errors="replace")
    r.log, r.events, r.complete = {}, [], False
    r.lines = lines
    if os.path.exists(lf):
        for l in open(lf, errors="replace"):
            l = l.rstrip("\n")
            if l == "END": r.complete = True
            elif l.startswith("UNDEF"): r.events.append(l)
            else:
                m = re.match(r"(\d+) (OK|EXC|FDS|FAULT) ?(.*)", l)
                if m: r.log[int(m.group(1))] = (m.group(2), m.group(3))
    if r.rc in (90, 91, 92): raise Harness("exec: %s %s" % (r.rc, r.err[-500:]))
    return r


SAN_ENV = {
    "ASAN_OPTIONS": "detect_leaks=1:abort_on_error=0:exitcode=66:allocator_may_return_null=1:max_allocation_size_mb=6000:detect_stack_use_after_return=1:handle_abort=1:malloc_fill_byte=165:max_malloc_fill_size=268435456",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=66",
    "LSAN_OPTIONS": "exitcode=66:print_suppressions=0",
}


def sanitizer_report(r):
    """(key, text) if the run shows a memory error, UB, leak, failed assertion or crash."""
    t = r.err
    m = re.search(r"==\d+==ERROR: (AddressSanitizer|LeakSanitizer): ([\w-]+)", t)
    fr = [x for x in re.findall(r"#\d+ 0x[0-9a-f]+ in (.*?) \S*/src/_booz_xform/", t)] or re.findall(r"#\d+ 0x[0-9a-f]+ in (booz_xform::[\w:~]+)", t)
    where = re.sub(r"\(.*", "", fr[0]) if fr else "?"
    if m: return "asan:%s:%s" % (m.group(2), where), t[:3000]
    m = re.search(r"runtime error: (.*)", t)
    if m: return "ubsan:%s:%s" % (re.sub(r"-?\d[\d.e+x]*", "N", m.group(1))[:50].replace(" ", "_"), where), t[:3000]
    m = re.search(r"Assertion .*failed|Assertion failed.*|__glibcxx_assert", t)
    if m: return "assert:" + m.group(0)[:80].replace(" ", "_"), t[:3000]
    if r.rc is not None and (r.rc < 0 or r.rc == 66 or r.rc == 134 or r.rc == 139): return "crash:%d" % r.rc, t[-3000:]
    return None
