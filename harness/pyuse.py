"""Valid use of the Python module, for a process with AddressSanitizer: pyuse.py PACKAGE LIB SEED SCRATCH WOUT ROUNDS

The same random history is carried out ROUNDS times. After each round the bytes that are allocated are counted (by ASan's
allocator, with Python's own allocator switched off), and at the end LeakSanitizer looks for what nothing points to.
"""
import ctypes, gc, os, sys
pkg, lib, seed, scratch, wout, rounds = sys.argv[1:7]
sys.dont_write_bytecode = True
sys.path[:0] = [pkg, lib, os.path.join(os.path.dirname(lib), "checks")]
import numpy as np
import gen, hist
import booz_xform
import c16

me = ctypes.CDLL(None)
me.__sanitizer_get_current_allocated_bytes.restype = ctypes.c_size_t
log = []


def use(rng):
    e0 = gen.complete(rng, mmax=2, nmax=1, ns_in=3)
    e0["mboz"], e0["nboz"] = 3, 2
    objs, kept = [booz_xform.Booz_xform()], []
    for step in range(int(rng.integers(4, 14))):
        b = objs[int(rng.integers(len(objs)))]
        r = int(rng.integers(0, 12))
        if r < 2 or step == 0:
            e = gen.complete(rng, mmax=int(rng.integers(0, 5)), nmax=int(rng.integers(0, 4)), ns_in=int(rng.integers(1, 5)))
            e["mboz"], e["nboz"] = int(rng.integers(1, 7)), int(rng.integers(0, 5))
            b.verbose = 0
            for k in gen.INPUTS:
                if k in e:
                    v = e[k]
                    if isinstance(v, np.ndarray) and rng.random() < 0.5: v = c16.layout(rng, v)[0]
                    setattr(b, k, v)
                    del v
            b.run()
            log.append("inputs, run")
        elif r == 2:
            b.verbose = 0
            b.read_wout(wout, bool(rng.random() < 0.5))
            b.mboz, b.nboz = int(rng.integers(1, 6)), int(rng.integers(0, 4))
            b.run()
            log.append("read_wout, run")
        elif r == 3:
            v = gen.vmec(rng, ns=int(rng.integers(2, 6)), mpol=int(rng.integers(1, 4)), ntor=int(rng.integers(0, 3)))
            hist.init_from_vmec(b, v, bool(rng.random() < 0.5), rng)
            if rng.random() < 0.5: b.mboz, b.nboz = int(rng.integers(1, 6)), int(rng.integers(0, 4)); b.run()
            log.append("init_from_vmec")
        elif r == 4:
            f = os.path.join(scratch, "b%d.nc" % int(rng.integers(3)))
            try: b.write_boozmn(f)
            except RuntimeError: pass   # nothing to write
            if os.path.exists(f): objs[0].verbose = 0; objs[0].read_boozmn(f)
            log.append("write, read")
        elif r == 5 and len(objs) < 4: objs.append(booz_xform.Booz_xform()); log.append("new")
        elif r == 6 and len(objs) > 1: del objs[int(rng.integers(len(objs)))]; log.append("del")
        elif r == 7:
            for k in rng.choice(gen.ALL, 12): kept.append(getattr(b, str(k)))
            log.append("keep arrays")
        elif r == 8:
            for x in kept:
                if isinstance(x, np.ndarray): x.sum(); x.copy()
            log.append("use arrays")
        elif r == 9:
            k = str(rng.choice(c16.SETTABLE))
            s = c16.source(rng, k)[0]
            setattr(b, k, s)
            if isinstance(s, np.ndarray) and s.flags.writeable and s.size: s.fill(1)
            del s
            getattr(b, k)
            log.append("set " + k)
        elif r == 10:
            for bad in (lambda: b.read_wout("/nonexistent/x"), lambda: setattr(b, "rmnc", "text"), lambda: setattr(b, "bmnc_b", 1), lambda: b.init_from_vmec(1, 2), lambda: b.no_such_attribute, lambda: b.read_boozmn(__file__)):
                try: bad()
                except (RuntimeError, TypeError, AttributeError): pass
            log.append("errors")
        else:
            repr(b); str(booz_xform.Booz_xform.rmnc.__doc__); b.run.__doc__
            log.append("documentation")
    for x in kept:
        if isinstance(x, np.ndarray): x.sum()
    del objs, b
    for x in kept:
        if isinstance(x, np.ndarray): x.sum()
    kept.clear()
    # every attribute many times, of an object with results and of a new one
    b = booz_xform.Booz_xform()
    for n in range(30):
        if n == 15: gen.apply(b, e0); b.run()
        for k in ["verbose"] + gen.ALL: getattr(b, k)
        if n % 5 == 0: gen.apply(b, e0)


# Python's cache of looked-up methods grows with the first thousands of reads
w = booz_xform.Booz_xform()
for k in range(5000): w.rmnc, w.xm
sizes = []
for k in range(int(rounds)):
    log.clear()
    use(np.random.default_rng(int(seed)))
    gc.collect()
    sizes.append(me.__sanitizer_get_current_allocated_bytes())
print("SIZES", *sizes)
print("LOG", "; ".join(log))
sys.stdout.flush()
if os.environ.get("VERIF_LEAKS"):
    print("LEAKS", me.__lsan_do_recoverable_leak_check())
sys.stdout.flush()
os._exit(0)
