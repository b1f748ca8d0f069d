"""C17: the command-line programs (C++ and Python) do what the API does."""
import os, resource, shutil, subprocess, sys
import numpy as np
import build, gen, ncio, execdrv
from common import Inconclusive

BUILDS = ["rel", "cli", "omp"]
CASES = {"quick": 240, "thorough": 6000}
RULE = ("random input files (tokens, separators, line ends, resolution below or above the default or negative, surfaces in any order with repetitions or none, trailing text) with random equilibria of every format, and every kind of "
        "failure (no or wrong arguments, missing, empty or incomplete input, a directory, surfaces out of range, missing, damaged or inconsistent equilibrium, output that cannot be written), with and without an older output; "
        "both real programs run as processes in a scratch directory whose complete content is compared with what the API gives; distinct by input text and equilibrium")
ASSUMPTIONS = ["tokens that are integers to only one of C++ and Python (12abc, 1_000, 0x10, beyond 32 bits in the list) are excluded", "text is ASCII or UTF-8"]

WS = [" ", "  ", "\t", "\n", "\r\n", "\n\n", " \n ", "\v", "\f", "   \t\n"]


def limits():
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def number(rng, v):
    r = rng.random()
    if r < 0.1 and v >= 0: return "+%d" % v
    if r < 0.2 and v >= 0: return "00%d" % v
    if r < 0.25 and v == 0: return "-0"
    return "%d" % v


def text(rng, tokens):
    out = str(rng.choice(WS)) if rng.random() < 0.3 else ""
    plain = rng.random() < 0.4
    for n, t in enumerate(tokens):
        out += t + (("\n" if n in (1, 2) else " ") if plain else str(rng.choice(WS)))
    if rng.random() < 0.4: out = out.rstrip()
    return out


def tree(d):
    """Complete content of a directory."""
    out = {}
    for r, ds, fs in os.walk(d):
        for x in ds: out[os.path.relpath(os.path.join(r, x), d) + "/"] = None
        for x in fs:
            p = os.path.join(r, x)
            out[os.path.relpath(p, d)] = open(p, "rb").read()
    return out


def programs(ctx, rng):
    py = [[build.PY, "-m", "booz_xform._cli"], [build.PY, "-c", "import sys; from booz_xform._cli import main; sys.exit(main())"],
          [build.PY, "-c", "import sys; from booz_xform import _cli; sys.exit(_cli.main(sys.argv[1:]))"]]
    return [("C++", [ctx.info["cli"]]), ("Python", py[int(rng.integers(len(py)))])]


def execute(ctx, cmd, args, d, rng):
    e = dict(os.environ)
    e["PYTHONPATH"] = ctx.info["rel"]
    e["OMP_NUM_THREADS"] = str(int(rng.integers(1, 6)))
    try:
        return subprocess.run(cmd + args, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120, preexec_fn=limits)
    except subprocess.TimeoutExpired:
        raise Inconclusive("watchdog")


def split_version(data):
    """(bytes without the text of the variable version, that text)"""
    f = None
    try:
        import io
        from scipy.io import netcdf_file
        f = netcdf_file(io.BytesIO(data), "r", mmap=False)
        t = bytes(f.variables["version"][:].tobytes())
        f.close()
    except Exception: return data, None
    k = data.find(t)
    return data[:k] + b"V" * len(t) + data[k + len(t):], t


def api_cpp(ctx, d, wout, req, surfs):
    """The file written by the C++ API, or None if it raises."""
    out = os.path.join(d, "api_cpp.nc")
    s = execdrv.Script()
    s.add("new 1"); s.add("set 1 verbose 0")
    w = s.add("wout 1 %s 0" % wout)
    dm = s.dump(1, d)
    r = execdrv.run(ctx.info["omp"], s, d)
    if not r.complete: raise Inconclusive("reference: " + r.err[-300:])
    if r.log[w][0] != "OK": return None
    D = execdrv.parse_dump(dm)
    s = execdrv.Script()
    s.add("new 1"); s.add("set 1 verbose 0")
    s.add("wout 1 %s 0" % wout)
    s.set(1, "mboz", max(D["mboz"], req[0])); s.set(1, "nboz", max(D["nboz"], req[1]))
    if surfs: s.set(1, "compute_surfs", sorted(surfs))
    a = s.add("run 1"); b = s.add("write 1 " + out)
    r = execdrv.run(ctx.info["omp"], s, d)
    if not r.complete: raise Inconclusive("reference: " + r.err[-300:])
    if r.log[a][0] != "OK" or r.log[b][0] != "OK": return None
    return open(out, "rb").read()


def api_python(ctx, d, wout, req, surfs):
    import booz_xform
    out = os.path.join(d, "api_python.nc")
    b = booz_xform.Booz_xform()
    b.verbose = 0
    try:
        b.read_wout(wout)
        b.mboz, b.nboz = max(b.mboz, req[0]), max(b.nboz, req[1])
        if surfs: b.compute_surfs = sorted(surfs)
        b.run()
        b.write_boozmn(out)
    except (RuntimeError, ValueError, TypeError): return None
    return open(out, "rb").read()


def case(ctx, i):
    rng = ctx.rng()
    d = ctx.dir()
    cwd = os.path.join(d, "cwd")
    os.mkdir(cwd)
    ext = str(rng.choice(["li383_1.4m", "x", "a.b.c", "-1", "7", "3.5", "test_\u00fc", "q'uote\"d", "$HOME", "*", "long" * 20, ".hidden", "..", "nc", "a=b;c", "x.nc", "wout_x", "wout_x.nc", "boozmn_x.nc", "dot.", "a.NC", "wout", "input.x", "-nc", "x_b", "c.n", "nc.nc", "run1/x", "a/b.c/d"]))
    v = gen.vmec(rng, ns=int(rng.choice([2, 3, 4, 6, 12])), mpol=int(rng.choice([1, 2, 3])), ntor=int(rng.choice([0, 1, 2])))
    wout = os.path.join(cwd, "wout_%s.nc" % ext)
    for x in ("wout_", "boozmn_", "WOUT_"): os.makedirs(os.path.dirname(os.path.join(cwd, x + ext)), exist_ok=True)
    ncio.write_wout(wout, v, str(rng.choice(sorted(ncio.FORMATS))))
    dm, dn = 6 * v["mpol"], max(2 * v["ntor"] - 1, 0)
    req = (int(rng.choice([-3, 0, 1, dm - 1, dm, dm + 1, dm + 4])), int(rng.choice([-2, 0, dn, dn + 1, dn + 3])))
    n = v["ns"] - 1
    surfs = [] if rng.random() < 0.3 else [int(x) for x in rng.integers(0, n, int(rng.integers(1, 2 * n + 2)))]
    if surfs and rng.random() < 0.3: surfs = [int(x) for x in rng.permutation(n)]
    tokens = [number(rng, req[0]), number(rng, req[1]), ext] + [number(rng, x) for x in surfs]
    if rng.random() < 0.35:
        tokens.append(str(rng.choice(["!", "all", "surfaces", "#", "/", "x1", ",", "nan", "end", "--", "abc 1 0", "! 0 1", "* 99"])))
    tx = text(rng, tokens)
    inf = str(rng.choice(["in_booz.x", "in booz", "sub/in", "./in_booz", "-in", "wo\u00fc"]))
    if inf.startswith("-"): inf = "./" + inf
    if "/" in inf: os.makedirs(os.path.dirname(os.path.join(cwd, inf)), exist_ok=True)
    fail, usage = None, False
    args = [inf]
    old = None
    outname = "boozmn_%s.nc" % ext
    kind = i % 12
    if kind == 0:
        usage = True
        args = [[], [inf, inf], [inf, "F"], ["a", "b", "c"]][int(rng.integers(4))]
    elif kind == 1: fail = str(rng.choice(["no input", "empty", "directory", "two tokens", "one token", "text for mboz", "text for nboz", "mboz beyond int", "empty name", "blank"]))
    elif kind == 2: fail = "surface out of range"
    elif kind == 3: fail = str(rng.choice(["no wout", "truncated wout", "text wout", "empty wout", "directory wout", "inconsistent wout", "wout lacks bmnc", "other case"]))
    elif kind == 4 and rng.random() < 0.5: fail = "output is a directory"
    elif "/" in ext and rng.random() < 0.4: fail = "no directory for output"
    if fail == "no input": args = ["nothing_here"]
    elif fail == "empty name": args = [""]
    elif fail == "empty": tx = ""
    elif fail == "blank": tx = " \n\n "
    elif fail == "directory": args = ["adir"]; os.mkdir(os.path.join(cwd, "adir"))
    elif fail == "two tokens": tx = text(rng, tokens[:2])
    elif fail == "one token": tx = text(rng, tokens[:1])
    elif fail == "text for mboz": tx = text(rng, ["mboz"] + tokens[1:])
    elif fail == "text for nboz": tx = text(rng, [tokens[0], "x"] + tokens[2:])
    elif fail == "mboz beyond int": tx = text(rng, ["99999999999"] + tokens[1:])
    elif fail == "surface out of range":
        bad = int(rng.choice([-1, n, n + 1, 1000000, -2147483648, 2147483647]))
        L = surfs + [bad]
        tx = text(rng, tokens[:3] + [str(x) for x in rng.permutation(L)])
    elif fail == "no wout": os.unlink(wout)
    elif fail == "other case": os.rename(wout, os.path.join(cwd, "WOUT_%s.nc" % ext))
    elif fail == "truncated wout":
        # libnetcdf reads what is missing at the end of a classic file as zeros without an error
        os.unlink(wout)
        ncio.write_wout(wout, v, str(rng.choice(["netcdf4", "netcdf4classic"])))
        b = open(wout, "rb").read()
        open(wout, "wb").write(b[:int(rng.integers(1, len(b) // 2))])
    elif fail == "text wout": open(wout, "w").write("not a NetCDF file\n" * 40)
    elif fail == "empty wout": open(wout, "w")
    elif fail == "directory wout": os.unlink(wout); os.mkdir(wout)
    elif fail == "inconsistent wout":
        v["mnmax"] += 1
        os.unlink(wout)
        dims, V = ncio.wout_vars(dict(v, mnmax=v["mnmax"] - 1))
        for x in V:
            if x.name == "mnmax": x.data = np.array(v["mnmax"])
        ncio.write(wout, dims, V)
    elif fail == "wout lacks bmnc":
        dims, V = ncio.wout_vars(v)
        ncio.write(wout, dims, [x for x in V if x.name != "bmnc"])
    elif fail == "no directory for output": os.rmdir(os.path.dirname(os.path.join(cwd, outname)))
    elif fail == "output is a directory": os.mkdir(os.path.join(cwd, outname))
    if fail not in ("no input", "empty name", "directory"):
        with open(os.path.join(cwd, inf), "w", newline="", encoding="utf-8") as f: f.write(tx)
    if rng.random() < 0.5:
        # equilibria that nobody asked for
        for x in rng.choice(["wout_.nc", "wout_other.nc", "wout_%s" % ext, "%s.nc" % ext, "wout.nc", "wout_None.nc"], 3):
            p = os.path.join(cwd, str(x))
            if not os.path.exists(p) and os.path.isdir(os.path.dirname(p)) and str(x) not in (".nc", "..nc"): ncio.write_wout(p, gen.vmec(rng, ns=3, mpol=2, ntor=1))
    if fail not in ("output is a directory", "no directory for output") and rng.random() < 0.5:
        old = bytes(rng.integers(0, 256, int(rng.choice([0, 10, 400000])), dtype=np.uint8))
        with open(os.path.join(cwd, outname), "wb") as f: f.write(old)
    before = tree(cwd)
    what = "fail=%s usage=%s input %r, equilibrium %s" % (fail, usage, tx[:200], {k: v[k] for k in ("ns", "mpol", "ntor", "nfp", "lasym__logical__")})
    want = {}
    if not fail and not usage:
        # the reference works on its own copy of the equilibrium
        w2 = os.path.join(d, "reference.nc")
        shutil.copyfile(wout, w2)
        want = {"C++": api_cpp(ctx, d, w2, req, surfs), "Python": api_python(ctx, d, w2, req, surfs)}
        for k, x in want.items():
            if x is None: raise Inconclusive("the %s API rejects a valid equilibrium (see C08, C09): %s" % (k, what))
    results = {}
    for name, cmd in programs(ctx, rng):
        p = execute(ctx, cmd, args, cwd, rng)
        after = tree(cwd)
        ctx.stat("processes " + name)
        o = p.stdout.decode(errors="replace")
        got = after.get(outname)
        rest = {k: x for k, x in after.items() if k != outname}
        if rest != {k: x for k, x in before.items() if k != outname}:
            ctx.fail("other-files:" + name, "%s: files other than the output changed: %s; %s" % (name, sorted(set(rest) ^ set(before) - {outname}), what))
        if usage:
            if p.returncode != 0: ctx.fail("usage-status:" + name, "%s: exit status %d for arguments %s; %s" % (name, p.returncode, args, p.stderr[-300:]))
            if "usage" not in o.lower() or "xbooz_xform" not in o: ctx.fail("usage-help:" + name, "%s: no help for arguments %s: %r" % (name, args, o[:300]))
            if got != before.get(outname): ctx.fail("usage-output:" + name, "%s: arguments %s changed the output file" % (name, args))
            ctx.stat("usage")
        elif fail:
            if p.returncode == 0: ctx.fail("status:%s" % name, "%s: exit status 0; %s" % (name, what))
            if got != before.get(outname) or (outname + "/" in before) != (outname + "/" in after): ctx.fail("output-after-failure:%s" % name, "%s: the output file %s; %s" % (name, "appeared" if outname not in before else "changed", what))
            ctx.stat("failure: " + fail)
        else:
            if p.returncode != 0: ctx.fail("status-valid:%s" % name, "%s: exit status %d, %s; %s" % (name, p.returncode, p.stderr[-400:].decode(errors="replace"), what))
            elif got is None: ctx.fail("no-output:%s" % name, "%s: no output file; %s" % (name, what))
            else:
                a, va = split_version(got); b, vb = split_version(want[name])
                if a != b:
                    ctx.fail("content:%s" % name, "%s: the output file is not what the API gives (%s); requested %s, surfaces %s; %s" % (name, differences(got, want[name]), req, surfs, what))
                ctx.stat("output files compared byte by byte")
                results[name] = got
        if not usage and not fail and outname in after and before.get(outname) is not None:
            with open(os.path.join(cwd, outname), "wb") as f: f.write(before[outname])
        elif not fail and not usage and os.path.exists(os.path.join(cwd, outname)): os.unlink(os.path.join(cwd, outname))
    if len(results) == 2:
        # the two programs agree with each other to rounding (the compilers' options differ)
        for n in ("C++", "Python"): open(os.path.join(d, n + ".nc"), "wb").write(results[n])
        A, B = [ncio.read_scipy(os.path.join(d, n + ".nc"))[1] for n in ("C++", "Python")]
        for k in A:
            if k == "version": continue
            x, y = np.asarray(A[k][0], float), np.asarray(B.get(k, (np.nan,))[0], float)
            if x.shape != y.shape or not np.allclose(x, y, rtol=1e-9, atol=1e-9 * max(1e-300, np.max(np.abs(x), initial=0))):
                ctx.fail("programs-differ", "the files of the two programs differ in %s; %s" % (k, what))
    ctx.seen((tx, kind, fail, usage, str(sorted(v["xm"])), v["ns"]))
    ctx.sample(what)
    shutil.rmtree(d, ignore_errors=True)


def differences(a, b):
    import io
    from scipy.io import netcdf_file
    try: A, B = netcdf_file(io.BytesIO(a), "r", mmap=False), netcdf_file(io.BytesIO(b), "r", mmap=False)
    except Exception as ex: return "not readable: %s" % ex
    r = []
    for k in sorted(set(A.variables) | set(B.variables)):
        if k not in A.variables or k not in B.variables: r.append(k); continue
        x, y = [np.asarray(f.variables[k].data if f.variables[k].shape == () else f.variables[k][:]) for f in (A, B)]
        if x.shape != y.shape: r.append("%s has shape %s, expected %s" % (k, x.shape, y.shape))
        elif x.tobytes() != y.tobytes(): r.append("%s is %s, expected %s" % (k, x.ravel()[:4], y.ravel()[:4]))
    return "; ".join(r[:6])
