"""C14: nothing depends on uninitialised memory."""
import os, re, subprocess
import numpy as np
import gen, ncio, execdrv, hist
import c12
from common import Inconclusive, short

BUILDS = ["valgrind", "omp", "cli"]
CASES = {"quick": 128, "thorough": 2400}
LIMIT = {"quick": 700, "thorough": 14400}
RULE = ("random valid call histories (attributes read right after construction, inputs, init_from_vmec, wout and boozmn files with and without optional parts, run, write, copy, assign, verbosity 0..3, also the C++ command-line "
        "program); a third under valgrind memcheck with a definedness check of every attribute and every byte handed to write(), the others three times under different heap fill patterns, with all attributes, files and printed text "
        "compared byte for byte; distinct by history")
ASSUMPTIONS = ["memcheck sees uses along the executed paths"]


def script(ctx, rng, d, i, files, small):
    s = execdrv.Script()
    h = []
    outs, dumps = [], []
    st = {}

    def dump(k): dumps.append(s.dump(k, d))

    def out():
        f = os.path.join(d, "out%d.nc" % len(outs)); outs.append(f); return f

    def new(k):
        s.add("new %d" % k); st[k] = "new"
        if rng.random() < 0.7: dump(k); h.append("attributes of a new object")

    def inputs(k):
        e = c12.full(rng, i + len(h))
        if small:
            e["mboz"], e["nboz"] = min(e["mboz"], 4), min(e["nboz"], 2)
            e["compute_surfs"] = e["compute_surfs"][:3]
        v = int(rng.integers(0, 4))
        s.apply(k, e, v)
        # leave out what need not be given
        left = []
        if rng.random() < 0.3: left.append("s_in"); s.set(k, "s_in", np.zeros(0))
        st[k] = "inputs" if len(e["compute_surfs"]) else "nosurf"
        h.append(("inputs", e["mnmax"], e["ns_in"], e["mboz"], e["nboz"], int(e["asym"]), len(e["phip"]), v, left))
    new(0)
    r = rng.random()
    if r < 0.5: inputs(0)
    # only what is required, on a new object: aspect, toroidal_flux, profiles are never set
    elif r < 0.8:
        e = gen.complete(rng, flux=False, ns_in=int(rng.integers(1, 4)))
        e["mboz"], e["nboz"] = min(e["mboz"], 4), min(e["nboz"], 2)
        for k in ("aspect", "toroidal_flux", "phi", "phip", "chi", "pres", "s_in"): e.pop(k)
        s.apply(0, e, int(rng.integers(0, 4))); st[0] = "inputs"; h.append(("bare inputs", e["mnmax"], e["ns_in"], int(e["asym"])))
    for step in range(int(rng.integers(3, 9)) if small else int(rng.integers(4, 16))):
        k = int(rng.choice(sorted(st)))
        r = rng.random()
        if st[k] in ("inputs", "nosurf") and r < 0.5:
            s.add("run %d" % k); st[k] = "run" if st[k] == "inputs" else "nosurf"; h.append("run"); dump(k)
        elif st[k] in ("run", "loaded") and r < 0.5:
            s.add("write %d %s" % (k, out())); h.append("write " + st[k])
        elif r < 0.60: inputs(k)
        elif r < 0.68 and outs:
            s.add("rd %d %s" % (k, outs[int(rng.integers(len(outs)))])); st[k] = "loaded"; h.append("read boozmn"); dump(k)
        elif r < 0.76:
            f, chi, asp = files["boozmn"][int(rng.integers(len(files["boozmn"])))]
            s.add("rd %d %s" % (k, f)); st[k] = "loaded"; h.append(("foreign boozmn", chi, asp)); dump(k)
        elif r < 0.86:
            f, v = files["wout"][int(rng.integers(len(files["wout"])))]
            flux = int(rng.random() < 0.5)
            s.add("wout %d %s %d" % (k, f, flux)); s.set(k, "mboz", 2); s.set(k, "nboz", 1)
            st[k] = "inputs"; h.append(("wout", v["ns"], v["mpol"], v["ntor"], v["lasym__logical__"], flux)); dump(k)
        elif r < 0.90:
            v = files["wout"][int(rng.integers(len(files["wout"])))][1]
            s.vmec(k, v, bool(rng.random() < 0.5)); s.set(k, "mboz", 2); s.set(k, "nboz", 1); st[k] = "inputs"; h.append("vmec"); dump(k)
        elif r < 0.95 and len(st) < 3:
            j = max(st) + 1
            if rng.random() < 0.5: s.add("copy %d %d" % (j, k)); st[j] = st[k]; h.append("copy")
            else: new(j); s.add("assign %d %d" % (j, k)); st[j] = st[k]; h.append("assign")
            dump(j)
        else:
            s.set(k, "verbose", int(rng.integers(0, 4)))
    for k in sorted(st):
        if st[k] == "inputs": s.add("run %d" % k); st[k] = "run"
        if st[k] in ("run", "loaded"): s.add("write %d %s" % (k, out()))
        dump(k)
    return s, h, outs, dumps


def make_files(rng, d):
    F = dict(wout=[], boozmn=[])
    for k in range(2):
        v = gen.vmec(rng, ns=int(rng.choice([2, 3, 5])), mpol=int(rng.choice([1, 2, 3])), ntor=int(rng.choice([0, 1, 2])), asym=bool(k))
        f = os.path.join(d, "w%d.nc" % k)
        ncio.write_wout(f, v, str(rng.choice(["classic", "64bit"])))
        F["wout"].append((f, v))
        chi, asp = bool(rng.random() < 0.5), bool(rng.random() < 0.5)
        f = os.path.join(d, "b%d.nc" % k)
        ncio.write_boozmn(f, gen.results(rng, asym=bool(k), ns_in=int(rng.integers(1, 5)), mboz=3, nboz=1), "classic", chi=chi, aspect=asp)
        F["boozmn"].append((f, chi, asp))
    return F


def memcheck_errors(text):
    """Blocks of memcheck's log that involve the code under test."""
    out, cur = [], []
    for l in text.split("\n") + ["==0== "]:
        m = re.sub(r"^==\d+== ?", "", l)
        if m.strip() == "":
            b = "\n".join(cur)
            if re.search(r"(at|by) 0x", b) and re.search(r"uninitialised|Invalid|Source and dest", b) and re.search(r"booz_xform|src/_booz_xform|\bmain\b|driver", b): out.append(b)
            cur = []
        else: cur.append(m)
    return out


def key_of(block):
    m = re.search(r"(?:at|by) 0x[0-9A-F]+: (booz_xform::[\w:~]+|dump|main)", block)
    kind = "syscall" if "Syscall" in block else "jump" if "Conditional" in block else "value" if "Use of" in block else "other"
    return "memcheck:%s:%s" % (kind, m.group(1) if m else "?")


def valgrind(d, cmd, timeout, env=None):
    log = os.path.join(d, "vg.log")
    e = dict(os.environ); e.update(env or {}); e["OMP_NUM_THREADS"] = "1"
    full = ["valgrind", "-q", "--tool=memcheck", "--leak-check=no", "--undef-value-errors=yes", "--num-callers=30", "--log-file=" + log] + cmd
    try:
        p = subprocess.run(full, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=e, cwd=d)
    except subprocess.TimeoutExpired:
        raise Inconclusive("valgrind watchdog")
    return p, open(log, errors="replace").read()


def case_valgrind(ctx, rng, d, i):
    s, h, outs, dumps = script(ctx, rng, d, i, make_files(rng, d), True)
    log = os.path.join(d, "vg.log")
    r = execdrv.run(ctx.info["valgrind"], s, d, {}, 400, prefix=("valgrind", "-q", "--tool=memcheck", "--leak-check=no", "--num-callers=30", "--log-file=" + log))
    if r.hang: raise Inconclusive("valgrind watchdog")
    if not r.complete: raise Inconclusive("script did not complete: %s %s" % (r.rc, short(r.err, 300)))
    if any(x[0] == "EXC" for x in r.log.values()): raise Inconclusive("exception: %s" % [(r.lines[k][:60], x) for k, x in r.log.items() if x[0] == "EXC"][:1])
    if r.events: return ctx.fail("undefined:" + r.events[0].split()[1], "attributes with undefined bits: %s; history %s" % (r.events[:6], h))
    E = memcheck_errors(open(log, errors="replace").read())
    if E: return ctx.fail(key_of(E[0]), "%s\nhistory %s" % (E[0], h))
    ctx.stat("histories under memcheck"); ctx.stat("definedness checks of all attributes", len(dumps)); ctx.stat("files written under memcheck", len(outs))
    ctx.seen(("memcheck",) + tuple(map(str, h)))
    ctx.sample(h)


def strip(text, d):
    return text.replace(d, "DIR")


def case_fill(ctx, rng, d, i):
    s, h, outs, dumps = script(ctx, rng, d, i, make_files(rng, d), False)
    ref = None
    for fill in ("0", "85", "170"):
        for f in outs + dumps:
            if os.path.exists(f): os.unlink(f)
        r = execdrv.run(ctx.info["omp"], s, d, {"MALLOC_PERTURB_": fill, "OMP_NUM_THREADS": "1"}, 200)
        if r.hang: raise Inconclusive("watchdog")
        if not r.complete: raise Inconclusive("script did not complete: %s" % short(r.err, 300))
        if any(x[0] == "EXC" for x in r.log.values()): raise Inconclusive("exception: %s" % [(r.lines[k][:60], x) for k, x in r.log.items() if x[0] == "EXC"][:1])
        now = dict(stdout=r.out.encode(), stderr=r.err.encode())
        for f in outs: now["file %s" % os.path.basename(f)] = open(f, "rb").read()
        for f in dumps: now[f] = open(f, "rb").read()
        if ref is None: ref = now; continue
        for k in ref:
            if ref[k] != now[k]:
                what = k if not k.startswith(d) else "attributes " + ", ".join(a.split()[0] for a, b in zip(ref[k].decode().split("\n"), now[k].decode().split("\n")) if a != b)
                j = next((x for x in range(min(len(ref[k]), len(now[k]))) if ref[k][x] != now[k][x]), -1)
                return ctx.fail("fill:" + k.split()[0] if not k.startswith(d) else "fill:" + what.replace(" ", "_")[:60],
                                "with heap fill %s, %s differ (byte %d: %r / %r); history %s" % (fill, what, j, ref[k][max(0, j - 30):j + 30], now[k][max(0, j - 30):j + 30], h))
    ctx.stat("histories under three heap fills"); ctx.stat("files compared", len(outs)); ctx.stat("attribute dumps compared", len(dumps)); ctx.stat("characters of output compared", len(r.out))
    ctx.seen(("fill",) + tuple(map(str, h)))


def case_cli(ctx, rng, d, i):
    F = make_files(rng, d)
    f, v = F["wout"][i % 2]
    ext = "case"
    w = os.path.join(d, "wout_%s.nc" % ext)
    os.rename(f, w)
    with open(os.path.join(d, "in"), "w") as o:
        o.write("%d %d\n%s\n" % (int(rng.integers(1, 6 * v["mpol"] + 2)), int(rng.integers(0, 4)), ext))
        if rng.random() < 0.5: o.write(" ".join(str(int(x)) for x in rng.permutation(np.arange(2, v["ns"] + 1))[:2]) + "\n")
    args = ["in"] + ([] if rng.random() < 0.5 else ["F"])
    bad = rng.random() < 0.25
    if bad: args = [[], ["-h"], ["in", "x", "y"], ["nofile"]][int(rng.integers(4))]
    p, log = valgrind(d, [ctx.info["cli"]] + args, 400)
    E = memcheck_errors(log)
    if E: return ctx.fail(key_of(E[0]), "%s\nin the command-line program with %s, %s" % (E[0], args, open(os.path.join(d, "in")).read()))
    # printed text and file under heap fills
    out = {}
    for fill in ("0", "85", "170"):
        e = dict(os.environ, MALLOC_PERTURB_=fill, OMP_NUM_THREADS="1")
        q = subprocess.run([ctx.info["cli"]] + args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, cwd=d, timeout=200)
        g = os.path.join(d, "boozmn_%s.nc" % ext)
        now = (q.returncode, re.sub(rb"[0-9.e+-]+ seconds", b"", q.stdout), open(g, "rb").read() if os.path.exists(g) else None)
        if out and out["a"] != now:
            # timings are printed and differ: compare without the numbers of lines that have changed only there
            a, b = out["a"][1].split(b"\n"), now[1].split(b"\n")
            strip = lambda x: re.sub(rb"[0-9]+\.?[0-9]*(e[-+]?[0-9]+)?", b"#", x) if b"ime" in x else x
            if out["a"][0] != now[0] or out["a"][2] != now[2] or [strip(x) for x in a] != [strip(x) for x in b]:
                return ctx.fail("fill:cli", "the command-line program gives different %s with heap fill %s; arguments %s" % ("files" if out["a"][2] != now[2] else "text", fill, args))
        out.setdefault("a", now)
    ctx.stat("command-line programs under memcheck")
    ctx.seen(("cli", str(args), v["ns"], v["mpol"], v["ntor"]))


def case(ctx, i):
    rng = ctx.rng()
    d = ctx.dir()
    if i % 12 == 5: case_cli(ctx, rng, d, i)
    elif i % 3 == 0: case_valgrind(ctx, rng, d, i)
    else: case_fill(ctx, rng, d, i)
