"""Framework of the checks: cases, verdicts, evidence, replay. See DESIGN.md."""
import contextlib, ctypes, hashlib, json, os, pickle, resource, shutil, signal, subprocess, sys, tempfile, time, traceback
import numpy as np
import build

VERIF = build.VERIF
PY = build.PY


class Harness(Exception):
    """The check itself cannot work: neither held nor violated."""


class Inconclusive(Exception):
    """This case decided nothing."""


class Stop(Exception):
    pass


def short(x, n=400):
    s = x if isinstance(x, str) else repr(x)
    return s if len(s) <= n else s[:n] + "..."


_libc = ctypes.CDLL(None, use_errno=True)


@contextlib.contextmanager
def without_override():
    """This thread cannot override file permissions, even as root (its effective CAP_DAC_OVERRIDE is switched off for the time being)."""
    class H(ctypes.Structure): _fields_ = [("version", ctypes.c_uint32), ("pid", ctypes.c_int)]
    D = (ctypes.c_uint32 * 3) * 2
    h, d = H(0x20080522, 0), D()
    ok = _libc.capget(ctypes.byref(h), ctypes.byref(d)) == 0
    old = d[0][0]
    if ok:
        d[0][0] = old & ~6
        ok = _libc.capset(ctypes.byref(h), ctypes.byref(d)) == 0
    try: yield
    finally:
        if ok:
            d[0][0] = old
            _libc.capset(ctypes.byref(h), ctypes.byref(d))


def odd_path(rng, d, name):
    """Mostly name in d; sometimes a path that programs get wrong: long, deep, with blanks, not ASCII, relative, with . and .."""
    r = int(rng.integers(0, 30))
    if r == 0: name = "a b  c " + name
    elif r == 1: name = "\u00fc\u4e2d_" + name
    elif r == 2: name = "x" * (250 - len(name)) + name
    elif r == 3: name = name.replace(".nc", "") + str(rng.choice(["", ".cdf", ".nc.nc", ".txt", ".", ".NC"]))
    elif r == 4: name = "$HOME;(x)&~" + name
    elif r in (5, 6):
        for _ in range(3): d = os.path.join(d, "y" * (120 if r == 5 else 230))
        os.makedirs(d, exist_ok=True)
    f = os.path.join(d, name)
    if r == 7: f = os.path.relpath(f)
    elif r == 8: f = os.path.join(d, ".", "..", os.path.basename(d), name)
    elif r == 9: f = f.replace("/", "//")
    return f


class Ctx:
    """What a worker gives to the cases of a check."""

    def __init__(self, cid, tier, seed, part, scratch, info):
        self.cid, self.tier, self.seed, self.part, self.scratch = cid, tier, seed, part, scratch
        self.info = info          # results of setup(): paths of builds
        self.evals = 0
        self.sigs = set()
        self.samples = []
        self.stats = {}
        self.fails = []
        self.inconclusive = []
        self.i = None

    def rng(self, *more):
        return np.random.default_rng([self.seed, int(self.cid[1:]), self.i if self.i is not None else 0] + list(more))

    def seen(self, sig, n=1):
        """One more evaluation of the oracle; sig tells distinct ones apart (None: trivial)."""
        self.evals += n
        if sig is not None:
            self.sigs.add(hashlib.sha1(repr(sig).encode()).hexdigest()[:16])

    def stat(self, name, n=1):
        self.stats[name] = self.stats.get(name, 0) + n

    def maxstat(self, name, v):
        self.stats["max:" + name] = max(self.stats.get("max:" + name, 0), float(v))

    def sample(self, s):
        if len(self.samples) < 3: self.samples.append(s)

    def fail(self, key, msg, data=None):
        self.fails.append(dict(key=key, msg=short(msg, 3000), case=self.i, data=data))
        if len(self.fails) >= 5: raise Stop()

    def check(self, cond, key, msg, data=None):
        if not cond: self.fail(key, msg() if callable(msg) else msg, data)
        return cond

    @contextlib.contextmanager
    def valid(self, what, data=None):
        """Calls of the system that must succeed: an exception is a violation."""
        try:
            yield
        except (Harness, Inconclusive, Stop, build.BuildError, MemoryError):
            raise
        except Exception as ex:
            self.fail("exception:" + what, "%s raised %s: %s\n%s" % (what, type(ex).__name__, ex, short(traceback.format_exc(), 1500)), data)
            raise Abandon()

    def dir(self):
        """A fresh scratch directory for this case."""
        return tempfile.mkdtemp(prefix="case%s." % self.i, dir=self.scratch)


class Abandon(Exception):
    """The rest of this case makes no sense; already reported."""


def worker_main(cid, tier, seed, part, nparts, scratch, only):
    import importlib
    mod = importlib.import_module(cid.lower())
    info = json.load(open(os.path.join(scratch, "info.json")))
    ctx = Ctx(cid, tier, seed, part, scratch, info)
    n = mod.CASES[tier]
    if "rel" in getattr(mod, "BUILDS", []):
        sys.path.insert(0, info["rel"])
    if hasattr(mod, "worker_setup"): mod.worker_setup(ctx)
    todo = [only] if only is not None else list(range(part, n, nparts))
    prog = os.path.join(scratch, "progress.%d" % part)
    try:
        for i in todo:
            with open(prog, "w") as f: f.write(str(i))
            ctx.i = i
            try:
                mod.case(ctx, i)
            except Abandon:
                pass
            except Inconclusive as ex:
                ctx.inconclusive.append("case %d: %s" % (i, short(str(ex), 600)))
            except (RuntimeError, ValueError, TypeError, LookupError, AttributeError, ArithmeticError, AssertionError) as ex:
                # Never happens with the unchanged code: a call that must succeed failed, or the results have shapes
                # or types that the oracle cannot even compare.
                ctx.fail("uncaught", "%s: %s\n%s" % (type(ex).__name__, ex, short(traceback.format_exc(), 1500)))
    except Stop:
        pass
    with open(os.path.join(scratch, "out.%d.tmp" % part), "wb") as f:
        pickle.dump(dict(evals=ctx.evals, sigs=ctx.sigs, samples=ctx.samples, stats=ctx.stats, fails=ctx.fails,
                         inconclusive=ctx.inconclusive, done=len(todo)), f)
    os.rename(os.path.join(scratch, "out.%d.tmp" % part), os.path.join(scratch, "out.%d" % part))
    return 0


def known_findings(cid):
    """Keys listed as 'finding: property=<id> key=<key> ...' in known_findings.txt."""
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("finding: property=%s " % cid):
                k = l.split("key=", 1)[1].split(" ", 1)
                out[k[0].strip()] = l.strip()
    return out


def spawn(cid, tier, seed, part, nparts, scratch, only=None):
    env = dict(os.environ)
    env["OMP_NUM_THREADS"] = str([4, 1, 3, 2, 8, 5, 2, 6][part % 8])
    env["OPENBLAS_NUM_THREADS"] = "1"
    env["MPLBACKEND"] = "Agg"
    env["MPLCONFIGDIR"] = os.path.join(scratch, "mpl")
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    env["HDF5_USE_FILE_LOCKING"] = "FALSE"
    import importlib
    env.update(getattr(importlib.import_module(cid.lower()), "ENV", {}))
    log = open(os.path.join(scratch, "log.%d" % part), "wb")
    cmd = [PY, os.path.join(VERIF, "check.py"), "--worker", cid, tier, str(seed), str(part), str(nparts), scratch,
           "-" if only is None else str(only)]
    return subprocess.Popen(cmd, stdout=log, stderr=subprocess.STDOUT, env=env, start_new_session=True)


def wait_all(procs, limit):
    t0 = time.time()
    hung = set()
    for p in procs:
        left = limit - (time.time() - t0)
        try:
            p.wait(timeout=max(1, left))
        except subprocess.TimeoutExpired:
            hung.add(p.pid)
            try: os.killpg(p.pid, signal.SIGKILL)
            except OSError: pass
            p.wait()
    return hung


def main(cid, tier=None, seed=None, only=None):
    import importlib
    t0 = time.time()
    tier = tier or os.environ.get("VERIF_TIER") or "quick"
    if tier not in ("quick", "thorough"): tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1) if seed is None else seed
    mod = importlib.import_module(cid.lower())
    os.makedirs(os.path.join(VERIF, ".build"), exist_ok=True)
    scratch = tempfile.mkdtemp(prefix="run.%s." % cid, dir=os.path.join(VERIF, ".build"))
    try:
        return _main(mod, cid, tier, seed, only, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def do_builds(names):
    info = {}
    for b in names:
        if b in ("rel", "pyasan"): info[b] = build.python_package(b)
        elif b == "cli": info[b] = build.cli_binary()
        elif b.endswith("?"):
            # optional build: the check says what it does without it
            try: info[b[:-1]] = build.exec_binary(b[:-1])
            except build.BuildError as ex:
                info[b[:-1]] = None
                info[b[:-1] + ":why"] = short(str(ex), 2000)
        else: info[b] = build.exec_binary(b)
    return info


def _main(mod, cid, tier, seed, only, scratch, t0):
    try:
        info = do_builds(getattr(mod, "BUILDS", ["rel"]))
    except build.BuildError as ex:
        print("ERROR: build failed\n" + str(ex))
        return 2
    json.dump(info, open(os.path.join(scratch, "info.json"), "w"))
    tb = time.time() - t0
    n = mod.CASES[tier]
    nparts = 1 if only is not None else max(1, min(getattr(mod, "WORKERS", 8), n))
    limit = getattr(mod, "LIMIT", {"quick": 600, "thorough": 14400})[tier]
    procs = [spawn(cid, tier, seed, k, nparts, scratch, only) for k in range(nparts)]
    hung = wait_all(procs, limit)
    res = dict(evals=0, sigs=set(), samples=[], stats={}, fails=[], inconclusive=[], done=0)
    errors = []

    def merge(path):
        r = pickle.load(open(path, "rb"))
        for k in ("evals", "done"): res[k] += r[k]
        res["sigs"] |= r["sigs"]
        for k in ("samples", "fails", "inconclusive"): res[k] += r[k]
        for k, v in r["stats"].items():
            if isinstance(v, (int, float)): res["stats"][k] = max(res["stats"].get(k, 0), v) if k.startswith("max:") else res["stats"].get(k, 0) + v
            else: res["stats"].setdefault(k, v)

    def died(rc, was_hung):
        return was_hung or rc < 0 or rc in (128 + 6, 128 + 11)

    for k, p in enumerate(procs):
        out = os.path.join(scratch, "out.%d" % k)
        log = open(os.path.join(scratch, "log.%d" % k), "rb").read().decode(errors="replace")
        if os.path.exists(out):
            merge(out)
            continue
        if died(p.returncode, p.pid in hung):
            # The process died (or hung) inside a case: run that case again alone before judging.
            i = int(open(os.path.join(scratch, "progress.%d" % k)).read() or 0) if os.path.exists(os.path.join(scratch, "progress.%d" % k)) else 0
            q = spawn(cid, tier, seed, 1000 + k, 1, scratch, i)
            h2 = wait_all([q], 300)
            out = os.path.join(scratch, "out.%d" % (1000 + k))
            log2 = open(os.path.join(scratch, "log.%d" % (1000 + k)), "rb").read().decode(errors="replace")
            if os.path.exists(out):
                merge(out)
                if p.pid in hung:
                    res["inconclusive"].append("worker %d exceeded the watchdog near case %d; not reproduced" % (k, i))
                else:
                    res["fails"].append(dict(key="crash", msg="process died with %d in case %d (not reproduced when run alone): %s" % (p.returncode, i, short(log[-1500:], 1500)), case=i, data=None))
            elif died(q.returncode, bool(h2)):
                kind = "hang" if h2 else "crash"
                res["fails"].append(dict(key=kind, msg="%s in case %d, twice (exit %d): %s" % (kind, i, q.returncode, short(log2[-1500:], 1500)), case=i, data=None))
            else:
                errors.append("worker %d, case %d: %s" % (k, i, log2[-3000:]))
        else:
            errors.append("worker %d (exit %d): %s" % (k, p.returncode, log[-3000:]))
    for k in range(nparts):
        log = open(os.path.join(scratch, "log.%d" % k), "rb").read().decode(errors="replace")
        if os.environ.get("VERIF_DEBUG") and log.strip(): print("--- log of worker %d\n%s" % (k, log[-3000:]))

    known = known_findings(cid)
    new = [f for f in res["fails"] if f["key"] not in known]
    for key in sorted(set(f["key"] for f in res["fails"] if f["key"] in known)):
        print("KNOWN-FINDING: property=%s %s" % (cid, known[key]))
    stats = {k: v for k, v in sorted(res["stats"].items())}
    ev = dict(property=cid, tier=tier, seed=seed, level=getattr(mod, "LEVEL", "exploration"),
              coverage=dict(evaluations=res["evals"], distinct_nontrivial=len(res["sigs"]), rule=mod.RULE,
                            samples=res["samples"][:6] or ["none"], cases=res["done"], observed=stats,
                            inconclusive=res["inconclusive"][:10], inconclusive_count=len(res["inconclusive"]),
                            build_s=round(tb, 1)),
              assumptions=getattr(mod, "ASSUMPTIONS", []), wall_s=round(time.time() - t0, 1), violations=len(new))
    if only is None:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        p = os.path.join(VERIF, "evidence", cid + ".json")
        with open(p + ".tmp", "w") as f: json.dump(ev, f, indent=1, default=str)
        os.rename(p + ".tmp", p)
    if new:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        f = new[0]
        rp = os.path.join(VERIF, "replays", "%s-%s-%d-%s.json" % (cid, tier, seed, f["case"]))
        json.dump(dict(property=cid, tier=tier, seed=seed, case=f["case"], violations=new,
                       rerun="VERIF_SEED=%d VERIF_TIER=%s %s %s/check.py %s --case %s" % (seed, tier, PY, VERIF, cid, f["case"])),
                  open(rp, "w"), indent=1, default=str)
        for f in new[:4]: print("  [%s] case %s: %s" % (f["key"], f["case"], short(f["msg"], 1200)))
        print("VIOLATION property=%s replay=%s" % (cid, rp))
        return 1
    if errors:
        print("ERROR: the check itself failed\n" + "\n".join(errors)[:6000])
        return 2
    if res["evals"] == 0 or len(res["sigs"]) == 0:
        print("INCONCLUSIVE: nothing was observed; " + "; ".join(res["inconclusive"][:3]))
        return 3
    if len(res["inconclusive"]) > 0.2 * max(1, res["done"]):
        print("INCONCLUSIVE: %d of %d cases decided nothing; %s" % (len(res["inconclusive"]), res["done"], "; ".join(res["inconclusive"][:3])))
        return 3
    print("held: property=%s tier=%s seed=%d cases=%d evaluations=%d distinct=%d wall=%.1fs %s" %
          (cid, tier, seed, res["done"], res["evals"], len(res["sigs"]), time.time() - t0, short(json.dumps(stats), 600)))
    return 0
