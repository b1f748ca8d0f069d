"""C03: mode table and shapes after every run of histories with changing settings."""
import numpy as np
import gen

BUILDS = ["rel"]
CASES = {"quick": 1600, "thorough": 24000}
RULE = ("histories of 1..6 runs in one object with changing equilibrium, symmetry, nfp, mboz 1..60, nboz 0..40 and lists of 0..40 surfaces; predicates on the mode table and all shapes "
        "after every run; distinct by (settings, previous settings)")
ASSUMPTIONS = []


def expected_table(mboz, nboz, nfp):
    """From the statement: all pairs, ordered by m then n."""
    t = [(0, n * nfp) for n in range(nboz + 1)]
    for m in range(1, mboz): t += [(m, n * nfp) for n in range(-nboz, nboz + 1)]
    return t


def predicates(ctx, e, s, what):
    mb, nb, nfp = int(e["mboz"]), int(e["nboz"]), int(e["nfp"])
    N = (2 * nb + 1) * (mb - 1) + nb + 1
    ns, nin = len(e["compute_surfs"]), int(e["ns_in"])
    F = lambda key, msg: ctx.fail(key, msg + "; " + what)
    if s["mnboz"] != N: F("mnboz", "mnboz is %s, expected %d" % (s["mnboz"], N))
    got = list(zip(s["xm_b"].tolist(), s["xn_b"].tolist()))
    if got != expected_table(mb, nb, nfp):
        k = next((k for k, (x, y) in enumerate(zip(got, expected_table(mb, nb, nfp))) if x != y), min(len(got), N))
        F("table", "mode table wrong from entry %d (length %d, expected %d): %s" % (k, len(got), N, got[k:k + 3]))
    if len(s["xm_b"]) != len(s["xn_b"]): F("table", "xm_b and xn_b have different lengths")
    if len(set(got)) != len(got): F("table", "repeated modes")
    if s["ns_b"] != ns: F("ns_b", "ns_b is %s, expected %d" % (s["ns_b"], ns))
    for k in gen.OUT_MATS:
        if s[k].shape != (N, ns): F("shape:" + k, "%s has shape %s, expected %s" % (k, s[k].shape, (N, ns)))
    for k in gen.OUT_ASYM:
        want = (N, ns) if e["asym"] else (0, 0)
        if s[k].shape != want: F("shape:" + k, "%s has shape %s, expected %s" % (k, s[k].shape, want))
    for k in ("s_b", "Boozer_G", "Boozer_I"):
        if s[k].shape != (ns,): F("shape:" + k, "%s has shape %s, expected %s" % (k, s[k].shape, (ns,)))
    for k in ("Boozer_G_all", "Boozer_I_all"):
        if s[k].shape != (nin,): F("shape:" + k, "%s has shape %s, expected %s" % (k, s[k].shape, (nin,)))
    for k in gen.OUT_MATS + gen.OUT_ASYM + ["s_b", "Boozer_G", "Boozer_I"]:
        if not np.isfinite(s[k]).all(): F("finite:" + k, "%s is not finite" % k)
    ctx.stat("predicates", 22)


def collide(rng, e, prev):
    """Settings that differ from the previous ones but share something with them: the number of modes, the largest n,
    nfp, the grid, ... Anything that is kept from the previous run and recognised by one of these would be wrong."""
    mb, nb, nfp = int(prev["mboz"]), int(prev["nboz"]), int(prev["nfp"])
    N = (2 * nb + 1) * (mb - 1) + nb + 1
    same = [(m, n) for m in range(1, 60) for n in range(0, 40) if (2 * n + 1) * (m - 1) + n + 1 == N and (m, n) != (mb, nb)]
    how = int(rng.integers(5))
    if how == 0 and same: e["mboz"], e["nboz"] = same[int(rng.integers(len(same)))]       # same number of modes
    elif how == 1: e["mboz"], e["nboz"] = mb, nb
    elif how == 2: e["mboz"], e["nboz"] = mb, nb + int(rng.integers(-1, 2)) * (nb > 0)
    elif how == 3: e["mboz"], e["nboz"] = max(1, mb + int(rng.integers(-1, 2))), nb
    elif same:
        # same number of modes and same largest n
        m, n = same[int(rng.integers(len(same)))]
        e["mboz"], e["nboz"] = m, n
        if n and nb and (nb * nfp) % n == 0: renumber(e, nb * nfp // n)
        return
    if rng.random() < 0.5: renumber(e, int(rng.choice([1, 2, 3, 4, 6, nfp + 1])))


def renumber(e, nfp):
    """The same equilibrium with another number of periods."""
    old = int(e["nfp"])
    e["nfp"] = nfp
    for k in ("xn", "xn_nyq"): e[k] = (e[k] // old * nfp).astype(np.int32)


def case(ctx, i):
    import booz_xform
    rng = ctx.rng()
    b = booz_xform.Booz_xform()
    prev = None
    start = None
    if rng.random() < 0.3:
        # pairs of settings with the same number of modes and the same largest n
        nb = int(rng.integers(1, 7)); mb = int(rng.integers(2, 12)); N = (2 * nb + 1) * (mb - 1) + nb + 1
        p = [(m, n) for m in range(1, 40) for n in range(1, 20) if (2 * n + 1) * (m - 1) + n + 1 == N and n != nb]
        if p:
            m2, n2 = p[int(rng.integers(len(p)))]
            g = int(np.gcd(nb, n2)); start = [(mb, nb, n2 // g), (m2, n2, nb // g)]
    for step in range(int(rng.integers(2 if start else 1, 7))):
        if prev is None or rng.random() < 0.5:
            e = gen.complete(rng, ns_in=int(rng.integers(1, 13)))
        else:
            e = dict(prev)
            e["mboz"], e["nboz"] = gen.resolution(rng)
            e["compute_surfs"] = gen.surfaces(rng, e["ns_in"])
            if rng.random() < 0.4: collide(rng, e, prev)
        r = rng.random()
        if start and step < 2:
            if step == 1: e = dict(prev)
            renumber(e, start[step][2])
            e["mboz"], e["nboz"] = start[step][:2]
            e["compute_surfs"] = gen.surfaces(rng, e["ns_in"], 2)
            r = 1
        if r < 0.12: e["compute_surfs"] = np.zeros(0, dtype=np.int32)
        elif r < 0.24: e["compute_surfs"] = rng.integers(0, e["ns_in"], int(rng.integers(8, 41))).astype(np.int32); e["mboz"], e["nboz"] = min(e["mboz"], 6), min(e["nboz"], 4)
        elif r < 0.30: e["mboz"], e["nboz"] = int(rng.integers(20, 61)), int(rng.integers(0, 3))
        elif r < 0.36: e["mboz"], e["nboz"] = int(rng.integers(1, 4)), int(rng.integers(15, 41))
        elif r < 0.40: e["mboz"], e["nboz"] = int(rng.integers(20, 41)), int(rng.integers(15, 31)); e["compute_surfs"] = np.zeros(0, dtype=np.int32)
        elif r < 0.46: e["mboz"], e["nboz"] = 1, int(rng.integers(0, 3))
        elif r < 0.50:
            # toroidal numbers beyond 16 bits
            renumber(e, int(rng.choice([400, 9999, 40000, 1000003])))
            e["nboz"] = max(1, e["nboz"])
        if len(e["compute_surfs"]) > 2 and e["mboz"] * max(1, e["nboz"]) > 60: e["compute_surfs"] = e["compute_surfs"][:1]
        if rng.random() < 0.15: e["s_in"] = np.zeros(0)   # the surfaces need no labels
        what = "%s after %s" % (gen.describe(e), gen.describe(prev) if prev is not None else "nothing")
        with ctx.valid("run", what):
            gen.apply(b, e)
            b.run()
            s = gen.snapshot(b)
        predicates(ctx, e, s, what)
        ctx.seen(what)
        prev = e
    ctx.sample(what)
