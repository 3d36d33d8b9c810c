"""C08: random sequences of additions to a cluster"""
import numpy as np
import clustertools as ct
import common as K
from common import F

BSE = ["id1", "id2", "kw1", "kw2", "kcm", "ecc", "pb", "semi", "m1", "m2", "logl1", "logl2", "logr1", "logr2", "ep1", "ep2", "ospin1", "ospin2"]


def cols(c, names):
    a = [np.atleast_1d(getattr(c, n)) for n in names]
    n = {len(q) for q in a}
    return [[float(q[i]) for q in a] for i in range(max(n))] if len(n) == 1 else []


def observe(c):
    d = dict(x=cols(c, ["x", "y", "z", "vx", "vy", "vz"]), m=F(c.m), m0=F(c.m0), npop=[int(i) for i in c.npop], id2=[int(i) for i in c.id2],
             id=[int(i) for i in c.id], ntot=int(c.ntot), ns=int(c.ns), nb=int(c.nb))
    b = cols(c, [n + "1" for n in ("xb", "yb", "zb", "vxb", "vyb", "vzb")] + ["mb1", "mb2"] + [n + "2" for n in ("xb", "yb", "zb", "vxb", "vyb", "vzb")])
    d["bin"] = [dict(a=q[:6], m1=q[6], m2=q[7], b=q[8:]) for q in b]
    for n in ("kw", "logl", "logr", "ep", "ospin", "lum", "kin", "pot", "etot"):
        d[n] = F(getattr(c, n))
    for n in ("ltot", "ektot", "ptot", "qvir", "mtot"):
        d[n] = float(getattr(c, n)) if hasattr(c, n) else None
    d["bse"] = {n: F(getattr(c, n)) for n in BSE} if len(c.semi) else {n: [] for n in BSE}
    d["eb"] = F(c.eb) if hasattr(c, "eb") else []
    d["r"] = F(c.r) if hasattr(c, "r") else []
    s = cols(c, ["ra", "dec", "dist", "pmra", "pmdec", "vlos"])
    d["sky"] = s if len(s) == len(d["x"]) else [[None] * 6] * len(d["x"])
    return d


def arg(v):
    if v is None:
        return dict(k="none")
    if isinstance(v, (int, float)):
        return dict(k="one", v=v)
    a = np.asarray(v)
    return dict(k="many", v=[int(q) for q in a] if a.dtype.kind in "iu" else F(a))


def form(rng, a, lists=True):
    """the same values as an array or a list"""
    return [q.item() for q in a] if lists and rng.integers(3) == 0 else a


def do_add(t, c, rng, sky):
    k = int(rng.choice([1, 2, 3, 5, 8]))
    nb = int(rng.integers(0, k // 2 + 1)) if rng.integers(2) and not sky else 0
    names = ["x", "y", "z", "vx", "vy", "vz"]
    v = {n: rng.normal(0, 10, k) for n in names}
    lists = nb == 0
    if k > 1 and nb == 0 and rng.integers(4) == 0:   # some scalars, to be repeated
        for n in rng.choice(names[1:], 2, replace=False):
            v[n] = float(rng.normal())
    if k == 1 and rng.integers(2):
        v = {n: float(q[0]) for n, q in v.items()}
    v["m"] = None if rng.integers(4) == 0 else (float(rng.uniform(1, 3)) if rng.integers(4) == 0 else rng.uniform(0.1, 5, k))
    v["m0"] = None if rng.integers(2) else rng.uniform(1, 9, k)
    pop = rng.integers(1, 4, (k + 1) // 2).repeat(2)[:k]
    v["npop"] = None if rng.integers(2) else (int(pop[0]) if k > 2 and rng.integers(3) == 0 else pop)
    given = rng.integers(2)
    v["id"] = (rng.permutation(1000)[:k] + 1 + (0 if len(c.id) == 0 else int(np.max(c.id)))) if given else None
    v = {n: (form(rng, q, lists) if isinstance(q, np.ndarray) else q) for n, q in v.items()}
    an = bool(rng.integers(4))
    q = {n: arg(w) for n, w in v.items()}
    P = dict(m=v["m"], id=v["id"], m0=v["m0"], npop=v["npop"], nb=nb, analyze=an, sortstars=bool(rng.integers(2)))
    t.call("add", lambda: c.add_stars(*[v[n] for n in names], **P), lambda _: dict(obs=observe(c)), q=q, nb=nb, sky=sky, analyze=an)


def do_bin(t, c, rng):
    k = int(rng.choice([1, 1, 2, 4]))
    mode = str(rng.choice(["set", "set", "set", "return", "none"]))
    a, b = rng.normal(0, 10, (k, 6)), rng.normal(0, 10, (k, 6))
    o = {}
    for p in (("mb1", "mb2"), ("id1", "id2"), ("m01", "m02"), ("npop1", "npop2")):
        g = rng.integers(2)
        for n in p:
            if not g:
                o[n] = None
            elif n[0] == "i":
                o[n] = np.arange(k) * 2 + (1 if n == "id2" else 0) + 10 + 3 * (int(np.max(c.id)) if len(c.id) else 0)
            elif n[0] == "n":
                o[n] = rng.integers(1, 4, k)
            else:
                o[n] = rng.uniform(0.2, 4, k)
    one = k == 1 and rng.integers(2)
    A, B = (a[0].tolist(), b[0].tolist()) if one else (a.T, b.T)
    kw = {n: (q[0].item() if one and q is not None else q) for n, q in o.items()}
    q = dict(a=a, b=b, m1=arg(kw["mb1"]), m2=arg(kw["mb2"]), id1=arg(kw["id1"]), m01=arg(kw["m01"]), m02=arg(kw["m02"]),
             npop1=arg(kw["npop1"]), npop2=arg(kw["npop2"]), mode=mode)

    def seen(r):
        e = dict(obs=observe(c))
        if mode == "return":
            R = [np.atleast_1d(w) for w in r]
            e["ret"] = [dict(w=[float(R[j][i]) for j in range(6)], m=float(R[6][i])) for i in range(len(R[0]))]
        return e
    flags = dict(set=dict(set_com=True), none=dict(set_com=False))
    flags["return"] = dict(return_com=True)
    t.call("addbin", lambda: c.add_binary_stars(*A, *B, **kw, **flags[mode]), seen, q=q)


def do_sse(t, c, rng):
    k = int(rng.integers(1, 6))
    v = dict(kw=rng.integers(0, 15, k).astype(float), logl=rng.normal(0, 1, k), logr=rng.normal(0, 1, k))
    o = dict(ep=rng.uniform(0, 9, k) if rng.integers(2) else None, ospin=rng.uniform(0, 9, k) if rng.integers(2) else None)
    ar = rng.permutation(k) if rng.integers(3) == 0 else None
    q = {n: F(w) for n, w in v.items()}
    q.update({n: arg(w) for n, w in o.items()}, arg=arg(ar))
    t.call("sse", lambda: c.add_sse(v["kw"], v["logl"], v["logr"], o["ep"], o["ospin"], ar), lambda _: dict(obs=observe(c)), q=q)


def do_bse(t, c, rng):
    k = int(rng.integers(1, 4))
    v = {n: rng.uniform(0.5, 4, k) for n in BSE}
    v["id1"], v["id2"] = 100 + 2 * np.arange(k), 101 + 2 * np.arange(k)
    rows = [{n: float(v[n][i]) for n in BSE} for i in range(k)]
    t.call("bse", lambda: c.add_bse(*[v[n] for n in BSE]), lambda _: dict(obs=observe(c)), q=dict(rows=rows))


def do_energies(t, c, rng):
    k = len(c.x)
    kin, pot = rng.uniform(0, 3, k), -rng.uniform(1, 9, k)
    et = rng.normal(0, 1, k) if rng.integers(3) == 0 else None
    t.call("energies", lambda: c.add_energies(kin, pot, et), lambda _: dict(obs=observe(c)), q=dict(kin=kin, pot=pot, etot=arg(et)))


def scenario(rng, depth):
    def run(t):
        sky = rng.integers(6) == 0
        bse = rng.integers(3) == 0     # evolution data of binaries; simple binaries keep their own id lists
        u, o = ("radec", "sky") if sky else (str(rng.choice(["pckms", "kpckms", "nbody", "galpy"])), str(rng.choice(["cluster", "centre", "galaxy"])))
        c = ct.StarCluster(0.0, units=u, origin=o)
        for i in range(depth):
            k = rng.integers(10)
            if k < 4 or (i == 0 and k < 7):
                do_add(t, c, rng, bool(sky))
            elif k < 7:
                if not sky and not bse:
                    do_bin(t, c, rng)
            elif k == 7:
                do_sse(t, c, rng)
            elif k == 8:
                if bse:
                    do_bse(t, c, rng)
            elif len(c.x):
                do_energies(t, c, rng)
            if t.failed:
                return
    return run


def make(prop, tier, seed, work):
    rng = np.random.default_rng([seed, 8])
    n, d = (350, 7) if tier == "quick" else (6000, 12)
    return [K.record("add:%d" % i, scenario(rng, int(rng.integers(1, d + 1)))) for i in range(n)], {}
