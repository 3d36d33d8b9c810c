"""C06, C07: random selections and sub-clusters of random clusters"""
import numpy as np
import clustertools as ct
import common as K
import clusters as C
import histories as H
from common import F
from members import BSE, arg

STAR = ["m0", "kw", "logl", "logr", "ep", "ospin", "kin", "pot", "etot"]


def sky_rows(c):
    a = [np.atleast_1d(getattr(c, n)) for n in ("ra", "dec", "dist", "pmra", "pmdec", "vlos")]
    n = {len(q) for q in a}
    return [[float(q[i]) for q in a] for i in range(max(n))] if len(n) == 1 else []


def observe(c):
    d = C.full(c)
    d["P"] = C.P_of(c)
    d["n"] = int(c.ntot)
    d["sorted"] = c.rorder is not None
    for n in ("r", "rpro", "v", "vpro"):
        d[n] = F(C.val(getattr(c, n), "l" if n[0] == "r" else "v")) if hasattr(c, n) else []
    for n in STAR:
        d[n] = F(getattr(c, n))
    d["npop"] = [int(i) for i in c.npop] if hasattr(c, "npop") else []
    d["sky"] = sky_rows(c)
    k = len(c.semi)
    full = {n: np.atleast_1d(getattr(c, n)) for n in BSE}
    d["bse"] = [{n: (int(v[i]) if n in ("id1", "id2") else float(v[i])) for n, v in full.items() if len(v) == k} for i in range(k)]
    s = {n: getattr(c, n) for n in ("ctype", "bunits", "centre_method", "projected", "nc", "rc", "rtide", "rscale", "ns", "nb", "n_p")}
    s.update({k: d["P"][k] for k in ("ro", "vo", "zo", "sx", "sy", "sz")})
    d["set"] = {k: (float(v) if isinstance(v, (float, np.floating)) else v) for k, v in s.items()}
    return d


def parent(rng, n, prop):
    r = rng.integers(6)
    kw = dict(C.SETS[rng.integers(3)])
    if r == 0:
        c = H.sky_cluster(rng, n, **kw)
    else:
        u = str(rng.choice(C.CART))
        o = str(rng.choice(["cluster", "centre", "galaxy"]))
        c = C.make(rng, u, o, n=n, **kw)
        if rng.integers(6) == 0:
            c.to_radec()
    # equal values, so that bounds fall on several stars
    k = rng.integers(0, n, max(1, n // 4))
    c.m[k] = c.m[k[0]]
    c.m0 = rng.uniform(0.1, 9, n)
    c.npop = rng.integers(1, 4, n)
    if rng.integers(2):
        kws = rng.integers(0, 16, n).astype(float)
        if rng.integers(4) == 0:
            c.kw = kws
        elif rng.integers(2):
            c.add_sse(kws, rng.normal(0, 1, n), rng.normal(0, 1, n), rng.uniform(0, 9, n), rng.uniform(0, 9, n))
        else:
            c.add_sse(kws, rng.normal(0, 1, n), rng.normal(0, 1, n))
    if rng.integers(2):
        kin, pot = rng.uniform(0, 3, n), -rng.uniform(1, 9, n)
        c.add_energies(kin, pot, rng.normal(-2, 3, n) if rng.integers(2) else None)
    if rng.integers(3) == 0 and n > 3:
        nb = int(rng.integers(1, 1 + n // 2))
        v = {q: rng.uniform(0.5, 4, nb) for q in BSE}
        v["id1"] = rng.permutation(c.id)[:nb]
        v["id2"] = 500 + np.arange(nb)
        if rng.integers(2):
            v["id2"][0] = c.id[rng.integers(n)]
        c.add_bse(*[v[q] for q in BSE])
    if rng.integers(3) == 0:
        c.centre_method = "VandeVen"
    if rng.integers(4) == 0:
        c.projected = True
    c.rtide, c.nc, c.rc, c.rscale = C.rnd(rng, 1, 9), int(rng.integers(0, 9)), C.rnd(rng, 1, 9), C.rnd(rng, 1, 9)
    c.n_p = int(rng.integers(0, 9))
    c.analyze(sortstars=True)
    if prop == "C06" and r == 5 and c.units != "radec":
        c.to_amuse()
    return c


def between(rng, a):
    """bounds that are often exactly the value of some star"""
    s = np.sort(a)
    i, j = sorted(rng.integers(0, len(s), 2))
    lo, hi = s[i], s[j]
    k = rng.integers(4)
    if k == 0:
        lo = lo - abs(lo) * 1e-3
    if k == 1:
        hi = hi * 1.001
    return float(lo), float(hi)


def query(rng, c, few=False):
    q = dict(rmin=None, rmax=None, mmin=None, mmax=None, vmin=None, vmax=None, emin=None, emax=None, kwmin=0, kwmax=15,
             npop=None, projected=bool(rng.integers(2)))
    p = q["projected"]
    for k, a in (("r", C.val(c.rpro if p else c.r, "l")), ("m", C.val(c.m, "m")), ("v", C.val(c.vpro if p else c.v, "v")), ("e", c.etot)):
        if len(a) == c.ntot and rng.integers(3) == 0:
            lo, hi = between(rng, a)
            w = rng.integers(3)
            if w != 0:
                q[k + "min"] = lo
            if w != 1:
                q[k + "max"] = hi
    if few:
        for k in list(q):
            if k[-3:] in ("min", "max") and k[:2] != "kw" and rng.integers(2):
                q[k] = None
    if rng.integers(3) == 0:
        q["kwmin"], q["kwmax"] = int(rng.integers(0, 7)), int(rng.integers(5, 16))
    if rng.integers(5) == 0:
        q["npop"] = int(rng.integers(1, 4))
    mask = None
    w = rng.integers(5)
    if w < 2:
        mask = rng.integers(0, 4, c.ntot) > 0
    if w == 2 and rng.integers(4) == 0:
        mask = np.zeros(c.ntot, bool)
    return q, mask


def sent(q, mask, units=False):
    """only what is given is passed, as a user would"""
    kw = {k: v for k, v in q.items() if v is not None}
    if units:       # bounds of an AMUSE cluster may be quantities
        for k in kw:
            if k in UNITS:
                kw[k] = kw[k] | UNITS[k]
    if mask is not None:
        kw["indx"] = mask
    return kw


def marg(m):
    return dict(k="none") if m is None else dict(k="many", v=[bool(b) for b in m])


UNITS = {k + e: u for k, u in (("r", C.U.parsec), ("m", C.U.MSun), ("v", C.U.kms)) for e in ("min", "max")}
NONE = ("rmin", "rmax", "mmin", "mmax", "vmin", "vmax", "emin", "emax", "npop", "indx")


def do_subset(t, c, rng):
    q, mask = query(rng, c)
    par = observe(c)
    e = dict(q, mask=marg(mask), npop=arg(q["npop"]))
    kw = sent(q, mask, c.units == "amuse" and rng.integers(2))
    if rng.integers(3) == 0:                 # unbounded said aloud
        kw = dict(dict.fromkeys(NONE), **kw)
    t.call("subset", lambda: c.subset(**kw),
           lambda r: dict(res=[bool(b) for b in r], kept=[bool(b) for b in c.indx], par=par, after=observe(c), mask_after=marg(mask)), q=e)


def do_sub(t, c, rng):
    q, mask = query(rng, c, few=True)
    big = c.ntot > 90
    centre = bool(rng.integers(4) == 0) or big
    nb = int(rng.integers(5))
    if c.units == "radec":
        nb = 0
    opt = dict(centre=centre, nbody=nb in (1, 2, 3), mass=nb in (1, 2), radii=nb in (1, 3), sort=bool(rng.integers(4)))
    if c.units == "nbody" and opt["nbody"]:
        opt["centre"] = False
    kw = sent(q, mask)
    if rng.integers(3) == 0:
        kw = dict(dict.fromkeys(NONE), **kw)
    if opt["centre"]:
        kw["reset_centre"] = True
    if nb == 1:
        kw["reset_nbody"] = True
    if nb == 2:
        kw["reset_nbody_mass"] = True
    if nb == 3:
        kw["reset_nbody_radii"] = True
    kw["sortstars"] = opt["sort"]
    par = observe(c)
    exact = not opt["nbody"]
    box = []

    def run():
        s = ct.sub_cluster(c, **kw)
        box.append(s)
        return s

    def seen(s):
        ch = observe(s) if s.ntot > 0 else dict(n=0)
        return dict(par=par, after=observe(c), child=ch, mask_after=marg(mask),
                    follow=bool(s.ntot > 0 and not (c.units == "radec" and (c.origin != "sky" or opt["centre"]))))
    t.call("sub", run, seen, q=dict(q, mask=marg(mask), npop=arg(q["npop"])), opt=opt, exact=exact, fresh=bool(opt["centre"] or opt["nbody"]))
    if t.failed or not t.ev[-1]["follow"] or rng.integers(2):
        return
    s = box[0]
    for _ in range(int(rng.integers(1, 4))):
        if rng.integers(2):
            u = str(rng.choice(C.CART + ["radec"]))
            t.call("units", lambda: getattr(s, "to_" + u)(), lambda _: dict(obs=C.state(s)), u=u)
        else:
            o = str(rng.choice(["cluster", "centre", "galaxy"]))
            t.call("origin", lambda: s.to_origin(o), lambda _: dict(obs=C.state(s)), o=o)
        if t.failed:
            return


def scenario(prop, rng, i):
    def run(t):
        n = int(rng.integers(1, 25)) if i % 40 or prop == "C06" else int(rng.integers(120, 150))
        c = parent(rng, n, prop)
        if prop == "C06":
            for _ in range(3):
                do_subset(t, c, rng)
                if t.failed:
                    return
        else:
            do_sub(t, c, rng)
    return run


def make(prop, tier, seed, work):
    rng = np.random.default_rng([seed, int(prop[1:])])
    n = {"C06": 250, "C07": 400}[prop] * (1 if tier == "quick" else 12)
    return [K.record("%s:%d" % (prop, i), scenario(prop, rng, i)) for i in range(n)], {}
