"""C13, C14: characteristic radii and relaxation times of random clusters"""
import numpy as np
import clustertools as ct
import common as K
import clusters as C
from common import F
from members import arg
from clustertools.analysis import functions as fn

ATTR = dict(rlagrange="rn", rvirial="rv", rcritical="rv", rcore="rc", risocore="rc", trelax="trelax", trh="trh", trc="trc")


def falls(c, q):
    x = np.array([c.x, c.y, c.z])
    if c.origin == "galaxy":
        x = x - np.array([[c.xgc + c.xc], [c.ygc + c.yc], [c.zgc + c.zc]])
    elif c.origin == "cluster":
        x = x - np.array([[c.xc], [c.yc], [c.zc]])
    r = np.sqrt(np.sum(x[:2 if q["pro"] else 3] ** 2, axis=0))
    o = np.argsort(r)
    d = [len(i) and np.sum(c.m[i]) / (np.max(r[i]) ** 2 if q["pro"] else np.max(r[i]) ** 3) for i in np.array_split(o, q["nrad"])]
    return len(set(r)) == len(r) and np.min(d) < 0.05 * d[0]


def one(t, c, rng, prop):
    ops = ["rlagrange", "rlagrange", "rfraction", "rvirial", "rcritical", "rcore", "risocore"] if prop == "C13" else ["trelax", "trelax", "trh", "trc"]
    op = str(rng.choice(ops))
    pro = [None, True, False][rng.integers(3)]
    method = bool(rng.integers(2)) and op != "rfraction"
    kw = {} if pro is None else dict(projected=pro)
    q = dict(pro=bool(pro) if pro is not None else (bool(c.projected) if method and op not in ("rcore", "risocore") else False))
    d = dict(C.full(c), P=C.P_of(c), sorted=True)
    # shares of the mass that are met exactly by a whole number of equal stars
    tie = c.ntot == 16 and c.units in ("pckms", "pcmyr", "kpckms") and bool(np.all(np.asarray(c.m) == 1.0))
    q["tie"] = tie
    if op == "rlagrange":
        q["n"] = 10
        if tie:
            q["n"] = kw["nlagrange"] = int(rng.choice([2, 4, 8, 16]))
        elif rng.integers(3):
            q["n"] = kw["nlagrange"] = int(rng.integers(2, 14))
        name = op
    elif op == "rfraction":
        q["f"] = kw["mfrac"] = float(rng.uniform(0.02, 0.98))
        if tie:
            q["num"] = int(rng.integers(1, c.ntot))
            q["f"] = kw["mfrac"] = q["num"] / c.ntot
        name = "rlagrange"
    elif op in ("rvirial", "rcritical"):
        name = "virial_radius"
        if op == "rvirial":
            if rng.integers(2):
                kw["full"] = bool(rng.integers(2))
            if rng.integers(3) == 0:
                kw["method"] = "inverse_distance"
        else:
            kw["method"] = "critical_density"
            q["H"] = 70.0
            if rng.integers(2):
                q["H"] = kw["H"] = C.rnd(rng, 50, 90)
            # somewhere in the range of the cluster's mean densities
            r = np.sort(c.r) / C.raw_factors(c, c.units)[0]
            k = int(rng.integers(0, c.ntot))
            m = c.mtot / c.ntot / C.raw_factors(c, c.units)[2]
            if c.units == "galpy":
                m, r = 10., np.linspace(1, 40, c.ntot)
            q["over"] = kw["overdens"] = float((k + 1) * m / (4.19 * r[k] ** 3) / 1.36e-7 * rng.uniform(0.5, 2))
    elif op == "rcore":
        name = "rcore"
        q["k"] = 6
        if rng.integers(2):
            q["k"] = kw["nneighbour"] = int(rng.integers(2, min(c.ntot, 9) + 1))
    elif op == "risocore":
        name = "rcore"
        kw["method"] = "isothermal"
        q["f"] = 0.1
        if c.ntot < 40 or rng.integers(2):
            q["f"] = kw["mfrac"] = C.rnd(rng, max(0.07, 4. / c.ntot), 0.5)
        q["nrad"] = int(np.ceil(1. / q["f"]))
        if not falls(c, q):     # a profile that never falls has no core radius
            return
    else:
        name = dict(trelax="relaxation_time", trh="half_mass_relaxation_time", trc="core_relaxation_time")[op]
        q["coulomb"] = 0.4
        if rng.integers(2):
            q["coulomb"] = kw["coulomb"] = C.rnd(rng, 0.11, 1) + 2. / c.ntot
        q["rad"] = dict(k="none")
        if op == "trelax" and rng.integers(2):
            s = np.sort(c.rpro if q["pro"] else c.r)
            i = int(rng.integers(1, len(s)))
            v = float(0.5 * (s[i - 1] + s[i])) if c.origin != "galaxy" else float(np.std(c.x) * rng.uniform(1, 2))
            q["rad"] = arg(v)
            kw["rad"] = v
    f = getattr(c, name) if method else (lambda **k: getattr(fn, name)(c, **k))
    t.call(op, lambda: f(**kw), lambda r: dict(ret=F(r), kept=F(getattr(c, ATTR[op])) if method else [], after=C.state(c)), par=d, q=q, method=method)


def scenario(prop, rng):
    def run(t):
        n = int(rng.integers(8, 26))
        if prop == "C14":   # stars of the same mass, but never exactly half of it inside a star
            n |= 1
        c = C.make(rng, str(rng.choice(C.CART)), str(rng.choice(["cluster", "centre", "galaxy"])), n=n, **C.SETS[rng.integers(3)])
        masses = rng.integers(6)
        if prop == "C13" and masses == 0 and c.units in ("pckms", "pcmyr", "kpckms"):      # equal stars
            c = C.make(rng, c.units, c.origin, n=16, **C.SETS[rng.integers(3)])
            n = 16
            c.m = np.ones(n)
            c.analyze(sortstars=True)
        elif masses <= 2:   # several stars of the same mass
            c.m = np.asarray(c.m)[rng.integers(0, 4, n)]
            c.analyze(sortstars=True)
        elif masses == 3 and prop == "C13":    # enough of them for a profile
            c = C.make(rng, c.units, c.origin, n=int(rng.integers(40, 80)), **C.SETS[rng.integers(3)])
            n = c.ntot
        if rng.integers(6) == 0:    # a centre known to lie in one of the planes
            setattr(c, str(rng.choice(["xc", "yc", "zc"])), 0.0)
        if rng.integers(3) == 0:
            c.projected = True
        k = rng.integers(4)
        if k == 0:          # orders of an earlier state of the cluster
            c.rorder = c.rproorder = rng.permutation(n)
        if k == 1:
            c.rorder = c.rproorder = c.rorder_origin = None
        for _ in range(2):
            one(t, c, rng, prop)
            if t.failed:
                return
            if rng.integers(2):
                c.to_units(str(rng.choice(C.CART)))
            if rng.integers(3) == 0:
                c.to_origin(str(rng.choice(["cluster", "centre", "galaxy"])))
    return run


def make(prop, tier, seed, work):
    rng = np.random.default_rng([seed, int(prop[1:])])
    n = 400 if tier == "quick" else 8000
    return [K.record("%s:%d" % (prop, i), scenario(prop, rng)) for i in range(n)], {}
