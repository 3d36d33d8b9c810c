"""C12: finding the centre of random clusters, in every way, and what is recorded"""
import numpy as np
import clustertools as ct
import common as K
import clusters as C
import histories as H
from clustertools.analysis import functions as fn

STARTS = ["xstart", "ystart", "zstart", "vxstart", "vystart", "vzstart"]


def marg(m):
    return dict(k="none") if m is None else dict(k="many", v=[bool(b) for b in m])


def scenario(rng, small):
    def run(t):
        n = int(rng.integers(8, 24)) if small else int(rng.integers(30, 70))
        kw = dict(C.SETS[rng.integers(3)])
        sky = rng.integers(6) == 0
        gc = bool(rng.integers(3))
        c = H.sky_cluster(rng, n, **kw) if sky else C.make(rng, str(rng.choice(C.CART)), str(rng.choice(["cluster", "centre", "galaxy"])), n=n, gc=gc, **kw)
        if sky and not gc:
            c.xgc = c.ygc = c.zgc = c.vxgc = c.vygc = c.vzgc = 0.0
        # a few stars far away
        k = rng.integers(0, n, max(1, n // 6))
        mid = [np.mean(getattr(c, q)) for q in "xyz"]
        if not sky:
            for q, m0 in zip("xyz", mid):
                a = getattr(c, q)
                a[k] = m0 + (a[k] - m0) * C.rnd(rng, 2, 8)
        c.analyze(sortstars=True)
        spread = float(np.std(c.x) + np.std(c.y) + np.std(c.z))
        for _ in range(2):
            how = str(rng.choice(["mass", "clip", "casertano", "harfst", "harfst"])) if small else str(rng.choice(["clip", "harfst"]))
            mask = None
            if how != "mass" and rng.integers(3) == 0:
                mask = rng.integers(0, 5, n) > 0
                mask[:4] = True
            use = n if mask is None else int(mask.sum())
            start = [0.0] * 6
            if rng.integers(2) and how in ("clip", "harfst"):
                a = [float(np.mean(getattr(c, q))) for q in ("x", "y", "z", "vx", "vy", "vz")]
                start = [q + C.rnd(rng, -.1, .1) * spread * (i < 3) for i, q in enumerate(a)]
            nsph = int(rng.integers(3, max(4, use)))
            q = dict(how=how, mask=marg(mask), start=start, nsphere=nsph, rmin=0.1, rmax=None, nmax=100, nsigma=1.0, k=6)
            kws = {s: v for s, v in zip(STARTS, start) if v != 0.0}
            if rng.integers(6):
                kws["nsphere"] = nsph
            else:
                q["nsphere"] = 100
            if rng.integers(2):
                q["rmin"] = kws["rmin"] = spread * C.rnd(rng, .001, .3)
            if rng.integers(4) == 0:
                q["rmax"] = kws["rmax"] = spread * C.rnd(rng, .5, 5)
            if rng.integers(4) == 0:
                q["nmax"] = kws["nmax"] = int(rng.integers(1, 5))
            if mask is not None:
                kws["indx"] = mask
            if how == "casertano":
                kws = {s: v for s, v in kws.items() if s == "indx"}
                kws["method"] = "casertano"
                if rng.integers(2):
                    q["k"] = kws["nneighbour"] = int(rng.integers(2, min(8, use) + 1))
            if how == "clip":
                kws = {s: v for s, v in kws.items() if s in ("nsphere", "indx") or s in STARTS}
                if rng.integers(2):
                    q["nsigma"] = kws["nsigma"] = float(rng.choice([0.7, 1.5, 2.0, 3.0, 8.0]))
                kws["density"] = False
            if how == "mass":
                kws = {}
            method, reset = bool(rng.integers(4)), bool(rng.integers(4) == 0)
            dens = how in ("casertano", "harfst") and rng.integers(2) == 0
            name = "find_centre_of_mass" if how == "mass" else "find_centre_of_density" if dens else "find_centre"
            f = getattr(c, name) if method else (lambda **k: getattr(fn, name)(c, **k))
            if method and reset:
                kws["reset_centre"] = True
            d = dict(C.full(c), P=C.P_of(c), sorted=True)
            t.call("find", lambda: f(**kws), lambda r: dict(ret=[float(w) for w in r], after=dict(C.full(c), P=C.P_of(c), sorted=True), mask_after=marg(mask)),
                   par=d, q=q, method=method, reset=reset and method, name=name)
            if not t.init:
                t.init = d
            if t.failed:
                return
            if not sky and rng.integers(2):
                for _ in range(2):
                    if rng.integers(2):
                        u = str(rng.choice(C.CART))
                        t.call("units", lambda: c.to_units(u), lambda _: dict(obs=C.state(c)), u=u)
                    else:
                        o = str(rng.choice(["cluster", "centre", "galaxy"]))
                        t.call("origin", lambda: c.to_origin(o), lambda _: dict(obs=C.state(c)), o=o)
                    if t.failed:
                        return
                spread = float(np.std(c.x) + np.std(c.y) + np.std(c.z))
    return run


def make(prop, tier, seed, work):
    rng = np.random.default_rng([seed, 12])
    n = 350 if tier == "quick" else 6000
    return [K.record("centre:%d" % i, scenario(rng, i % 3 > 0), limit=20) for i in range(n)], {}
