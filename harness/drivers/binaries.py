"""C09: histories of conversions of a cluster with binaries"""
import numpy as np
import common as K
import clusters as C
from members import BSE


def seen(c):
    k = [np.atleast_1d(getattr(c, n)) for n in ("semi", "pb", "m1", "m2")]
    n = {len(q) for q in k}
    return dict(obs=C.state(c), bu1=str(c.bunits),
                bin=[dict(a=float(k[0][i]), p=float(k[1][i]), m1=float(k[2][i]), m2=float(k[3][i])) for i in range(max(n))] if len(n) == 1 else [])


def scenario(rng, depth):
    def run(t):
        u = str(rng.choice(C.CART))
        c = C.make(rng, u, str(rng.choice(["cluster", "centre", "galaxy"])), n=int(rng.integers(2, 9)), **C.SETS[rng.integers(3)])
        bu = str(rng.choice(["audays", "sudays", "nbody", u], p=[.35, .3, .3, .05]))
        scales = [0, 0, 0, c.rbar, 0, 0, 0, 0, c.zmbar, c.vbar, c.tbar, 0, 0, 0, 0]
        xc = [c.xc, c.yc, c.zc]
        c.add_nbody6(nc=0, rc=0, rbar=c.rbar, rtide=0, xc=xc[0], yc=xc[1], zc=xc[2], zmbar=c.zmbar, vbar=c.vbar, tbar=c.tbar, rscale=0,
                     ns=c.ntot, nb=0, n_p=0)
        n = int(rng.integers(0, 5)) if rng.integers(6) == 0 else int(rng.integers(1, 5))
        v = {q: rng.uniform(0.5, 4, n) for q in BSE}
        v["id1"], v["id2"] = 1000 + 2 * np.arange(n), 1001 + 2 * np.arange(n)
        f = dict(audays=1, sudays=215, nbody=1e-5).get(bu, 1)
        v["semi"], v["pb"] = v["semi"] * f * 10 ** rng.uniform(-2, 3, n), v["pb"] * 10 ** rng.uniform(-3, 4, n)
        if n:
            c.add_bse(*[v[q] for q in BSE])
        c.bunits = bu
        t.init = dict(C.full(c), P=C.P_of(c), bu=bu, bin=seen(c)["bin"], sorted=True)
        for _ in range(int(rng.integers(1, depth + 1))):
            k = rng.integers(10)
            if k < 5:
                b = str(rng.choice(["audays", "sudays"]))
                t.call("bunits", lambda: getattr(c, "to_" + b)(), lambda _: seen(c), bu=b)
            elif k < 8:
                w = str(rng.choice(["nbody", "nbody", "nbody"] + C.CART + ["radec"]))
                t.call("units", lambda: (c.to_units(w) if rng.integers(2) else getattr(c, "to_" + w)()), lambda _: seen(c), u=w)
            elif k < 9 or c.units in ("nbody", "radec") or c.origin == "sky":
                o = str(rng.choice(["cluster", "centre", "galaxy"]))
                t.call("origin", lambda: c.to_origin(o), lambda _: seen(c), o=o)
            else:
                m, r = bool(rng.integers(4)), bool(rng.integers(4))
                t.call("scales", lambda: c.reset_nbody_scale(mass=m, radii=r, rvirial=False), lambda _: dict(seen(c), P=C.P_of(c)), mass=m, radii=r)
            if t.failed:
                return
    return run


def make(prop, tier, seed, work):
    rng = np.random.default_rng([seed, 9])
    n = 450 if tier == "quick" else 8000
    d = 7 if tier == "quick" else 15
    return [K.record("bin:%d" % i, scenario(rng, d)) for i in range(n)], {}
