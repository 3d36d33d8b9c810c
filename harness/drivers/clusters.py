"""building and observing real StarClusters"""
import numpy as np, copy as _copy
import clustertools as ct
from common import F
try:
    import amuse.units.units as U
except Exception:
    U = None

CART = ["pckms", "kpckms", "pcmyr", "kpcgyr", "galpy", "nbody", "WDunits"]
KMS = 1.022712165045695


def P_of(c):
    s = c._solarmotion
    return dict(ro=float(c._ro), vo=float(c._vo), zo=float(c._zo), sx=float(s[0]), sy=float(s[1]), sz=float(s[2]),
                zm=float(c.zmbar), rb=float(c.rbar), vb=float(c.vbar), tb=float(c.tbar))


def val(x, kind):
    """number(s) of an attribute; amuse quantities in pc, km/s, MSun, Myr"""
    if hasattr(x, "value_in"):
        return x.value_in({"l": U.parsec, "v": U.kms, "m": U.MSun, "t": U.Myr}[kind])
    if isinstance(x, np.ndarray) and x.dtype == object and x.ndim == 1:
        return np.array([val(q, kind) for q in x], float)
    return x


def vec6(a, b, c, d, e, f):
    return [float(np.ravel(val(q, k))[0]) for q, k in zip((a, b, c, d, e, f), "lllvvv")]


def state(c):
    cols = [np.atleast_1d(val(getattr(c, n), "l" if i < 3 else "v")) for i, n in enumerate(("x", "y", "z", "vx", "vy", "vz"))]
    n = min(len(q) for q in cols)
    if max(len(q) for q in cols) != n:
        n = -1
    return dict(u=str(c.units), o=str(c.origin), x=[[float(q[i]) for q in cols] for i in range(max(n, 0))],
                m=F(val(c.m, "m")), id=[int(i) for i in c.id],
                cen=vec6(c.xc, c.yc, c.zc, c.vxc, c.vyc, c.vzc), gc=vec6(c.xgc, c.ygc, c.zgc, c.vxgc, c.vygc, c.vzgc),
                cm=str(c.centre_method), t=float(np.ravel(val(c.tphys, "t"))[0]))


def one(x, k="l"):
    if x is None:
        return None
    return float(np.ravel(val(x, k))[0])


def derived(c):
    d = {}
    for n, k in (("r", "l"), ("rpro", "l"), ("v", "v"), ("vpro", "v")):
        d[n] = F(val(getattr(c, n), k)) if hasattr(c, n) else []
    for n, k in (("mtot", "m"), ("mmean", "m"), ("rmean", "l"), ("rmax", "l"), ("rmeanpro", "l"), ("rmaxpro", "l"),
                 ("rm", "l"), ("r10", "l"), ("rmpro", "l"), ("r10pro", "l"),
                 ("rh", "l"), ("rh10", "l"), ("rhpro", "l"), ("rh10pro", "l")):
        d[n] = one(getattr(c, n, None), k)
    return d


def order(o):
    return [] if o is None else [int(i) + 1 for i in np.ravel(o)]


def full(c):
    s = state(c)
    s.update(d=derived(c), ord=order(c.rorder), ordpro=order(c.rproorder), lum=F(c.lum))
    return s


def init_of(c):
    s = state(c)
    s["P"] = P_of(c)
    return s


def rnd(rng, lo, hi):
    return float(rng.uniform(lo, hi))


def make(rng, u="kpckms", o="galaxy", n=7, ro=None, vo=None, zo=None, solar=None, scales=True, cen=True, gc=True, **kw):
    """a cluster built directly in Cartesian units u and origin o"""
    kws = {}
    if ro is not None:
        kws.update(ro=ro, vo=vo, zo=zo, solarmotion=solar)
    kws.update(kw)
    c = ct.StarCluster(rnd(rng, 10, 9000), units=u, origin=o, **kws)
    L = {"pckms": 1.0, "pcmyr": 1.0, "amuse": 1.0}.get(u, 1e-3)
    S = rnd(rng, 3, 40)
    gp = rng.uniform(-1, 1, 3) * 9000.0
    gp[2] *= 0.3
    gv = rng.uniform(-1, 1, 3) * 180.0
    if not gc:
        gp, gv = gp * 0, gv * 0
    cp = rng.normal(0, 6, 3) if cen else np.zeros(3)
    cv = rng.normal(0, 2, 3) if cen else np.zeros(3)
    p = rng.normal(0, S, (n, 3)) + (gp + cp if o == "galaxy" else cp if o == "cluster" else 0)
    v = rng.normal(0, 5, (n, 3)) + (gv + cv if o == "galaxy" else cv if o == "cluster" else 0)
    if scales:
        c.zmbar, c.rbar = rnd(rng, 50, 5e4), rnd(rng, 0.5, 20)
        c.vbar = rnd(rng, 0.2, 9)
        c.tbar = rnd(rng, 0.1, 30)
    l, vf, mf, tf = raw_factors(c, u)
    m = rng.uniform(0.1, 20, n)
    ids = rng.permutation(5 * n)[:n] + 1
    c.tphys = c.tphys * tf
    c.add_stars(*(p.T * l), *(v.T * vf), m * mf, [int(i) for i in ids], sortstars=True)
    c.add_orbit(*(gp * l), *(gv * vf))
    c.xc, c.yc, c.zc = [float(q) for q in cp * l]
    c.vxc, c.vyc, c.vzc = [float(q) for q in cv * vf]
    c.analyze(sortstars=True)
    return c


def raw_factors(c, u):
    """only to choose sensible raw magnitudes; the specification has its own table"""
    if u == "galpy":
        return 1e-3 / c._ro, 1.0 / c._vo, 1e-11, 1e-3
    if u == "nbody":
        return 1.0 / c.rbar, 1.0 / c.vbar, 1.0 / c.zmbar, 1.0 / c.tbar
    return {"pckms": (1, 1, 1, 1), "kpckms": (1e-3, 1, 1, 1e-3), "pcmyr": (1, KMS, 1, 1), "kpcgyr": (1e-3, KMS, 1, 1e-3),
            "WDunits": (1e-3, KMS, 5e-6, 1e-3)}[u]


SETS = [dict(), dict(ro=8.0, vo=220.0, zo=0.02, solar=[-11.1, 12.24, 7.25]),
        dict(ro=8.5, vo=235.0, zo=0.0, solar=[-9.5, 20.0, 6.0])]
