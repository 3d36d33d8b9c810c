"""C25: coordinates of random points, on and off the axes, and of the stars of a cluster"""
import numpy as np
import clustertools as ct
import common as K
import clusters as C
from clusters import U

DEF = dict(ro=8.275, vo=239.23725, zo=0.0208, sx=-11.1, sy=12.24, sz=7.25)
ONE = dict(zm=1.0, rb=1.0, vb=1.0, tb=1.0)


def rows(r):
    """one row of six numbers per point"""
    q = [np.atleast_1d(np.asarray(C.val(v, "l" if j < 3 else "v"), float)) for j, v in enumerate(r)]
    n = max(len(v) for v in q)
    if any(v.ndim != 1 or len(v) not in (1, n) for v in q):
        return []
    return [[float(v[i] if len(v) == n else v[0]) for v in q] for i in range(n)]


def points(rng, n, sky):
    if sky:
        x = np.column_stack([rng.normal(0, 12, (n, 2)), rng.normal(0, 4, n)])
        return np.column_stack([x, rng.normal(0, 150, (n, 3))])
    x = rng.normal(0, 1, (n, 3)) * 10 ** rng.uniform(-3, 5)
    v = rng.normal(0, 1, (n, 3)) * 10 ** rng.uniform(-3, 3)
    for k in range(n):
        z = rng.integers(8)
        if z < 3:               # in a coordinate plane
            x[k, z] = 0.0
        elif z < 6:             # on an axis
            keep = x[k, z - 3]
            x[k] = 0.0
            x[k, z - 3] = keep
        if rng.integers(6) == 0:
            v[k, rng.integers(3)] = 0.0
    return np.column_stack([x, v])


def free(rng, kind):
    def run(t):
        n = int(rng.choice([1, 1, 2, 6]))
        scalar = n == 1 and rng.integers(2) == 0
        if kind in ("fromcyl", "fromsphere"):
            w = np.column_stack([10 ** rng.uniform(-3, 5, n), rng.uniform(-7, 7, n),
                                 rng.normal(0, 10, n) if kind == "fromcyl" else rng.uniform(0, np.pi, n), rng.normal(0, 30, (n, 3))])
        else:
            w = points(rng, n, kind == "sky")
        if kind in ("cyl", "sphere") and rng.integers(6) == 0 and not scalar:
            w = np.round(w)
            w[np.all(w[:, :3] == 0, axis=1), 0] = 2
            a = [np.array(q, int) for q in w.T]
        else:
            a = [float(q[0]) if scalar else q.copy() for q in w.T]
        f = dict(cyl=ct.cart_to_cyl, sphere=ct.cart_to_sphere, fromcyl=ct.cyl_to_cart, fromsphere=ct.sphere_to_cart, sky=ct.cart_to_sky)[kind]
        kw, P = {}, dict(DEF)
        if kind == "sky" and rng.integers(2):
            P.update(ro=float(rng.uniform(7, 9)), vo=float(rng.uniform(200, 250)), sx=-9.0, sy=float(rng.uniform(5, 25)), sz=float(rng.uniform(4, 9)))
            kw = dict(ro=P["ro"], vo=P["vo"], solarmotion=[P["sx"], P["sy"], P["sz"]])
        P.update(ONE)
        t.call("convert", lambda: f(*a, **kw), lambda r: dict(w=rows(r)), kind=kind, a=[[float(q) for q in r] for r in w], P=P)
    return run


def cluster(rng):
    def run(t):
        u = str(rng.choice(C.CART + ["radec"] + (["amuse"] if U is not None else [])))
        o = str(rng.choice(["cluster", "centre", "galaxy"]))
        c = C.make(rng, "pckms" if u in ("radec", "amuse") else u, o, n=int(rng.integers(2, 9)), **C.SETS[rng.integers(3)])
        if u == "radec":
            c.to_sky()
        elif u == "amuse":
            c.to_amuse()
        for k in range(2):
            kind = str(rng.choice(["clsky", "clcyl", "clsphere"]))
            f = dict(clsky=ct.sky_coords, clcyl=ct.cyl_coords, clsphere=ct.sphere_coords)[kind]
            pre = C.init_of(c)
            pre["sorted"] = True
            t.call("convert", lambda: f(c), lambda r: dict(w=rows(r), after=C.full(c)), kind=kind, a=pre["x"], P=pre["P"], pre=pre)
            if t.failed:
                return
    return run


def make(prop, tier, seed, work):
    rng = np.random.default_rng([seed, 25])
    n = 60 if tier == "quick" else 1500
    out = []
    for kind in ("cyl", "sphere", "fromcyl", "fromsphere", "sky"):
        for i in range(n):
            out.append(K.record("%s:%d" % (kind, i), free(rng, kind)))
    for i in range(3 * n):
        out.append(K.record("cluster:%d" % i, cluster(rng)))
    return out, dict(generated_inputs=len(out))
