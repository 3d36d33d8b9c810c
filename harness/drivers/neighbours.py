"""C19: nearest neighbours and overlaps of random clusters, with clumps and coincident stars"""
import numpy as np
import clustertools as ct
import common as K
import clusters as C
from common import F
from clustertools.analysis import functions as fn
from clustertools.cluster.cluster import overlap_cluster


def cluster(rng, n, u, o, **kw):
    c = C.make(rng, u, o, n=n, **kw)
    if rng.integers(3) == 0 and n > 4:      # coincident stars, in space or only in projection
        for _ in range(int(rng.integers(1, n // 2))):
            i, j = rng.integers(0, n, 2)
            c.x[i], c.y[i] = c.x[j], c.y[j]
            if rng.integers(2):
                c.z[i] = c.z[j]
        c.analyze(sortstars=True)
    return c


def closest(t, c, rng):
    pro = [None, False, True][rng.integers(3)]
    method = bool(rng.integers(2))
    argu = bool(rng.integers(2))
    if rng.integers(4) == 0:
        c.projected = True
    kw = {} if pro is None else dict(projected=pro)
    if argu:
        kw["argument"] = True
    flat = c.origin == "sky" or (pro if pro is not None else bool(method and c.projected))
    par = C.state(c)

    def show(r):
        d, a = r if argu else (r, [])
        e = dict(after=C.state(c), dist=F(d), arg=[int(i) for i in a], kept=F(c.dclosest) if method else [], keptarg=[])
        if method and argu:
            e["keptarg"] = [int(i) for i in c.argclosest]
        return e
    t.call("closest", (lambda: c.closest_star(**kw)) if method else (lambda: fn.closest_star(c, **kw)), show, par=par, q=dict(flat=bool(flat), arg=argu), method=method)


def overlap(t, c, d, rng):
    pro = bool(rng.integers(2))
    kw = dict(projected=True) if pro else {}
    k = (2 if pro else 3)
    a, b = np.array([c.x, c.y, c.z])[:k], np.array([d.x, d.y, d.z])[:k]
    s = np.sort(np.sqrt(((a[:, :, None] - b[:, None, :]) ** 2).sum(0)).min(1))
    s = np.concatenate([[0.5 * s[0]], s, [2 * s[-1]]])
    i = int(rng.integers(0, len(s) - 1))
    tol = float(0.5 * (s[i] + s[i + 1]))
    if rng.integers(8) == 0:
        tol = 0.1
        if np.any(np.abs(s - 0.1) < 1e-9):
            tol = kw["tol"] = 0.05
    else:
        kw["tol"] = tol
    whole = bool(rng.integers(2)) and i > 0 and "tol" in kw
    if not whole:
        kw["return_cluster"] = False
    par, other = C.state(c), C.state(d)
    t.call("overlap", lambda: overlap_cluster(c, d, **kw),
           lambda r: dict(after=C.state(c), other_after=C.state(d), mask=[] if whole else [bool(v) for v in r], child=C.state(r) if whole else {}),
           par=par, other=other, q=dict(flat=pro, tol=tol, cluster=whole))


def scenario(rng, i):
    def run(t):
        u = str(rng.choice(C.CART))
        o = str(rng.choice(["cluster", "centre", "galaxy"]))
        n = int(rng.integers(2, 34))
        if i % 3 == 0:
            c = cluster(rng, n, u, o)
            d = cluster(rng, int(rng.integers(1, 30)), u, o)
            if o == "galaxy":           # bring them together
                for q in "xyz":
                    setattr(d, q, getattr(d, q) - np.mean(getattr(d, q)) + np.mean(getattr(c, q)))
            overlap(t, c, d, rng)
            return
        c = cluster(rng, n, u, o, **C.SETS[rng.integers(3)])
        for _ in range(2):
            closest(t, c, rng)
            if t.failed:
                return
            if rng.integers(5) == 0:
                c.to_galaxy()
                c.to_radec()
            else:
                c.to_units(str(rng.choice(C.CART)))
                c.to_origin(str(rng.choice(["cluster", "centre", "galaxy"])))
    return run


def make(prop, tier, seed, work):
    rng = np.random.default_rng([seed, 19])
    n = 400 if tier == "quick" else 8000
    return [K.record("%s:%d" % (prop, i), scenario(rng, i)) for i in range(n)], {}
