"""C11: histories of virialisations, rotations, N-body scalings and conversions"""
import numpy as np
import clustertools as ct
import common as K
import clusters as C
from clustertools.cluster import operations as ops


def scenario(rng, depth, big):
    def run(t):
        u, o = str(rng.choice(C.CART)), str(rng.choice(["cluster", "centre", "galaxy"]))
        n = 300 if big else int(rng.integers(2, 13))
        c = C.make(rng, u, o, n=n, **C.SETS[rng.integers(3)])
        if rng.integers(4) == 0:
            c.projected = True
        if rng.integers(5) == 0:
            c.rorder = c.rproorder = c.rorder_origin = None
            c.analyze()
        t.init = dict(C.full(c), P=C.P_of(c), sorted=True)
        for i in range(depth):
            k = rng.integers(10)
            pro = [None, True, False][rng.integers(3)]
            P = dict(projected=pro) if pro is not None else {}
            if big or k < 2:
                qr = float(rng.choice([0.0, 1.0, 0.25, 0.5, 0.8]))
                if rng.integers(3) == 0:
                    t.call("turned", lambda: ops.add_rotation(c, qr), lambda r: dict(ret=[[float(q[j]) for q in r] for j in range(len(r[0]))], obs=C.full(c)), qrot=qr)
                    if t.failed:
                        return
                t.call("rotate", lambda: c.add_rotation(qr), lambda _: dict(obs=C.full(c), kept=float(c.qrot)), qrot=qr)
            elif k < 5:
                q = dict(qvir=float(rng.choice([0.5, 0.3, 1.1])), sp=bool(rng.integers(2)), pro=bool(c.projected) if pro is None else pro,
                         eps=float(np.std(c.x) * rng.uniform(0.01, 1)) if rng.integers(2) else 0.0)
                method = bool(rng.integers(4))
                if not method and pro is None:
                    q["pro"] = False
                full = bool(rng.integers(2))
                kw = dict(qvir=q["qvir"], specific=q["sp"], softening=q["eps"], full=full, **P)
                t.call("virialize", lambda: c.virialize(**kw) if method else ops.virialize(c, **kw),
                       lambda r: dict(obs=C.full(c), qv=float(c.qv if method else r)), q=q, method=method)
            elif k < 7 and c.units != "nbody":
                q = dict(mass=bool(rng.integers(4)), radii=bool(rng.integers(4)), rvirial=bool(rng.integers(2)), pro=bool(c.projected) if pro is None else pro)
                method = bool(rng.integers(4))
                if not method and pro is None:
                    q["pro"] = False
                kw = dict(mass=q["mass"], radii=q["radii"], rvirial=q["rvirial"], **P)

                def scale():
                    if method:
                        return c.reset_nbody_scale(**kw)
                    return ops.reset_nbody_scale(c, **kw)

                def seen(r):
                    p = C.P_of(c)
                    if not method:
                        p = dict(p, zm=float(r[0]), rb=float(r[1]), vb=float(r[2]), tb=float(r[3]))
                        c.zmbar, c.rbar, c.vbar, c.tbar = r
                    return dict(obs=C.state(c), P=p, ret=[float(w) for w in r] if r is not None else [])
                t.call("scales", scale, seen, q=q, method=method)
            elif k < 9:
                w = str(rng.choice(C.CART))
                t.call("units", lambda: c.to_units(w), lambda _: dict(obs=C.state(c)), u=w)
            else:
                w = str(rng.choice(["cluster", "centre", "galaxy"]))
                t.call("origin", lambda: c.to_origin(w), lambda _: dict(obs=C.state(c)), o=w)
            if t.failed:
                return
    return run


def make(prop, tier, seed, work):
    rng = np.random.default_rng([seed, 11])
    np.random.seed(seed)
    n, d = (400, 5) if tier == "quick" else (6000, 9)
    return [K.record("rescale:%d" % i, scenario(rng, 1 if i % 25 == 3 else int(rng.integers(1, d + 1)), i % 25 == 3)) for i in range(n)], {}
