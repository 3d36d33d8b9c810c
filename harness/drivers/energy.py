"""C10: energies of random clusters with every combination of options"""
import numpy as np
import clustertools as ct
import common as K
import clusters as C
from common import F


def attr(c):
    d = {n: F(getattr(c, n)) for n in ("kin", "pot", "etot")}
    d.update({n: (float(getattr(c, n)) if hasattr(c, n) else None) for n in ("ektot", "ptot", "qvir")})
    return d


def choose(rng, c):
    """requested stars in every accepted form; returns (argument, indices in order)"""
    k = rng.integers(6)
    n = c.ntot
    if k < 2:
        return None, list(range(n))
    if k == 2:
        i = int(rng.integers(n))
        return (int(c.id[i]) if rng.integers(2) else c.id[i]), [i]
    sel = np.sort(rng.permutation(n)[: int(rng.integers(1, n + 1))])
    if k == 3:
        m = np.zeros(n, bool)
        m[sel] = True
        return m, list(sel)
    ids = rng.permutation([c.id[i] for i in sel])
    return ([int(q) for q in ids] if k == 4 else np.array(ids)), list(sel)


def scenario(rng, big):
    def run(t):
        u, o = str(rng.choice(C.CART)), str(rng.choice(["cluster", "centre", "galaxy"]))
        n = int(rng.integers(330, 420)) if big else int(rng.integers(2, 14))
        c = C.make(rng, u, o, n=n, **C.SETS[rng.integers(3)])
        if rng.integers(3) == 0:
            c.projected = True
        scale = float(np.std(c.x))
        for _ in range(2):
            ids, which = choose(rng, c) if not big or rng.integers(3) == 0 else (None, list(range(n)))
            method = bool(rng.integers(2))
            pro = [None, True, False][rng.integers(3)]
            q = dict(sp=bool(rng.integers(2)), eps=float(scale * 10 ** rng.uniform(-2, 0.5)) if rng.integers(2) else 0.0,
                     pro=bool(pro) if pro is not None else (bool(c.projected) if method else False))
            full, par = bool(rng.integers(2)), bool(rng.integers(2)) or big
            kw = dict(specific=q["sp"], softening=q["eps"])
            if ids is not None:
                kw["i_d" if rng.integers(5) == 0 else "ids"] = ids
            if not full:
                kw["full"] = False
            if par:
                kw["parallel"] = True
            if pro is not None:
                kw["projected"] = pro
            d, a0 = C.full(c), attr(c)
            d.update(P=C.P_of(c), sorted=True)
            probe = [int(i) for i in (rng.permutation(len(which))[:5] if big else range(len(which)))]
            ref = None
            if big and ids is None and full:
                ref = ct.energies(c, specific=q["sp"], softening=q["eps"], projected=q["pro"])[1]
            t.call("energies", lambda: (c.energies(**kw) if method else ct.energies(c, **kw)),
                   lambda r: dict(kin=F(r[0]), pot=F(r[1]), after=C.state(c), attr=attr(c)), par=d, attr0=a0, q=q, method=method,
                   which=[int(i) + 1 for i in which], probe=[p + 1 for p in probe], opt=[full, par, str(type(ids))],
                   ref=dict(k="none") if ref is None else dict(k="many", v=F(ref)))
            if t.failed:
                return
    return run


def make(prop, tier, seed, work):
    rng = np.random.default_rng([seed, 10])
    n = 300 if tier == "quick" else 6000
    return [K.record("energies:%d" % i, scenario(rng, i % 50 == 7)) for i in range(n)], {}
