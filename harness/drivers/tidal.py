"""C26: tidal and limiting radii of random clusters in random potentials"""
import numpy as np
import clustertools as ct
import common as K
import clusters as C
from members import arg
from galpy import potential as gp


def component(rng, smooth):
    kind = str(rng.choice(["log", "plummer", "nfw", "disc"] + ([] if smooth else ["kepler"])))
    amp, a, b = float(10 ** rng.uniform(-0.7, 0.7)), float(rng.uniform(0.05, 2)), float(rng.uniform(0.1, 0.8))
    real = dict(log=lambda: gp.LogarithmicHaloPotential(amp=amp, core=a), plummer=lambda: gp.PlummerPotential(amp=amp, b=a),
                kepler=lambda: gp.KeplerPotential(amp=amp), nfw=lambda: gp.NFWPotential(amp=amp, a=a),
                disc=lambda: gp.MiyamotoNagaiPotential(amp=amp, a=a, b=b))[kind]
    return dict(kind=kind, amp=amp, a=a, b=b), real


def scaled(g, f):
    """the same potential, f times as strong"""
    g = dict(g, amp=g["amp"] * f)
    return g, dict(log=lambda: gp.LogarithmicHaloPotential(amp=g["amp"], core=g["a"]), plummer=lambda: gp.PlummerPotential(amp=g["amp"], b=g["a"]),
                   nfw=lambda: gp.NFWPotential(amp=g["amp"], a=g["a"]), disc=lambda: gp.MiyamotoNagaiPotential(amp=g["amp"], a=g["a"], b=g["b"]))[g["kind"]]


def cluster(rng, n):
    u = str(rng.choice(C.CART + ["radec"]))
    o = str(rng.choice(["cluster", "centre", "galaxy"]))
    c = C.make(rng, "pckms" if u == "radec" else u, o, n=n, **C.SETS[rng.integers(3)])
    # a cluster of a few parsecs with a dense core
    o0 = [c.xgc + c.xc, c.ygc + c.yc, c.zgc + c.zc] if o == "galaxy" else [c.xc, c.yc, c.zc] if o == "cluster" else [0, 0, 0]
    f = rng.uniform(0.02, 1, c.ntot) ** 2
    for k, q in enumerate("xyz"):
        setattr(c, q, (getattr(c, q) - o0[k]) * f + o0[k])
    if u == "radec":
        c.to_sky()
    c.analyze(sortstars=True)
    return c


def where(rng, c, kw, q):
    k = rng.integers(4)
    if k == 0:
        q["rgc"], q["zgc"] = arg(float(rng.uniform(2, 15))), arg(float(rng.uniform(-3, 3)))
        kw.update(rgc=q["rgc"]["v"], zgc=q["zgc"]["v"])
    elif k == 1:
        q["centre"] = kw["from_centre"] = True


def observe(c, r, name, method, same):
    return dict(rad=C.one(r), attr=C.one(getattr(c, name)) if method else 0.0, after=C.full(c), same=bool(same()))


def tidal(rng):
    def run(t):
        c = cluster(rng, int(rng.integers(3, 60)))
        for _ in range(2):
            G = [component(rng, False) for _ in range(int(rng.integers(1, 4)))]
            q = dict(pot=[g for g, _ in G], mask=arg(None), rgc=arg(None), zgc=arg(None), centre=False, pro=False, n=0, conv=0.9, nrad=0)
            pots = [f() for _, f in G]
            kw = dict(pot=pots[0] if len(pots) == 1 and rng.integers(2) else pots)
            where(rng, c, kw, q)
            if rng.integers(3):
                q["n"] = kw["rtiterate"] = int(rng.integers(1, 12))
                if rng.integers(2):
                    q["conv"] = kw["rtconverge"] = float(rng.uniform(0.5, 0.999))
            mask = None
            if rng.integers(3) == 0:
                mask = rng.integers(0, 4, c.ntot) > 0
                mask[0] = True
                q["mask"] = dict(k="many", v=[bool(b) for b in mask])
                kw["indx"] = mask.copy()
            method = bool(rng.integers(2))
            pre = C.init_of(c)
            pre["sorted"] = True
            t.call("rtidal", lambda: c.rtidal(**kw) if method else ct.rtidal(c, **kw),
                   lambda r: observe(c, r, "rt", method, lambda: mask is None or np.array_equal(kw["indx"], mask)), q=q, pre=pre, method=method)
            if t.failed:
                return
    return run


def limiting(rng):
    def run(t):
        n = int(rng.integers(30, 120))
        c = cluster(rng, n)
        q = dict(mask=arg(None), rgc=arg(None), zgc=arg(None), centre=False, pro=bool(rng.integers(2)), n=0, conv=0.9, nrad=20)
        kw = {}
        where(rng, c, kw, q)
        if q["pro"]:
            kw["projected"] = True
        if rng.integers(2):
            q["nrad"] = kw["nrad"] = int(rng.integers(3, min(20, n // 4))) if rng.integers(3) or n < 90 else int(rng.integers(21, n // 3 - 3))
        G = [component(rng, True) for _ in range(int(rng.integers(1, 3)))]
        # a background that is reached somewhere in the cluster, as a rule
        f = float(10 ** rng.uniform(-2.5, 2.5))
        G = [scaled(g, f) for g, _ in G]
        pots = [h() for _, h in G]
        q["pot"] = [g for g, _ in G]
        kw["pot"] = pots[0] if len(pots) == 1 and rng.integers(2) else pots
        method = bool(rng.integers(2))
        pre = C.init_of(c)
        pre["sorted"] = True
        t.call("rlimiting", lambda: c.rlimiting(**kw) if method else ct.rlimiting(c, **kw),
               lambda r: observe(c, r, "rl", method, lambda: True), q=q, pre=pre, method=method)
    return run


def make(prop, tier, seed, work):
    rng = np.random.default_rng([seed, 26])
    n = 120 if tier == "quick" else 2500
    out = [K.record("rtidal:%d" % i, tidal(rng)) for i in range(n)]
    out += [K.record("rlimiting:%d" % i, limiting(rng)) for i in range(n)]
    return out, dict(generated_inputs=len(out))
