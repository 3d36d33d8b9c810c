"""C22, C23: histories of orbit recording, initialisation and propagation in a harmonic potential"""
import numpy as np
import clustertools as ct
import common as K
import clusters as C
from common import F
from galpy.orbit import Orbit
from galpy.potential import HomogeneousSpherePotential
from clustertools.analysis import orbits as ob

DEF = C.SETS[1:]


def pot_of(k):
    return HomogeneousSpherePotential(amp=k * k / 2.0, R=1e6)


def six(o, t=None):
    a = () if t is None else (t,)
    return [np.atleast_1d(getattr(o, q)(*a)) for q in ("x", "y", "z", "vx", "vy", "vz")]


def sky(o):
    return [np.atleast_1d(getattr(o, q)()) for q in ("ra", "dec", "dist", "pmra", "pmdec", "vlos")]


def col(q):
    return [float(v[0]) for v in q]


def rows(q):
    return [[float(v[i]) for v in q] for i in range(len(q[0]))]


def given(c, rng):
    """scales a call uses: the cluster's own unless others are given"""
    p = C.P_of(c)
    kw = {}
    if rng.integers(4) == 0:
        s = DEF[rng.integers(2)]
        pick = rng.integers(4)
        if pick in (0, 3) and c.units != "galpy":
            kw["ro"], kw["vo"] = s["ro"], s["vo"]
        if pick in (1, 3):
            kw["zo"] = s["zo"]
        if pick in (2, 3):
            kw["solarmotion"] = s["solar"]
    g = dict(ro=kw.get("ro", p["ro"]), vo=kw.get("vo", p["vo"]), zo=kw.get("zo", p["zo"]))
    s = kw.get("solarmotion")
    g.update(dict(sx=p["sx"], sy=p["sy"], sz=p["sz"]) if s is None else dict(sx=s[0], sy=s[1], sz=s[2]))
    return g, kw


def same(c, rng):
    p = C.P_of(c)
    return {q: p[q] for q in ("ro", "vo", "zo", "sx", "sy", "sz")}, {}


def a_time(c, rng):
    """a time in the units of the cluster, and a frequency that makes it a fraction of a few periods"""
    myr = float(10 ** rng.uniform(0, 3)) * (1 if rng.integers(3) else -1)
    nat = myr / (1000.0 * c._ro / c._vo / C.KMS)
    k = float(rng.uniform(0.3, 6.0)) / abs(nat)
    f = {"pckms": 1.0, "pcmyr": 1.0, "galpy": 1.0 / (1000.0 * c._ro / c._vo / C.KMS), "nbody": 1.0 / c.tbar}.get(c.units, 1e-3)
    return myr * f, k


def orbit_in(c, rng, ou):
    p = rng.uniform(-1, 1, 3) * 9.0
    v = rng.uniform(-1, 1, 3) * 200.0
    if ou == "radec":
        return [float(rng.uniform(0, 360)), float(rng.uniform(-80, 80)), float(rng.uniform(1, 20)),
                float(rng.uniform(-9, 9)), float(rng.uniform(-9, 9)), float(rng.uniform(-250, 250))]
    l, vf, _, _ = C.raw_factors(c, ou)
    return [float(q) for q in list(p * 1000 * l) + list(v * vf)]


def add(t, c, rng, ou=None):
    ou = ou if ou else ([None] + C.CART + ["radec"])[rng.integers(len(C.CART) + 2)]
    w = orbit_in(c, rng, ou or c.units)
    timed = bool(rng.integers(2))
    tv = float(rng.uniform(0.1, 10))
    kw = dict(tphys=tv) if timed else {}
    if ou is not None:
        kw["ounits"] = ou
    ini = rng.integers(3) == 0
    fc = bool(ini and rng.integers(2)) and c.units != "radec"
    if ini:
        kw["initialize"] = True
        if fc:
            kw["from_centre"] = True
    sky0 = c.units == "radec"
    t.call("addorbit", lambda: c.add_orbit(*w, **kw), lambda r: dict(obs=C.state(c)), ou=ou, w=w, timed=timed, t=tv,
           loose=bool(ou == "radec" or sky0))
    if ini and not t.failed:
        g, _ = same(c, rng)
        t.call("recorded", lambda: c.orbit, lambda o: dict(xv=col(six(o)), sky=col(sky(o))), fc=fc, g=g)
    return sky0


def init(t, c, rng, many):
    g, kw = given(c, rng)
    method = bool(rng.integers(2))
    if many:
        if c.units == "radec" and c.origin != "sky":
            return
        f = (lambda: c.initialize_orbits(**kw)) if method else (lambda: ob.initialize_orbits(c, **kw))
        t.call("inits", f, lambda o: dict(xv=rows(six(o)), sky=rows(sky(o)), obs=C.state(c)), g=g)
        return
    fc = bool(rng.integers(2))
    if fc:
        kw["from_centre"] = True
    f = (lambda: c.initialize_orbit(**kw)) if method else (lambda: ob.initialize_orbit(c, **kw))
    t.call("init", f, lambda o: dict(xv=col(six(o)), sky=col(sky(o)), obs=C.state(c)), g=g, fc=fc)


def where(t, c, rng, many):
    if many and c.units == "radec" and c.origin != "sky":
        return
    g, kw = given(c, rng)
    tf, k = a_time(c, rng)
    nt = int(rng.integers(60, 200))
    kw.update(pot=pot_of(k), tfinal=tf, nt=nt)
    fc = bool(rng.integers(2)) and not many
    if fc:
        kw["from_centre"] = True
    old = rng.integers(6) == 0 and not fc
    f = {(0, 0): ob.interpolate_orbit, (0, 1): ob.orbit_interpolate, (1, 0): ob.interpolate_orbits, (1, 1): ob.orbits_interpolate}[(int(many), int(old))]
    t.call("wheres" if many else "where", lambda: f(c, **kw),
           lambda r: dict(r=rows([np.atleast_1d(q) for q in r]) if many else col([np.atleast_1d(q) for q in r]), obs=C.state(c)),
           g=g, k=k, t=tf, fc=fc)


def move(t, c, rng, many):
    """the methods move the cluster; True if the trace ends here"""
    if many and c.units == "radec" and c.origin != "sky":
        return
    g, kw = given(c, rng) if c.units != "radec" else same(c, rng)
    tf, k = a_time(c, rng)
    kw.update(pot=pot_of(k), tfinal=tf, nt=int(rng.integers(60, 200)))
    old = rng.integers(6) == 0
    name = {(0, 0): "interpolate_orbit", (0, 1): "orbit_interpolate", (1, 0): "interpolate_orbits", (1, 1): "orbits_interpolate"}[(int(many), int(old))]
    end = c.units == "radec"
    fc = not many and not old and bool(rng.integers(2))
    if fc:
        kw["from_centre"] = True
    t.call("movestars" if many else "movecluster", lambda: getattr(c, name)(**kw), lambda r: dict(obs=C.state(c)), g=g, k=k, t=tf, fc=fc)
    return end


def path(t, c, rng):
    g, kw = given(c, rng)
    tf, k = a_time(c, rng)
    tf = abs(tf)
    nt = int(rng.integers(20, 90))
    sk = c.units == "radec" or rng.integers(3) == 0
    fc = bool(rng.integers(2))
    made = bool(rng.integers(2))
    method = bool(rng.integers(2))
    kw.update(pot=pot_of(k), nt=nt)
    kw["dt" if rng.integers(5) == 0 else "tfinal"] = tf
    for n, v in (("skypath", sk), ("from_centre", fc), ("initialize", made)):
        if v:
            kw[n] = True
    f = (lambda: c.orbital_path(**kw)) if method else (lambda: ob.orbital_path(c, **kw))

    def show(r):
        o = (c.orbit if method else r[7]) if made else None
        e = dict(tp=F(r[0]), r=rows(r[1:7]), obs=C.state(c), xv=col(six(o)) if made else [], kept=[], kepttime=[])
        if method:
            e.update(kept=rows([c.xpath, c.ypath, c.zpath, c.vxpath, c.vypath, c.vzpath]), kepttime=F(c.tpath))
        return e
    t.call("path", f, show, g=g, k=k, t=tf, fc=fc, nt=nt, sky=bool(sk), made=made, method=method)


def create(t, c, rng):
    s = C.SETS[rng.integers(3)]
    kw = {} if not s else dict(ro=s["ro"], vo=s["vo"], zo=s["zo"], solarmotion=s["solar"])
    w = orbit_in(c, rng, "kpckms")
    p = C.P_of(c)
    ro, vo = p["ro"], p["vo"]
    R = float(np.hypot(w[0], w[1]))
    ph = float(np.arctan2(w[1], w[0]))
    vR = float(w[3] * np.cos(ph) + w[4] * np.sin(ph))
    vT = float(-w[3] * np.sin(ph) + w[4] * np.cos(ph))
    o = Orbit([R / ro, vR / vo, vT / vo, w[2] / ro, w[5] / vo, ph], ro=ro, vo=vo, zo=p["zo"], solarmotion=[p["sx"], p["sy"], p["sz"]])
    u = str(rng.choice([q for q in C.CART if q != "nbody"] + ["radec"]))
    org = "sky" if u == "radec" else str(rng.choice(["cluster", "galaxy"]))
    t.call("create", lambda: ct.StarCluster(units=u, origin=org, orbit=o, ro=ro, vo=vo, zo=p["zo"], solarmotion=[p["sx"], p["sy"], p["sz"]]),
           lambda d: dict(gc=C.vec6(d.xgc, d.ygc, d.zgc, d.vxgc, d.vygc, d.vzgc)), u=u, w=w)


def scenario(rng, prop, i):
    def run(t):
        u = str(rng.choice(C.CART))
        o = str(rng.choice(["cluster", "centre", "galaxy"]))
        c = C.make(rng, u, o, n=int(rng.integers(1, 6)), **C.SETS[rng.integers(3)])
        t.init = dict(C.init_of(c), sorted=True)
        if prop == "C22" and rng.integers(6) == 0:
            create(t, c, rng)
            if t.failed:
                return
        for step in range(int(rng.integers(2, 6))):
            if rng.integers(2):
                q = rng.integers(5)
                if q == 0:
                    t.call("units", c.to_radec, lambda r: dict(obs=C.state(c)), u="radec", loose=True)
                elif q < 3 and c.units != "radec":
                    v = str(rng.choice(C.CART))
                    t.call("units", lambda: c.to_units(v), lambda r: dict(obs=C.state(c)), u=v, loose=True)
                elif c.units != "radec":
                    v = str(rng.choice(["cluster", "centre", "galaxy"]))
                    t.call("origin", lambda: c.to_origin(v), lambda r: dict(obs=C.state(c)), o=v, loose=True)
                if t.failed:
                    return
            end = None
            if prop == "C22":
                end = [lambda: add(t, c, rng), lambda: init(t, c, rng, False), lambda: init(t, c, rng, True)][rng.integers(3)]()
            else:
                end = [lambda: where(t, c, rng, False), lambda: where(t, c, rng, True), lambda: move(t, c, rng, False),
                       lambda: move(t, c, rng, True), lambda: path(t, c, rng)][rng.integers(5)]()
            if t.failed or end:
                return
    return run


def make(prop, tier, seed, work):
    rng = np.random.default_rng([seed, 22 if prop == "C22" else 23])
    n = {("C22", "quick"): 400, ("C22", "thorough"): 8000, ("C23", "quick"): 220, ("C23", "thorough"): 5000}[(prop, tier)]
    tr = [K.record("%s:%d" % (prop, i), scenario(rng, prop, i)) for i in range(n)]
    return tr, {}
