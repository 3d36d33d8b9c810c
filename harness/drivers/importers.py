"""C27: clusters from tables of stars, galpy orbits, AMUSE particles and lowered isothermal models"""
import os, shutil
import numpy as np
import clustertools as ct
import common as K
import clusters as C
from galpy.orbit import Orbit
from astropy.table import Table, QTable
import astropy.units as AU
try:
    from limepy import limepy
except Exception:
    limepy = None

DEFP = dict(ro=8.275, vo=239.23725, zo=0.0208, sx=-11.1, sy=12.24, sz=7.25)


def more_data():
    """the catalogue rows used, from the data files as they were when this check was written"""
    import json
    p = os.path.join(os.path.dirname(__file__), "catalogues.json")
    return json.load(open(p))


def orbit_of(rng, c, d, u, kinds):
    """none, an entry of a table, or a galpy orbit"""
    k = kinds[rng.integers(len(kinds))]
    gp, gv = rng.normal(0, 6, 3), rng.normal(0, 150, 3)
    if k == "none":
        return dict(k="none", w=[0.0] * 6, u=u), {}
    if k == "table":
        ou = u if rng.integers(2) or u == "amuse" else str(rng.choice(["pckms", "kpckms", "kpcgyr", "pcmyr", "WDunits", "galpy"]))
        if u == "amuse":
            ou = "kpckms"
        l, vf, _, _ = C.raw_factors(c, ou)
        w = [float(q) for q in gp * 1e3 * l] + [float(q) for q in gv * vf]
        with open(os.path.join(d, "orbit.txt"), "w") as f:
            f.write(" ".join(repr(q) for q in [0.0] + w) + "\n" + "1 0 0 0 0 0 0\n")
        kw = dict(ofile=open(os.path.join(d, "orbit.txt"))) if rng.integers(2) else dict(ofilename="orbit.txt")
        if ou != u:
            kw["ounits"] = ou
        return dict(k="table", w=w, u=ou), dict(kw, wdir=d)
    R, ph = np.hypot(gp[0], gp[1]), np.arctan2(gp[1], gp[0])
    vR, vT = (gp[0] * gv[0] + gp[1] * gv[1]) / R, (gp[0] * gv[1] - gp[1] * gv[0]) / R
    ro, vo = c._ro, c._vo
    o = Orbit([R / ro, vR / vo, vT / vo, gp[2] / ro, gv[2] / vo, ph], ro=ro, vo=vo, solarmotion=list(c._solarmotion))
    return dict(k="galpy", w=[float(q) for q in gp] + [float(q) for q in gv], u=u), dict(orbit=o)


def seen(c):
    return dict(obs=C.state(c), P=C.P_of(c))


def scales(rng):
    S = C.SETS[rng.integers(len(C.SETS))]
    return {} if not S else dict(ro=S["ro"], vo=S["vo"], zo=S["zo"], solarmotion=S["solar"])


def opts(rng):
    kw = {}
    if rng.integers(4) == 0:
        kw["analyze"] = False
    if rng.integers(3) == 0:
        kw["sortstars"] = False
    if rng.integers(3) == 0:
        kw["projected"] = True
    return kw


def setup(t, kind, u, o, c0, orbit, **more):
    t.init = dict(kind=kind, u=u, o=o, P=C.P_of(c0), orbit=orbit, hasid=True, named=False, ro=0.0, vo=0.0, rows=[], n=0, M=0.0, rh=0.0, rt=0.0, v2=0.0)
    t.init.update(more)


NAMES = dict(x=["x", "X"], y=["y", "Y"], z=["z", "Z"], vx=["vx", "v_x", "VX"], vy=["vy", "v_y", "V_y"], vz=["vz", "v_z", "Vz"],
             m=["m", "mass", "Mass", "M"], id=["id", "ID", "Id"])
SKY = dict(x=["ra", "RA", "right ascension", "Right Ascension"], y=["dec", "DEC", "declination"], z=["distance", "dist", "d", "D"],
           vx=["pm_ra_cosdec", "pm_ra", "pmra", "pmRA"], vy=["pm_dec", "pmdec", "pmDEC"], vz=["radial_velocity", "rvel", "v_los", "vlos"])


def table(rng, d):
    def run(t):
        sky = rng.integers(4) == 0
        u = "radec" if sky else str(rng.choice(C.CART))
        o = "sky" if sky else str(rng.choice(["cluster", "centre", "galaxy"]))
        kw = scales(rng)
        c0 = ct.StarCluster(units=u, **kw)
        n = int(rng.choice([1, 2, 5, 9]))
        if sky:
            w = np.column_stack([rng.uniform(0, 360, n), rng.uniform(-80, 80, n), rng.uniform(1, 30, n), rng.normal(0, 5, n), rng.normal(0, 5, n), rng.normal(0, 200, n)])
            mf = 1.0
        else:
            l, vf, mf, _ = C.raw_factors(c0, u)
            w = np.column_stack([(rng.normal(0, 10, (n, 3)) + (rng.normal(0, 6000, 3) if o == "galaxy" else 0)) * l,
                                 (rng.normal(0, 5, (n, 3)) + (rng.normal(0, 150, 3) if o == "galaxy" else 0)) * vf])
        m = rng.uniform(0.1, 20, n) * mf
        i_d = rng.permutation(9 * n)[:n] + 1
        cols = dict(zip(("x", "y", "z", "vx", "vy", "vz"), w.T))
        hasm, hasid = bool(rng.integers(3)), bool(rng.integers(2))
        if hasm:
            cols["m"] = m
        if hasid:
            cols["id"] = i_d
        mapper = {} if rng.integers(2) else None
        keys = list(cols)
        order = [keys[j] for j in rng.permutation(len(keys))]
        T = (Table, QTable)[rng.integers(2)]()
        unit = rng.integers(3) == 0
        for k in order:
            if mapper is not None:
                name = mapper[k] = "col%d" % order.index(k)
            else:
                name = str(rng.choice((SKY if sky and k in SKY else NAMES)[k]))
            v = cols[k]
            if unit and k != "id" and not sky:
                v = v * (AU.Msun if k == "m" else AU.pc if k in "xyz" else AU.km / AU.s)
            T[name] = v
        if rng.integers(3) == 0:
            T["zeta"] = np.arange(n) * 1.0
        orb, okw = orbit_of(rng, c0, d, u, ["none"] if sky else ["none", "table", "galpy"])
        rows = [[float(q) for q in w[j]] + [float(m[j]) if hasm else 1.0, float(i_d[j]) if hasid else 0.0] for j in range(n)]
        setup(t, "table", u, o, c0, orb, rows=rows, hasid=hasid)
        given = None if mapper is None else dict(mapper)
        akw = opts(rng)
        if mapper is not None:
            akw["column_mapper"] = mapper
        t.call("load", lambda: ct.load_cluster("astropy_table", units=u, origin=o, particles=T, **kw, **okw, **akw), seen)
        t.call("given", lambda: dict(same=bool(mapper == given and len(T) == n)), lambda r: r)
        if "ofile" in okw:
            okw["ofile"].close()
    return run


def galpy(rng, d):
    def run(t):
        u = str(rng.choice(["kpckms", "kpckms", "galpy"]))
        o = str(rng.choice(["cluster", "centre", "galaxy"]))
        S = scales(rng)
        ro, vo = S.get("ro", DEFP["ro"]), S.get("vo", DEFP["vo"])
        c0 = ct.StarCluster(units=u, **(S if u == "kpckms" else {}))
        n = int(rng.choice([2, 3, 6, 9]))
        s = 1.0 if o == "galaxy" else 1e-3
        w = np.column_stack([rng.uniform(0.2, 2, n) * s, rng.normal(0, 0.5, n) * s, rng.normal(0, 1, n) * s, rng.normal(0, 0.5, n) * s,
                             rng.normal(0, 0.5, n) * s, rng.uniform(-3.1, 3.1, n)])
        if u == "galpy":
            body = Orbit(w)
            kw = dict(ro=1.0, vo=1.0)
            ro = vo = 1.0
            S = {}
        else:
            body = Orbit(w) if rng.integers(2) else Orbit(w, ro=ro, vo=vo)
            kw = dict(S)
        mk = rng.integers(4)
        m = [1.0] * n if mk == 0 else [2.5] * n if mk == 1 else [3] * n if mk == 2 else [float(q) for q in rng.uniform(0.1, 9, n)]
        if mk:
            kw["m"] = [None, 2.5, 3, m if rng.integers(2) else np.array(m)][mk]
        orb, okw = orbit_of(rng, c0, d, u, ["none", "table", "galpy"])
        setup(t, "galpy", u, o, c0, orb, ro=float(ro), vo=float(vo), rows=[[float(q) for q in w[j]] + [float(m[j]), j + 1.0] for j in range(n)])
        t.call("load", lambda: ct.load_cluster("galpy", units=u, origin=o, particles=body, **kw, **okw, **opts(rng)), seen)
        if "ofile" in okw:
            okw["ofile"].close()
    return run


def amuse(rng, d):
    def run(t):
        from amuse.datamodel import Particles
        U = C.U
        u = str(rng.choice(["amuse", "pckms", "kpckms", "pcmyr", "kpcgyr"]))
        o = str(rng.choice(["cluster", "centre", "galaxy"]))
        S = scales(rng)
        c0 = ct.StarCluster(units=u, **S)
        n = int(rng.choice([1, 2, 5, 8]))
        w = np.column_stack([rng.normal(0, 10, (n, 3)) + (rng.normal(0, 6000, 3) if o == "galaxy" else 0),
                             rng.normal(0, 5, (n, 3)) + (rng.normal(0, 150, 3) if o == "galaxy" else 0)])
        m = rng.uniform(0.1, 20, n)
        keys = [int(q) for q in rng.permutation(9 * n)[:n] + 1]
        own = rng.integers(4) > 0
        p = Particles(keys=keys) if own else Particles(n)
        if not own:
            keys = [int(q) for q in p.key]
        lu, lf = [(U.parsec, 1.0), (U.kpc, 1e-3)][rng.integers(2)]
        vu, vf = [(U.kms, 1.0), (U.m / U.s, 1e3)][rng.integers(2)]
        p.mass = m | U.MSun
        p.x, p.y, p.z = [w[:, j] * lf | lu for j in range(3)]
        p.vx, p.vy, p.vz = [w[:, j + 3] * vf | vu for j in range(3)]
        # rows in the set's own order
        at = {k: j for j, k in enumerate(keys)}
        ks = [int(q) for q in p.key]
        rows = [[float(q) for q in w[at[k]]] + [float(m[at[k]]), float(k) if own else j + 1.0] for j, k in enumerate(ks)]

        def rank(c):
            r = seen(c)
            if not own:
                # keys made up by AMUSE do not fit the specification's numbers: their place in the set instead
                r["obs"]["id"] = [([k % 2**64 for k in ks].index(q % 2**64) + 1) if q % 2**64 in [k % 2**64 for k in ks] else 0 for q in r["obs"]["id"]]
            return r
        orb, okw = orbit_of(rng, c0, d, u, ["none", "table"])
        setup(t, "amuse", u, o, c0, orb, rows=rows)
        t.call("load", lambda: ct.load_cluster("amuse", units=None if u == "amuse" and rng.integers(2) else u, origin=o, particles=p, **S, **okw, **opts(rng)), rank)
        if "ofile" in okw:
            okw["ofile"].close()
    return run


def model(rng, d, big):
    def run(t):
        o = str(rng.choice(["cluster", "centre", "galaxy"]))
        n = int(rng.choice([1500, 2500])) if big else int(rng.choice([400, 600]))
        g = float(rng.choice([1, 1.5, 2])) if rng.integers(2) else 1
        W = float(rng.uniform(2, 9))
        M = float(rng.uniform(300, 1e5))
        R = float(rng.uniform(1, 20))
        key = str(rng.choice(["rt", "rv", "rh", "rm", "r0", "rc", "none", "unit", "model"]))
        kw = {str(rng.choice(["phi0", "W0"])): W}
        if g != 1 or rng.integers(2):
            kw["g"] = g
        real = {"rm": "rh", "rc": "r0"}.get(key, key)
        u = str(rng.choice(["pckms", "pckms", "nbody"]))
        if key == "unit":
            lm, M = limepy(W, g, G=1, M=1, rv=1), 1.0
            u = "nbody"
            kw["N"] = n
        elif key == "none":
            lm = limepy(W, g, M=M, rv=1.0)
            kw.update(M=M, N=n)
        elif key == "model":
            lm = limepy(W, g, M=M, rt=R * 5)
            kw = dict(model=lm, N=n)
        else:
            R = R * {"rt": 8, "r0": 0.3}.get(real, 1)
            lm = limepy(W, g, M=M, **{real: R})
            kw.update({"M": M, key: R})
            if rng.integers(2):
                kw["mbar"] = M / (n + 0.5)
            else:
                kw["N"] = n
        c0 = ct.StarCluster(units=u)
        orb, okw = orbit_of(rng, c0, d, u, ["none", "table", "galpy"])
        setup(t, "model", u, o, c0, orb, n=n, M=M, rh=float(lm.rh), rt=float(lm.rt), v2=float(2 * lm.K / lm.M))
        np.random.seed(int(rng.integers(1 << 30)))
        if rng.integers(4) == 0 and "ofilename" not in okw:
            t.call("load", lambda: ct.setup_cluster(units=u, origin=o, **kw, **{k: v for k, v in okw.items() if k != "wdir"}), seen)
        else:
            t.call("load", lambda: ct.load_cluster("limepy", units=u, origin=o, **kw, **okw), seen)
        if "ofile" in okw:
            okw["ofile"].close()
    return run


def named(rng, d, cat):
    def run(t):
        o = str(rng.choice(["cluster", "centre", "galaxy"]))
        u = str(rng.choice(["pckms", "pckms", "kpckms", "pcmyr", "kpcgyr", "WDunits", "galpy", "nbody"]))
        r = cat[rng.integers(len(cat))]
        src = str(rng.choice(["default", "default"] + (["deBoer"] if r["deboer"] else []) + (["harris"] if r["harris"] else [])))
        if src == "default":
            src = "deBoer" if r["deboer"] else "harris"
            kw = {}
        else:
            kw = dict(source=src)
        name = str(rng.choice(r["names"]))
        n = int(rng.choice([400, 600]))
        if src == "deBoer":
            W, g, rt, M = r["deboer"]
            lm = limepy(W, g, M=M, rt=rt)
            rh = float(lm.rh)
        else:
            M, rc, rt = r["harris"]
            # the King model of that concentration
            lo, hi = 0.3, 19.0
            for _ in range(40):
                mid = 0.5 * (lo + hi)
                q = limepy(mid, 1)
                lo, hi = (mid, hi) if q.rt / q.r0 < rt / rc else (lo, mid)
            lm = limepy(lo, 1, M=M, rt=rt)
            rh = float(lm.rh)
        kw.update(dict(N=n) if rng.integers(2) else dict(mbar=M / (n + 0.5)))
        c0 = ct.StarCluster(units=u)
        b = Orbit.from_name(r["names"][0], ro=DEFP["ro"], vo=DEFP["vo"], solarmotion=[DEFP[k] for k in ("sx", "sy", "sz")])
        w = [float(q) for q in (b.x(), b.y(), b.z(), b.vx(), b.vy(), b.vz())]
        orb, okw = dict(k="galpy", w=w, u=u), {}
        if rng.integers(5) == 0 and u != "nbody":
            orb, okw = orbit_of(rng, c0, d, u, ["table", "galpy"])
        setup(t, "model", u, o, c0, orb, named=True, n=n, M=M, rh=rh, rt=rt, v2=float(2 * lm.K / lm.M))
        np.random.seed(int(rng.integers(1 << 30)))
        t.call("load", lambda: ct.load_cluster("limepy", gcname=name, units=u, origin=o, **kw, **okw), seen)
        if "ofile" in okw:
            okw["ofile"].close()
    return run


def king(rng):
    def run(t):
        setup(t, "king", "pckms", "cluster", ct.StarCluster(units="pckms"), dict(k="none", w=[0.0] * 6, u="pckms"))
        for j in range(4):
            W = float(rng.uniform(0.35, 19.3)) if j else float(rng.integers(4, 190)) / 10
            q = limepy(W, 1)
            c = float(np.log10(q.rt / q.r0))
            t.call("w0", lambda: dict(W0=W, C=c, w0=float(ct.c_to_w0(c)), c=float(ct.w0_to_c(W)), back=float(ct.w0_to_c(ct.c_to_w0(c)))), lambda r: r)
    return run


def make(prop, tier, seed, work):
    rng = np.random.default_rng([seed, 27])
    cat = more_data()
    out = []
    plan = [("table", 120, lambda d: table(rng, d)), ("galpy", 80, lambda d: galpy(rng, d)), ("amuse", 50, lambda d: amuse(rng, d)),
            ("model", 30, lambda d: model(rng, d, False)), ("bigmodel", 6, lambda d: model(rng, d, True)),
            ("named", 24, lambda d: named(rng, d, cat)), ("king", 10, lambda d: king(rng))]
    for name, n, f in plan:
        if name in ("model", "bigmodel", "named", "king") and limepy is None:
            continue
        for i in range(n if tier == "quick" else 12 * n):
            d = os.path.join(work, "imp")
            os.makedirs(d)
            out.append(K.record("%s:%d" % (name, i), f(d)))
            shutil.rmtree(d, ignore_errors=True)
    return out, dict(generated_inputs=len(out))
