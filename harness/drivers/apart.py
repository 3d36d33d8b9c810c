"""C30: clusters, the arrays handed to them and the arrays they hand back do not change with one another"""
import json, re, zlib
import numpy as np
import clustertools as ct
from clustertools.util import coordinates as co, recipes as re_
from clustertools.analysis import profiles as pr, functions as fu, orbits as ob
import common as K
import clusters as C
from galorbits import pot_of
from galpy.orbit import Orbit
from astropy.table import Table, QTable
import astropy.units as un


def histories(work, depth):
    cfg = "SPECIFICATION Spec\nINVARIANT NothingShared\nPROPERTY OnlyOne\n"
    rc, out = K.tlc("Apart", cfg, work, env=dict(DEPTH=str(depth), EMIT="yes"))
    hs = [json.loads(m.group(1).replace('\\"', '"').replace('\\\\', '\\')) for m in re.finditer(r'^"HIST (.*)"$', out, re.M)]
    if not hs or "No error has been found" not in out:
        raise RuntimeError("no histories from TLC: rc %d\n%s" % (rc, out[-2000:]))
    return sorted(hs, key=json.dumps), K.stats(out)


# ------------------------------------------------------------------ what a thing holds
def content(x, deep=0):
    if isinstance(x, np.ndarray):
        return b"A" + (repr(x.tolist()).encode() if x.dtype == object else x.dtype.str.encode() + repr(x.shape).encode() + np.ascontiguousarray(x).tobytes())
    if isinstance(x, (list, tuple)) and deep < 4:
        return b"L" + b";".join(content(q, deep + 1) for q in x)
    if isinstance(x, dict) and deep < 4:
        return b"D" + b";".join(repr(k).encode() + content(x[k], deep + 1) for k in sorted(x, key=repr))
    if x is None or isinstance(x, (int, float, str, bool, np.generic)):
        return repr(x).encode()
    return b""


def digest(x):
    if isinstance(x, ct.StarCluster):
        x = {k: v for k, v in vars(x).items() if "file" not in k}
    return zlib.crc32(content(x)) & 0x7fffffff


def digests(things):
    return [digest(q[1]) for q in things]


def world(lent):
    """what all clusters have in common, and the catalogue the first one was read from"""
    import clustertools.util.constants as k
    return digest([{n: v for n, v in vars(k).items() if n[:2] != "__"}, [f() for f in lent]])


def from_catalogue(rng):
    """a cluster read from a table or from orbits; what it was read from, as functions giving its content"""
    n = int(rng.integers(9, 14))
    solar = [float(q) for q in rng.normal(0, 9, 3)]
    S = dict(ro=8.1, vo=225.0, zo=0.01, solarmotion=solar)
    o = str(rng.choice(["galaxy", "cluster"]))
    x = rng.normal(0, 0.01, (n, 3)) + (rng.normal(0, 6, 3) if o == "galaxy" else 0)
    v = rng.normal(0, 5, (n, 3)) + (rng.normal(0, 150, 3) if o == "galaxy" else 0)
    w = rng.integers(3)
    if w == 0:
        body = Orbit(np.column_stack([q for q in co.cart_to_cyl(*(x.T / 8.1), *(v.T / 225.0))])[:, [0, 3, 4, 2, 5, 1]], ro=8.1, vo=225.0)
        lent = [lambda: body.vxvv.copy(), lambda: kw["m"], lambda: solar]
        kw = dict(ctype="galpy", units="kpckms", m=rng.uniform(0.1, 20, n))
    elif w == 1:
        body = Table(dict(zip(("x", "y", "z", "vx", "vy", "vz"), (q.copy() for q in np.column_stack([x, v]).T))))
        body["m"], body["id"] = rng.uniform(0.1, 20, n), rng.permutation(n) + 1
        names = {q: q for q in body.colnames} if rng.integers(2) else None
        lent = [lambda: [np.array(body[q]) for q in body.colnames], lambda: names, lambda: solar]
        kw = dict(ctype="astropy_table", units="kpckms", **({} if names is None else dict(column_mapper=names)))
    else:
        body = QTable(dict(zip(("x", "y", "z", "vx", "vy", "vz"), [q * un.kpc for q in x.T] + [q * un.km / un.s for q in v.T])))
        body["m"] = rng.uniform(0.1, 20, n) * un.Msun
        lent = [lambda: [np.array(body[q].value) for q in body.colnames], lambda: solar]
        kw = dict(ctype="astropy_table", units="kpckms")
    kw.update(S, particles=body, origin=o)
    g = [float(q) for q in rng.normal(0, 5, 3)] + [float(q) for q in rng.normal(0, 150, 3)]

    def read():
        c = ct.load_cluster(**kw)
        c.add_orbit(*g, from_centre=False)
        return c
    return read, lent


# ------------------------------------------------------------------ the user's arrays
def arrays_in(r):
    """the arrays of an answer, in any nesting"""
    if isinstance(r, np.ndarray):
        return [r] if r.dtype != object else []
    if isinstance(r, (list, tuple)):
        return [a for q in r for a in arrays_in(q)]
    return []


def edit(arrs):
    for a in arrs:
        if a.size and a.flags.writeable:
            if a.dtype == bool:
                a[...] = ~a
            elif a.dtype.kind in "iu":
                a += 3
            elif a.dtype.kind == "f":
                a *= 1.25
                a += 0.125


# ------------------------------------------------------------------ what can be done to a cluster
def act(rng, c):
    """an operation that changes c: (name, function)"""
    w = int(rng.integers(16))
    other = [u for u in C.CART if u != c.units]
    if w < 4:
        u = str(rng.choice(other))
        return "to_" + u, lambda: getattr(c, "to_" + u)()
    if w < 7:
        o = str(rng.choice([q for q in ("cluster", "centre", "galaxy") if q != c.origin]))
        return "to_" + o, lambda: c.to_origin(o)
    if w == 7:
        return "audays", lambda: (c.to_audays() if c.bunits != "audays" else c.to_sudays())
    if w == 8:
        return "save", lambda: (c.save_cluster(), c.to_centre(), c.return_cluster())
    if w == 9:
        return "analyze", lambda: c.analyze(sortstars=bool(rng.integers(2)))
    if w == 10:
        return "energies", lambda: c.energies(ids=c.id[:2], specific=bool(rng.integers(2)))
    if w == 11:
        return "rotation", lambda: c.add_rotation(0.5)
    if w == 12:
        return "virialize", lambda: c.virialize()
    if w == 13:
        return "centre", lambda: c.find_centre(density=False)
    if w == 14 and c.units != "nbody":
        return "scales", lambda: c.reset_nbody_scale()
    g = [float(q) for q in rng.normal(0, 1, 6)]
    l = np.mean(np.abs([c.xgc, c.ygc, c.zgc]))
    v = np.mean(np.abs([c.vxgc, c.vygc, c.vzgc]))
    return "orbit", lambda: c.add_orbit(*[q * l for q in g[:3]], *[q * v for q in g[3:]])


def give(rng, c):
    """arrays handed to c in a call: (name, arrays, function, whether c may keep referring to them)"""
    n = c.ntot
    w = int(rng.integers(10))
    if w >= 8:
        t = np.linspace(-1e-3, 1e-3, 7)
        u6 = [np.mean(np.abs(q)) for q in (c.xgc, c.ygc, c.zgc, c.vxgc, c.vygc, c.vzgc)]
        a = [t] + [rng.normal(0, 1, 7) * q for q in u6]
        if w == 8:
            return "path", a, lambda: ct.orbital_path_match(c, path=a, projected=bool(rng.integers(2)))
        a[0] = np.ones(c.ntot, bool)
        return "centre", a[:1], lambda: c.find_centre(indx=a[0], density=False)
    if w == 0 and len(c.kw) == 0:
        k = int(rng.integers(1, 4))
        a = [rng.normal(0, 1, k) * np.mean(np.abs(q)) for q in (c.x, c.y, c.z, c.vx, c.vy, c.vz)] + [np.full(k, np.mean(c.m)), np.arange(k) + 9000 + int(rng.integers(9000))]
        return "add_stars", a, lambda: c.add_stars(*a)
    if w == 1:
        a = [rng.uniform(0, 1, n), -rng.uniform(1, 2, n)] + ([rng.normal(0, 1, n)] if rng.integers(2) else [])
        return "add_energies", a, lambda: c.add_energies(*a)
    if w == 2 and len(c.kw) == 0:
        a = [rng.integers(0, 14, n).astype(float), rng.normal(0, 1, n), rng.normal(0, 1, n), rng.uniform(0, 1, n), rng.uniform(0, 1, n)]
        return "add_sse", a, lambda: c.add_sse(*a)
    if w == 3 and len(c.pb) == 0:
        k = 2
        a = [np.arange(1, k + 1), np.arange(k) + 11] + [rng.integers(0, 9, k) for _ in range(3)] + [rng.uniform(0.1, 0.9, k) for _ in range(9)]
        return "add_bse", a, lambda: c.add_bse(*a)
    if w == 4:
        a = [rng.integers(0, 2, n) > 0]
        if a[0].sum() < 2:
            a[0][:2] = True
        return "subset", a, lambda: c.subset(indx=a[0], mmin=float(np.min(c.m)), projected=bool(rng.integers(2)))
    if w == 5:
        a = [rng.integers(0, 5, n) > 0]
        a[0][:3] = True
        kind = int(rng.integers(4))
        f = [lambda: pr.rho_prof(c, indx=a[0], nrad=2), lambda: pr.m_prof(c, indx=a[0], nrad=2), lambda: pr.v_prof(c, indx=a[0], nrad=2),
             lambda: pr.vcirc_prof(c, indx=a[0], nrad=2)][kind]
        return "masked", a, f
    if w == 6:
        r = np.sort(c.r)
        e = np.array([r[0] * 0.5, r[n // 2], r[-1] * 1.5])
        a = [e[:-1].copy(), (e[1:] + e[:-1]) / 2, e[1:].copy()]
        kind, norm = int(rng.integers(5)), bool(rng.integers(2))
        f = [lambda: pr.rho_prof(c, bins=a, normalize=norm), lambda: pr.m_prof(c, bins=a, normalize=norm), lambda: pr.sigv_prof(c, bins=a, normalize=norm),
             lambda: pr.v_prof(c, bins=a, normalize=norm), lambda: pr.beta_prof(c, bins=a, normalize=norm)][kind]
        return "bins", a, f
    x = [rng.normal(0, 1, 12) for _ in range(6)]
    kind = int(rng.integers(9))
    y = rng.uniform(1, 2, 12)
    if kind == 0:
        return "cart_to_sphere", x, lambda: co.cart_to_sphere(*x)
    if kind == 1:
        return "cart_to_cyl", x, lambda: co.cart_to_cyl(*x)
    if kind == 2:
        return "cyl_to_cart", x, lambda: co.cyl_to_cart(*x)
    if kind == 3:
        return "cart_to_sky", x, lambda: co.cart_to_sky(*[q + 3 for q in x])
    x = [y, x[0]]
    f = [lambda: re_.nbinmaker(y, 3), lambda: re_.binmaker(y, 3), lambda: re_.mean_prof(y, x[1], nbin=3), lambda: re_.smooth(y, x[1], 0.3), lambda: re_.dx_function(y, nx=3)][kind - 4]
    return "recipe", x, f


def ask(rng, c):
    """a question whose answer has arrays: (name, function, whether the answer is also the cluster's own record)"""
    w = int(rng.integers(17))
    o6 = lambda o: [np.atleast_1d(q) for q in (o.x(), o.y(), o.z(), o.vx(), o.vy(), o.vz())]
    pot, kw = pot_of(1.3), dict(tfinal=1e-4, nt=4)
    f = [("energies", lambda: c.energies(), True), ("closest", lambda: c.closest_star(), True), ("rlagrange", lambda: c.rlagrange(3), True),
         ("rho_prof", lambda: pr.rho_prof(c, nrad=2), False), ("m_prof", lambda: pr.m_prof(c, nrad=2), False), ("vcirc", lambda: pr.vcirc_prof(c), False),
         ("sphere", lambda: co.sphere_coords(c), False), ("cyl", lambda: co.cyl_coords(c), False), ("tail", lambda: ct.to_tail(c), False),
         ("rotated", lambda: ct.add_rotation(c, 0.5), False), ("path", lambda: ob.orbital_path(c, pot=pot, **kw), False),
         ("places", lambda: ob.interpolate_orbits(c, pot=pot, **kw), False), ("orbits", lambda: o6(c.initialize_orbits()), False),
         ("subset", lambda: c.subset(mmax=float(np.median(c.m))), True), ("virialize", lambda: [np.atleast_1d(fu.virialize(c) if hasattr(fu, "virialize") else ct.virialize(c))], False),
         ("v_prof", lambda: pr.v_prof(c, nrad=2), False), ("sigv", lambda: pr.sigv_prof(c, nrad=2), False)][w]
    return f


def sub(rng, c):
    if rng.integers(4) == 0:
        return lambda: ct.overlap_cluster(c, c, tol=1.0, return_cluster=True)
    kw = {}
    if rng.integers(2):
        kw["mmin"] = float(np.sort(c.m)[1])
    if rng.integers(4) == 0:
        kw["reset_centre"] = True
    return lambda: ct.sub_cluster(c, **kw)


def scenario(rng, h):
    def run(t):
        lent = []
        if rng.integers(4) == 0:
            read, lent = from_catalogue(rng)
            before = world(lent)
            c = read()
        else:
            c = C.make(rng, u=str(rng.choice(C.CART)), o=str(rng.choice(["galaxy", "cluster", "centre"])), n=int(rng.integers(9, 14)))
            before = world(lent)
        if rng.integers(2):
            c.energies()
        things = [("cluster", c)]
        own = [False]
        t.init = dict(seen=digests(things), world=before, kind=["cluster"])

        def did(op, fn, on, kind="", what=None, mine=False):
            def go():
                r = fn()
                if kind:
                    things.append((kind, what if what is not None else r if kind == "cluster" else arrays_in(r)))
                    own.append(mine)
                return r
            t.call(op, go, lambda _: dict(seen=digests(things), world=world(lent), new=[kind] if kind else []), on=on)
        for s in h:
            k, op = s["k"], s["op"]
            if op == "emitted":
                return
            x = things[k - 1][1]
            if op == "edit":
                if own[k - 1]:          # the answer is the cluster's own record of it
                    did("act:none", lambda: None, 1)
                else:
                    did("edit", lambda: edit(x), k)
            elif op == "act":
                n, f = act(rng, x)
                did("act:" + n, f, k)
            elif op == "give":
                n, a, f = give(rng, x)
                # the arrays exist before the call and must come out of it as they were
                things.append(("given", a))
                own.append(False)
                t.call("have", lambda: None, lambda _: dict(seen=digests(things), world=world(lent), new=["given"]), on=0)
                did("give:" + n, f, k)
            elif op == "ask":
                n, f, mine = ask(rng, x)
                did("ask:" + n, f, k, "answer", mine=mine)
            elif op == "sub":
                did("sub", sub(rng, x), k, "cluster")
            if t.failed:
                return
    return run


def make(prop, tier, seed, work):
    rng = np.random.default_rng([seed, 30])
    hs, (gen, dist) = histories(work, 4 if tier == "quick" else 5)
    order = rng.permutation(len(hs))[:700 if tier == "quick" else 12000]
    out = [K.record("apart:%d" % i, scenario(rng, hs[i])) for i in order]
    return out, dict(histories=len(out), histories_emitted=len(hs), model_states=dist, exhaustive=len(out) == len(hs))
