"""C24: stars matched to orbital and tail paths, tail paths, and orientation along the motion"""
import copy
import numpy as np
import clustertools as ct
import common as K
import clusters as C
from members import arg
from common import F
from galorbits import pot_of, given, same
from clustertools.analysis import orbits as ob
from clustertools.tidaltail import tails as tt


def a_time(c, rng):
    """Myr, and the frequency that makes it a fraction of a period"""
    myr = float(10 ** rng.uniform(0.5, 2.5))
    nat = myr / (1000.0 * c._ro / c._vo / C.KMS)
    return myr, float(rng.uniform(0.3, 2.5)) / nat


def time_in(c, u, myr):
    return myr * {"pckms": 1.0, "pcmyr": 1.0, "galpy": 1.0 / (1000.0 * c._ro / c._vo / C.KMS), "nbody": 1.0 / c.tbar}.get(u, 1e-3)


def trail(rng, n, myr, k):
    """a cluster in the Galaxy whose stars are scattered about its orbit"""
    c = C.make(rng, "kpckms", "galaxy", n=n, **C.SETS[rng.integers(3)])
    q = ob.orbital_path(copy.deepcopy(c), tfinal=myr / 1000.0, nt=400, pot=pot_of(k))
    i = rng.integers(0, 400, n)
    w = float(10 ** rng.uniform(-2.5, -0.3))
    for name, col, s in zip(("x", "y", "z", "vx", "vy", "vz"), q[1:7], (w, w, w, 5, 5, 5)):
        setattr(c, name, np.array(col)[i] + rng.normal(0, s, n))
    c.analyze(sortstars=True)
    return c


def place(rng, c, units):
    """the same cluster seen in other units and from another origin"""
    u = str(rng.choice(units))
    o = str(rng.choice(["cluster", "centre", "galaxy"]))
    if u == "radec":
        if rng.integers(2):
            c.to_radec()
        else:
            c.to_sky()
    else:
        c.to_units(u)
        c.to_origin(o)
    c.analyze(sortstars=True)
    return u


def narrow(c, path, sky):
    """right ascensions that do not go round"""
    if not sky:
        return True
    d = copy.deepcopy(c)
    d.to_sky()
    a = np.concatenate([np.ravel(path[1]), np.ravel(d.x)])
    return a.max() - a.min() < 150


def setting(rng, units, ours=True):
    """a cluster beside its orbit, the arguments every path function takes, and the path"""
    n = int(rng.integers(3, 25))
    p0 = C.make(rng, "kpckms", "galaxy", n=2)
    myr, k = a_time(p0, rng)
    c = trail(rng, n, myr, k)
    u = place(rng, c, units)
    sky = u == "radec" or rng.integers(3) == 0
    # sky coordinates are those of the cluster's own scales
    g, kw = same(c, rng) if u == "radec" or (sky and ours) else given(c, rng)
    kw["pot"] = pot_of(k)
    if rng.integers(2):
        kw["from_centre"] = True
    if sky:
        kw["skypath"] = True
    if rng.integers(5) == 0:                # the time is documented as 0.1 Gyr unless given
        myr = 100.0
    else:
        kw["dt" if rng.integers(5) == 0 else "tfinal"] = float(time_in(c, u, myr))
    own = dict(kw, tfinal=float(time_in(c, u, myr)))
    own.pop("dt", None)
    return c, u, g, kw, own, sky


def cols(path):
    return [F(q) for q in path]


def matched(c, r, method):
    return dict(tstar=F(r[0]), dprog=F(r[1]), dpath=F(r[2]), kept=[F(c.tstar), F(c.dprog), F(c.dpath)] if method else [], after=C.full(c))


def start(c):
    pre = C.init_of(c)
    pre["sorted"] = True
    return pre


def match(rng):
    def run(t):
        for _ in range(20):
            c, u, g, kw, own, sky = setting(rng, C.CART + ["radec"])
            nt = kw["nt"] = own["nt"] = int(rng.integers(5, 60))
            path = ob.orbital_path(copy.deepcopy(c), **own)
            if narrow(c, path, sky):
                break
        else:
            return
        if rng.integers(3) == 0:
            for q in ("pot", "nt", "tfinal", "dt", "from_centre"):
                kw.pop(q, None)
            # any curve will do
            if rng.integers(2):
                j = np.sort(rng.choice(nt, int(rng.integers(2, nt + 1)), replace=False))
                path = [np.array(q)[j] for q in path[:7]]
            kw["path"] = path = tuple(np.array(q) for q in path[:7])
        q = dict(g=g, sky=bool(sky), pro=False, topath=False)
        if rng.integers(3) == 0:
            q["pro"] = kw["projected"] = True
        if rng.integers(2):
            q["topath"] = kw["to_path"] = True
        if rng.integers(3) == 0:
            kw["do_full"] = True
        method = bool(rng.integers(2))
        pre = start(c)
        t.call("match", lambda: c.orbital_path_match(**kw) if method else ob.orbital_path_match(c, **kw),
               lambda r: matched(c, r, method), q=q, pre=pre, path=cols(path[:7]), method=method)
    return run


def away_from_edges(tp, q):
    """no time of the path is at the edge of a bin, rounding aside"""
    t = np.sort(np.array(tp, float))
    a, b, n = t[0], t[-1], len(t)
    if q["ntail"] > q["nt"]:
        if q["bins"] == "fix":
            w = (b - a) / q["nt"]
            lo = a + np.arange(q["ntail"]) * (b - w - a) / (q["ntail"] - 1)
            e = np.concatenate([lo[1:], (lo + w)[:-1]])
        else:
            f = np.arange(q["ntail"]) * (1 - 1.0 / q["nt"]) / (q["ntail"] - 1)
            i = np.concatenate([f[1:], (f + 1.0 / q["nt"])[:-1]]) * (n - 1)
            return np.min(np.abs(i - np.round(i))) > 1e-6
    elif q["bins"] == "fix":
        e = a + np.arange(1, q["nt"]) * (b - a) / q["nt"]
    else:
        return True
    return len(e) == 0 or np.min(np.abs(t[:, None] - e)) > 1e-7 * (b - a)


def layout(rng, kw, q):
    while True:
        q["no"] = int(rng.integers(20, 90))
        q["nt"] = int(rng.integers(2, 12))
        q["ntail"] = int(rng.integers(q["nt"] + 1, 25)) if rng.integers(2) else int(rng.integers(1, q["nt"] + 1))
        q["bins"] = str(rng.choice(["fix", "num"]))
        if away_from_edges(np.linspace(-1, 1, q["no"]), q):
            break
    kw.update(no=q["no"], nt=q["nt"], ntail=q["ntail"])
    if q["bins"] != "fix" or rng.integers(2):
        kw["bintype"] = q["bins"]


def tail(rng):
    def run(t):
        for _ in range(20):
            c, u, g, kw, own, sky = setting(rng, C.CART + ["radec"], False)
            q = dict(g=g, sky=bool(sky), pro=False, topath=False, dmax=arg(None))
            layout(rng, kw, q)
            own["nt"] = q["no"]
            path = ob.orbital_path(copy.deepcopy(c), **own)
            if narrow(c, path, sky):
                break
        else:
            return
        if rng.integers(3) == 0:
            q["pro"] = kw["projected"] = True
        if rng.integers(2):
            q["topath"] = kw["to_path"] = True
        if not sky and rng.integers(2):
            l = C.raw_factors(c, u)[0]
            q["dmax"] = arg(float(10 ** rng.uniform(-2.5, 0.5)) * 1000 * l)
            kw["dmax"] = q["dmax"]["v"]
        method = bool(rng.integers(2))
        pre = start(c)
        t.call("tail", lambda: c.tail_path(**kw) if method else tt.tail_path(c, **kw),
               lambda r: dict(t=F(r[0]), w=[F(a) for a in r[1:7]], after=C.full(c),
                              kept=[F(getattr(c, a)) for a in ("tpath", "xpath", "ypath", "zpath", "vxpath", "vypath", "vzpath")] if method else []),
               q=q, pre=pre, path=cols(path[:7]), method=method)
    return run


def tailmatch(rng):
    def run(t):
        for _ in range(20):
            c, u, g, kw, own, sky = setting(rng, C.CART + ["radec"], False)
            q = dict(g=g, sky=bool(sky), pro=False, topath=False, dmax=arg(None))
            ask = {}
            layout(rng, ask, q)
            own.pop("nt", None)
            if not sky and rng.integers(2):
                ask["dmax"] = float(10 ** rng.uniform(-1.5, 0.5)) * 1000 * C.raw_factors(c, u)[0]
            path = tt.tail_path(copy.deepcopy(c), **own, **ask)
            if len(path[0]) > 0 and narrow(c, path, sky):
                break
        else:
            return
        if rng.integers(3) == 0 and len(path[0]) > 1:
            kw["path"] = path = tuple(np.array(a) for a in path)
            if rng.integers(3) == 0:
                q["pro"] = kw["projected"] = True
            if rng.integers(2):
                q["topath"] = kw["to_path"] = True
        kw.update(ask)
        method = bool(rng.integers(2))
        pre = start(c)
        t.call("match", lambda: c.tail_path_match(**kw) if method else tt.tail_path_match(c, **kw),
               lambda r: matched(c, r, method), q=q, pre=pre, path=cols(path), method=method)
    return run


def orient(rng, strict=False):
    def run(t):
        u = str(rng.choice(C.CART))
        o = str(rng.choice(["cluster", "centre", "galaxy"]))
        c = C.make(rng, u, o, n=int(rng.integers(1, 12)), **C.SETS[rng.integers(3)])
        method = bool(rng.integers(2))
        pre = start(c)

        def show(r):
            if method:
                r = [c.x_tail, c.y_tail, c.z_tail, c.vx_tail, c.vy_tail, c.vz_tail]
            return dict(w=[F(a) for a in r], r=F(c.r_tail) if method else [], v=F(c.v_tail) if method else [], after=C.full(c))
        t.call("orient", lambda: c.to_tail() if method else tt.to_tail(c), show, pre=pre, method=method, strict=strict)
    return run


def make(prop, tier, seed, work):
    rng = np.random.default_rng([seed, 24])
    n = 90 if tier == "quick" else 2000
    out = [K.record("match:%d" % i, match(rng)) for i in range(n)]
    out += [K.record("tail:%d" % i, tail(rng)) for i in range(n)]
    out += [K.record("tailmatch:%d" % i, tailmatch(rng)) for i in range(n // 2)]
    out += [K.record("orient:%d" % i, orient(rng)) for i in range(n // 2)]
    # directed: the motion of the cluster is along x afterwards (see known-findings.txt)
    out.append(K.record("orient-along-motion", orient(np.random.default_rng(24), strict=True)))
    out = [t for t in out if t.ev]
    return out, dict(generated_inputs=len(out))
