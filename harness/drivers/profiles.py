"""C16-C18: radial profiles, mass functions and mass-dependent kinematics of random clusters and selections"""
import copy
import numpy as np
import clustertools as ct
import common as K
import clusters as C
from common import F
from members import arg
from selection import observe, marg, sent
from clustertools.analysis import profiles as pr
from clustertools.analysis import functions as fn


def cluster(rng, n, kind="", dup=True, moved=False):
    u = str(rng.choice(C.CART))
    o = str(rng.choice(["cluster", "centre", "galaxy"]))
    c = C.make(rng, u, o, n=n, **C.SETS[rng.integers(3)])
    if kind:       # masses and speeds of a partly relaxed cluster
        f = C.raw_factors(c, u)
        m = rng.uniform(0.1, 2, n) if kind == "meq" else rng.uniform(0.1, 1, n) ** 2 * 3 + 0.1
        c.m = m * f[2]
        a = np.where(m < 0.9, np.exp(-0.5 * m / 0.9), np.exp(-0.5) * (m / 0.9) ** -0.5) if kind == "meq" else m ** -float(rng.uniform(0, 0.4))
        o0 = [c.vxgc + c.vxc, c.vygc + c.vyc, c.vzgc + c.vzc] if o == "galaxy" else [c.vxc, c.vyc, c.vzc] if o == "cluster" else [0, 0, 0]
        for k, q in enumerate(("vx", "vy", "vz")):
            setattr(c, q, (getattr(c, q) - o0[k]) * a + o0[k])
        if kind == "taper":
            c.m = (rng.uniform(0.02, 1, n) ** 1.6 * 2 + 0.05) * f[2]
        elif dup and rng.integers(4) == 0:      # some equal masses
            c.m[rng.integers(0, n, n // 3)] = c.m[0]
    c.npop = rng.integers(1, 3, n)
    if rng.integers(2):
        c.add_sse(rng.integers(0, 17, n).astype(float), rng.normal(0, 1, n), rng.normal(0, 1, n))
    if rng.integers(2):
        c.add_energies(rng.uniform(0, 3, n), -rng.uniform(1, 9, n))
    c.analyze(sortstars=True)
    if moved:    # some stars have moved since the stars were last ordered
        k = rng.integers(3, size=n) == 0
        for a in ("x", "y", "z"):
            o0 = getattr(c, a + "gc") + getattr(c, a + "c") if o == "galaxy" else getattr(c, a + "c") if o == "cluster" else 0.0
            getattr(c, a)[k] = (getattr(c, a)[k] - o0) * 0.4 + o0
        c.analyze(sortstars=False)
    return c


def frame(c, here=False):
    """radii and speeds the analysis looks at: 3D and projected"""
    x = np.array([c.x, c.y, c.z, c.vx, c.vy, c.vz])
    if c.origin == "galaxy" and not here:
        x = x - np.array([[c.xgc], [c.ygc], [c.zgc], [c.vxgc], [c.vygc], [c.vzgc]]) - np.array([[c.xc], [c.yc], [c.zc], [c.vxc], [c.vyc], [c.vzc]])
    n = lambda *a: np.sqrt(sum(q ** 2 for q in a))
    return dict(r=n(*x[:3]), rpro=n(*x[:2]), v=n(*x[3:]), vpro=n(*x[3:5]))


def bounds(rng, a, keep=0.75):
    s = np.sort(a)
    k = int(rng.integers(1, max(2, int(len(s) * (1 - keep)))))
    lo, hi = 0.5 * (s[k - 1] + s[k]), 0.5 * (s[-k - 1] + s[-k])
    return float(lo), float(hi)


def query(rng, c, w, keep=0.75):
    q = dict(rmin=None, rmax=None, mmin=None, mmax=None, vmin=None, vmax=None, emin=None, emax=None, kwmin=0, kwmax=15,
             npop=None, projected=bool(rng.integers(2)))
    p = "pro" if q["projected"] else ""
    for k, a in (("r", w["r" + p]), ("m", c.m), ("v", w["v" + p]), ("e", c.etot)):
        if len(a) == c.ntot and rng.integers(5) == 0 and len(set(a)) == len(a):
            lo, hi = bounds(rng, a, keep)
            j = rng.integers(3)
            if j != 0:
                q[k + "min"] = lo
            if j != 1:
                q[k + "max"] = hi
    if rng.integers(4) == 0:
        q["kwmin"], q["kwmax"] = int(rng.integers(0, 3)), int(rng.integers(11, 16))
    if rng.integers(8) == 0 and c.ntot > 35:
        q["npop"] = int(rng.integers(1, 3))
    mask = rng.integers(0, 9, c.ntot) > 0 if rng.integers(3) == 0 else None
    return q, mask


def radial(rng, w, q, kw, nmax=8, nmin=2):
    """number and kind of radial bins"""
    r = w["rpro" if q["projected"] else "r"]
    own = str(rng.choice(["num", "num", "fix", "given"]))
    b = dict(own=own, nrad=20, lo=[], mid=[], hi=[])
    box = None
    if own == "given":
        s = np.sort(r)
        n = int(rng.integers(nmin, nmax))
        i = np.sort(rng.choice(np.arange(2, len(r) - 3), n - 1, replace=False))
        e = np.concatenate([[0.0 if rng.integers(2) else 0.5 * (s[0] + s[1])], 0.5 * (s[i] + s[i + 1]), [s[-1] * (1.1 if rng.integers(2) else 0.999999)]])
        box = (e[:-1].copy(), 0.5 * (e[:-1] + e[1:]), e[1:].copy())
        kw["bins"] = box
        b.update(lo=F(box[0]), mid=F(box[1]), hi=F(box[2]))
    else:
        b["nrad"] = kw["nrad"] = int(rng.integers(nmin, nmax))
        if own == "fix":
            kw["bintype"] = "fix"
    return b, box


def unspoilt(box, b):
    return box is None or all(F(x) == b[k] for x, k in zip(box, ("lo", "mid", "hi")))


def prof(t, c, rng, op, moved=False):
    w = frame(c)
    q, mask = query(rng, c, w)
    kw = sent(q, mask)
    b, box = radial(rng, w, q, kw)
    e = dict(norm=False, cum=False, coord="none", either=op in ("rho", "m"), nmass=10, mfix=False)
    if rng.integers(3) == 0 and not moved:      # the half-mass radius kept is that of the last ordering
        e["norm"] = kw["normalize"] = True
    if op == "m" and rng.integers(2):
        e["cum"] = kw["cumulative"] = True
    if op in ("v", "v2", "sigv") and rng.integers(4):
        cs = ["r", "vr", "phi", "vphi", "vp", "x", "vx", "y", "vy", "z", "vz", "v"] + ([] if q["projected"] else ["theta", "vtheta", "vt"])
        e["coord"] = kw["coord"] = str(rng.choice(cs))
    if op == "vcirc" and rng.integers(4) == 0:
        for k in ("bins", "bintype", "nrad"):
            kw.pop(k, None)
        kw["nrad"] = None
        b, box = dict(own="all", nrad=0, lo=[], mid=[], hi=[]), None
    par = observe(c)
    e.update(q, mask=marg(mask), npop=arg(q["npop"]), **b)
    f = getattr(pr, op + "_prof")

    def seen(r):
        d = dict(par=par, after=C.state(c), mask_after=marg(mask), bins_after=unspoilt(box, b), rp=F(r[0]), pp=F(r[1]))
        if op in ("rho", "m"):
            d["np"] = F(r[2])
        if op == "vcirc":
            d.update(rvmax=float(r[2]), vmax=float(r[3]))
        return d
    t.call(op, lambda: f(c, **kw), seen, q=e)


def slopes(t, c, rng, op):
    w = frame(c)
    q, mask = query(rng, c, w, keep=0.95)
    kw = sent(q, mask)
    b, box = radial(rng, w, q, kw, nmax=7)
    if b["own"] == "given":     # every preset bin well filled
        r = np.sort(w["rpro" if q["projected"] else "r"])
        n = int(rng.integers(2, 6))
        i = (np.arange(1, n) * len(r)) // n
        e = np.concatenate([[0.0], 0.5 * (r[i] + r[i - 1]), [r[-1] * 1.1]])
        box = (e[:-1].copy(), 0.5 * (e[:-1] + e[1:]), e[1:].copy())
        kw["bins"] = box
        b.update(lo=F(box[0]), mid=F(box[1]), hi=F(box[2]))
    kw["nmass"] = nm = int(rng.integers(4, 6))
    e = dict(norm=False, cum=False, coord="none", either=False, nmass=nm, mfix=False)
    if rng.integers(3) == 0:
        e["norm"] = kw["normalize"] = True
    e["corr"] = dict(k="none")
    if op == "alpha" and rng.integers(3) == 0:
        kw["mcorr"] = corr = rng.uniform(0.2, 1, c.ntot)
        e["corr"] = dict(k="many", v=F(corr))
    err = op == "alpha" and bool(rng.integers(2))
    if err:
        kw["aerror"] = True
    e.update(q, mask=marg(mask), npop=arg(q["npop"]), **b)
    par = observe(c)
    f = pr.meq_prof if op == "meqprof" else getattr(pr, op + "_prof")
    if op == "meqprof" and rng.integers(3) == 0:
        f = pr.eta_prof
        kw["meq"] = True
    t.call(op, lambda: f(c, **kw), lambda r: dict(par=par, after=C.state(c), mask_after=marg(mask), bins_after=unspoilt(box, b),
                                                  rp=F(r[0]), pp=F(r[1]), fit=F(r[2:6]), ep=F(r[6]) if err else []), q=e)


def masses(t, c, rng):
    w = frame(c, True)
    q, mask = query(rng, c, w, keep=0.85)
    kw = sent(q, mask)
    nm = kw["nmass"] = int(rng.integers(4, 9))
    e = dict(nmass=nm, mfix=False, corr=dict(k="none"))
    if rng.integers(8) == 0:
        kw["nmass"] = e["nmass"] = 40
    if rng.integers(3) == 0:
        e["mfix"] = True
        kw[str(rng.choice(["bintype", "mbintype"]))] = "fix"
    if rng.integers(3) == 0:
        kw["mcorr"] = corr = rng.uniform(0.2, 1, c.ntot)
        e["corr"] = dict(k="many", v=F(corr))
    e.update(q, mask=marg(mask), npop=arg(q["npop"]))
    par = observe(c)
    method = bool(rng.integers(3) == 0)
    out = []

    def go():
        r = fn.mass_function(c, **kw)
        kept = c.mass_function(**kw) if method else 0.0
        return r, kept
    t.call("mf", go, lambda z: dict(par=par, after=C.state(c), mask_after=marg(mask), bins_after=True, mm=F(z[0][0]), mh=F(z[0][1]), dm=F(z[0][2]),
                                    fit=F(z[0][3:7]), err=F(z[0][7]) if "mcorr" in kw else [], kept=F([c.alpha])[0] if method else 0.0), q=e, method=method)


def tapers(t, c, rng):
    """exponentially tapered power laws; whether the optimiser converges is not judged"""
    w = frame(c, True)
    q, mask = query(rng, c, w, keep=0.95)
    kw = sent(q, mask)
    e = dict(nmass=int(rng.integers(6, 9)), mfix=False, corr=dict(k="none"))
    if rng.integers(4) == 0:
        e["nmass"] = 400
    kw["nmass"] = e["nmass"]
    e.update(q, mask=marg(mask), npop=arg(q["npop"]))
    par = observe(c)
    method = bool(rng.integers(2))
    try:
        r = fn.tapered_mass_function(c, **kw)
    except RuntimeError:
        return
    t.call("taper", lambda: (r, c.tapered_mass_function(**kw) if method else 0.0),
           lambda z: dict(par=par, after=C.state(c), mask_after=marg(mask), bins_after=True, mm=F(z[0][0]), mh=F(z[0][1]), dm=F(z[0][2]),
                          fit=F(z[0][3:]), err=[], kept=float(c.alpha) if method else 0.0), q=e, method=method)


def sigmas(t, c, rng, meq):
    w = frame(c, True)
    q, mask = query(rng, c, w, keep=0.9)
    kw = sent(q, mask)
    e = dict(nmass=int(rng.integers(5, 8)), mfix=False)
    if rng.integers(10) == 0:
        e["nmass"] = 80
    kw["nmass"] = e["nmass"]
    e.update(q, mask=marg(mask), npop=arg(q["npop"]))
    par = observe(c)
    method = bool(rng.integers(3) == 0)
    if meq:
        if rng.integers(3) == 0:
            name = "eta_function"
            kw["meq"] = True
        else:       # the stars of one population, the first unless told
            name = "meq_function"
            pop = int(rng.integers(1, 3))
            c.npop = np.where(rng.integers(7, size=c.ntot) > 0, pop, 3 - pop)
            par = observe(c)
            q["npop"] = pop
            kw.pop("npop", None)
            if pop == 2 or rng.integers(2):
                kw["npop"] = pop
            e["npop"] = arg(pop)
    else:
        name, meq = "eta_function", False

    def go():
        r = getattr(fn, name)(c, **kw)
        kept = getattr(c, name)(**kw) if method else 0.0
        return r, kept
    t.call("sigma", go, lambda z: dict(par=par, after=C.state(c), mask_after=marg(mask), bins_after=True, mm=F(z[0][0]), sig=F(z[0][1]), fit=F(z[0][2:6]),
                                       kept=float(c.eta if name == "eta_function" else c.meq) if method else 0.0), q=e, method=method, meq=bool(meq))


def ckin(t, c, rng):
    pro = bool(rng.integers(2))
    mask = rng.integers(8, size=c.ntot) > 0 if rng.integers(2) else None
    pop = int(rng.integers(1, 3)) if rng.integers(2) else None
    if pop:
        c.npop = np.where(rng.integers(7, size=c.ntot) > 0, pop, 3 - pop)
    par = observe(c)
    q = dict(mask=marg(mask))
    kw = dict(nmass=6, projected=pro, kwmax=15)
    if mask is not None:
        kw["indx"] = mask.copy()
    if pop:
        kw["npop"] = pop
    if rng.integers(3) == 0 and len(c.m):
        kw["mmax"] = float(np.quantile(c.m, 0.9))

    def go():
        s = copy.deepcopy(c)
        if s.origin == "galaxy":
            s.to_centre()
        rn = fn.rlagrange(s, nlagrange=10, projected=pro)
        a = fn.eta_function(s, rmin=0.0, rmax=rn[4], meq=True, **kw)[2]
        b = fn.eta_function(s, rmin=rn[3], rmax=rn[5], meq=True, **kw)[2]
        if "npop" in kw or rng.integers(2):
            return fn.ckin(c, **kw), a, b
        c.ckin(**kw)
        return c.ck, a, b
    t.call("ckin", go, lambda r: dict(par=par, after=C.state(c), mask_after=marg(mask), bins_after=True, ck=float(r[0]), inner=float(r[1]), half=float(r[2])), q=q)


def scenario(prop, rng, i):
    def run(t):
        if prop == "C18":
            k = i % 10
            if k == 9:
                if i % 40 == 9:
                    ckin(t, cluster(rng, 330, "meq", moved=bool(rng.integers(2))), rng)
                else:
                    sigmas(t, cluster(rng, 150, "meq"), rng, True)
            elif k == 3 and i % 20 == 3:
                tapers(t, cluster(rng, int(rng.integers(90, 110)), "taper"), rng)
            elif k < 4:
                masses(t, cluster(rng, int(rng.integers(40, 110)), "eta", moved=bool(rng.integers(2))), rng)
            elif k < 6:
                sigmas(t, cluster(rng, int(rng.integers(60, 130)), "eta"), rng, False)
            else:
                slopes(t, cluster(rng, int(rng.integers(110, 180)), "eta", False), rng, "alpha" if k < 8 else "eta" if i % 20 < 10 else "meqprof")
            return
        moved = rng.integers(3) == 0
        c = cluster(rng, int(rng.integers(20, 60)), moved=moved)
        ops = ["rho", "m"] if prop == "C16" else ["v", "v2", "sigv", "beta", "vcirc"]
        for _ in range(2):
            prof(t, c, rng, str(rng.choice(ops)), moved)
            if t.failed:
                return
    return run


def make(prop, tier, seed, work):
    rng = np.random.default_rng([seed, int(prop[1:])])
    n = {"C16": 400, "C17": 400, "C18": 300}[prop] * (1 if tier == "quick" else 15)
    return [K.record("%s:%d" % (prop, i), scenario(prop, rng, i)) for i in range(n)], {}
