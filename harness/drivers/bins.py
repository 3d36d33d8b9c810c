"""C15: binning, histogram, smoothing and interpolation helpers on random lists of values"""
import numpy as np
import common as K
import clusters as C
from common import F
from clustertools.util import recipes as R


def data(rng, n, positive=False, ties=True):
    k = rng.integers(6)
    if k == 0:
        x = rng.normal(0, 1, n)
    elif k == 1:
        x = rng.uniform(-5, 50, n)
    elif k == 2:
        x = rng.lognormal(0, 1.5, n)
    elif k == 3 and ties:
        x = rng.integers(1, max(3, n // 3), n).astype(float)
    elif k == 4 and ties:
        x = rng.uniform(0, 1, n)
        x[rng.integers(0, n, n // 3)] = x[0]
    else:
        x = rng.uniform(1e-3, 1, n) * 10.0 ** rng.integers(-4, 5)
    if positive:
        x = np.abs(x) + 1e-3
    if rng.integers(3) == 0:
        x = np.sort(x)[::int(rng.choice([-1, 1]))]
    if len(set(x)) < 2:
        x[0] = x[0] + 1.0
    return x


def shape(rng, x):
    return list(x) if rng.integers(3) == 0 else np.array(x)


def binning(t, rng):
    n = int(rng.integers(3, 45))
    nb = int(rng.integers(1, 13))
    x = data(rng, n)
    nsum = bool(rng.integers(2))
    op = str(rng.choice(["nbin", "nbin", "fix", "fixlog", "roamnum", "roamfix", "roamlog"]))
    log = op.endswith("log")
    if log:
        x = np.abs(x) + 1e-3
    if op[:4] == "roam":
        nb = max(nb, 2)
    m = int(rng.integers(2, 30))
    a = np.array(x) if op[:4] == "roam" else shape(rng, x)
    kw = dict(nsum=True) if nsum else {}
    if log:
        kw["steptype"] = "log"
    if op == "nbin":
        f = lambda: R.nbinmaker(a, nb, **kw)
    elif op[:3] == "fix":
        f = lambda: R.binmaker(a, nb, **kw)
    elif op == "roamnum":
        f = lambda: R.roaming_nbinmaker(a, nbin=nb, ntot=m, **kw)
    else:
        f = lambda: R.roaming_binmaker(a, nbin=nb, ntot=m, **kw)
    t.call(op.replace("log", "") if op[:3] == "fix" else op.replace("roamlog", "roamfix"), f,
           lambda r: dict(lo=F(r[0]), mid=F(r[1]), hi=F(r[2]), hist=F(r[3]), sum=F(r[4]) if nsum else [], same=F(a) == F(x)),
           x=F(x), n=nb, m=m, nsum=nsum, log=log)


def own_bins(rng, x, kw):
    """bins of its own, or preset ones that cover the data"""
    own = str(rng.choice(["num", "fix", "given"]))
    n = int(rng.integers(2, 9))
    B = dict(lo=[], mid=[], hi=[])
    if own == "given":
        s = np.sort(np.concatenate([[np.min(x) - rng.choice([0, 0.5]) * 1e-3, np.max(x) + rng.choice([0, 0.7])],
                                    rng.uniform(np.min(x), np.max(x), n)]))
        lo, hi = s[:-1], s[1:]
        mid = 0.5 * (lo + hi)
        kw.update(x_lower=lo, x_upper=hi, x_mean=mid)
        B = dict(lo=F(lo), mid=F(mid), hi=F(hi))
    else:
        kw.update(bintype=own)
    return own, n, B


def stats(t, rng):
    n = int(rng.integers(4, 60))
    op = str(rng.choice(["index", "hist", "slope", "prof", "smooth"]))
    x = data(rng, n, positive=True, ties=False)
    kw = {}
    own, nb, B = own_bins(rng, x, kw)
    a = shape(rng, x)
    if op == "index":
        if own != "given":
            kw = {}
            s = np.sort(np.unique(x))
            B = dict(lo=F(s[:-1]), mid=F(s[1:]), hi=F(s[1:]))
        lo, hi = np.array(B["lo"]), np.array(B["hi"])
        t.call("index", lambda: R.bin_index(a, lo, hi), lambda r: dict(ret=[int(i) for i in r], same=F(a) == F(x)), x=F(x), own=own, n=nb, **B)
    elif op == "hist":
        if rng.integers(2):
            t.call(op, lambda: R.x_hist(a, nx=nb, **kw), lambda r: dict(rx=F(r[0]), rn=F(r[1]), same=F(a) == F(x)), x=F(x), own=own, n=nb, **B)
        else:
            t.call(op, lambda: R.x_hist(a, nx=nb, bins=True, **kw), lambda r: dict(rx=F(r[1]), rn=F(r[3]), same=F(a) == F(x)), x=F(x), own=own, n=nb, **B)
    elif op == "slope":
        x = data(rng, 60, positive=True, ties=False)
        kw = {}
        own, nb, B = own_bins(rng, x, kw)
        nb += 2
        a = np.array(x)
        if own == "fix" or own == "given":
            lo = np.array(B["lo"]) if own == "given" else np.linspace(x.min(), x.max(), nb + 1)[:-1]
            if len(set(np.searchsorted(lo, x))) < 5:
                return
        t.call(op, lambda: R.dx_function(a, nx=nb, **kw),
               lambda r: dict(rx=F(r[0]), rn=F(r[1]), dx=F(r[2]), fit=F(r[3:]), same=F(a) == F(x)), x=F(x), own=own, n=nb, **B)
    elif op == "prof":
        y = rng.normal(0, 3, n)
        a, b = np.array(x), np.array(y)
        med = bool(rng.integers(2))
        if own == "fix" and rng.integers(2):
            own = "log"
            kw["steptype"] = "log"
        t.call(op, lambda: R.mean_prof(a, b, nbin=nb, median=med, **kw), lambda r: dict(rx=F(r[0]), ry=F(r[1]), rs=F(r[2]), same=F(a) == F(x) and F(b) == F(y)),
               x=F(x), y=F(y), own=own, n=nb, median=med, **B)
    else:
        y = rng.normal(0, 3, n)
        b = shape(rng, y)
        med = bool(rng.integers(2))
        own = str(rng.choice(["num", "fix"]))
        dx = (x.max() - x.min()) / (nb + 0.5)
        t.call(op, lambda: R.smooth(a, b, dx, bintype=own, median=med),
               lambda r: dict(rx=F(r[0]), ry=F(r[1]), rs=F(r[2]), ylo=F(r[3]), yhi=F(r[4]), same=F(a) == F(x) and F(b) == F(y)),
               x=F(x), y=F(y), own=own, n=nb, median=med, lo=[], mid=[], hi=[])


def other(t, rng):
    op = str(rng.choice(["line", "nearest"]))
    if op == "line":
        p, q = rng.normal(0, 5, 2), rng.normal(0, 5, 2)
        by = str(rng.choice(["x", "y"]))
        v = float(rng.choice([0.0, rng.normal(0, 5)]))
        t.call(op, lambda: R.interpolate(tuple(p), tuple(q), **{by: v}), lambda r: dict(ret=float(r), same=True), p=F(p), q=F(q), by=by, v=v)
    else:
        pts = rng.normal(0, 4, (int(rng.integers(2, 20)), 3))
        if rng.integers(3) == 0:
            pts[0] = pts[-1]
        a = pts.copy()
        t.call(op, lambda: R.minimum_distance(a), lambda r: dict(ret=F(r), same=bool(np.all(a == pts))), pts=[F(p) for p in pts])


def law(t, rng):
    a = float(rng.choice([-2.35, -1.0, -0.5, 0.0, 0.5, 1.0, 2.0, rng.uniform(-4, 3)]))
    lo = float(rng.choice([0.1, 1.0, rng.uniform(0.05, 5)]))
    hi = lo * float(rng.uniform(1.3, 6))
    n = 4000
    np.random.seed(int(rng.integers(1, 2 ** 31)))
    t.call("law", lambda: R.power_law_distribution_function(n, a, lo, hi), lambda r: dict(ret=F(r), same=True), a=a, lo=lo, hi=hi, n=n)


def scenario(rng, i):
    def run(t):
        if i % 25 == 0:
            law(t, rng)
            return
        for _ in range(3):
            [binning, stats, other][int(rng.choice([0, 0, 0, 1, 1, 1, 2]))](t, rng)
            if t.failed:
                return
        if not t.ev:
            other(t, rng)
    return run


def make(prop, tier, seed, work):
    rng = np.random.default_rng([seed, int(prop[1:])])
    n = 500 if tier == "quick" else 10000
    return [K.record("%s:%d" % (prop, i), scenario(rng, i)) for i in range(n)], {}
