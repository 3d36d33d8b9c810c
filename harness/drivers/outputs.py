"""C29: outputs of N-body codes with single stars and binaries, written and read back output by output"""
import os, shutil
import numpy as np
import clustertools as ct
import common as K
import clusters as C
from common import F
from series import i4, fl, f4


def star(rng, i, ev, whole):
    lost = ev and rng.integers(12) == 0          # no evolution known: not a number in the files
    return dict(id=i, m=f4(rng.uniform(1e-4, 1e-2)), p=[f4(q) for q in rng.normal(0, 1, 3)], v=[f4(q) for q in rng.normal(0, 0.5, 3)],
                kw=int(rng.integers(0, 15)), logl=float("nan") if lost else round(float(rng.normal(0, 1.5)), 5),
                logr=float("nan") if lost else round(float(rng.normal(0, 0.7)), 5),
                rho=f4(rng.uniform(0, 50)), pot=f4(-rng.uniform(0.1, 3)), msun=round(float(rng.uniform(0.1, 40)), 5))


def an_output(rng, kind, k, ev):
    ns, nb = int(rng.integers(1, 9)), int(rng.choice([0, 0, 1, 2, 4]))
    ids = [int(q) for q in rng.permutation(900)[:ns + 3 * nb] + 1]
    P = {q: f4(w) for q, w in dict(zm=rng.uniform(100, 9000), rb=rng.uniform(0.5, 9), vb=rng.uniform(0.5, 9), tb=rng.uniform(0.1, 9)).items()}
    head = dict(rtide=f4(rng.uniform(1, 90)), rc=f4(rng.uniform(0, 1)), nc=int(rng.integers(0, 900)), rscale=f4(rng.uniform(0, 3)))
    pairs = []
    for j in range(nb):
        a, b = star(rng, ids.pop(), ev and kind == "conf", False), star(rng, ids.pop(), False, False)
        if a["logl"] != a["logl"]:
            b["logl"] = b["logr"] = a["logl"]
        q = dict(a=a, b=b, id=ids.pop(), m=f4(rng.uniform(1e-4, 1e-2)), p=[f4(w) for w in rng.normal(0, 1, 3)], v=[f4(w) for w in rng.normal(0, 0.5, 3)],
                 kwb=int(rng.integers(0, 15)), ecc=round(float(rng.uniform(0, 1)), 5), pot=f4(-rng.uniform(0.1, 3)),
                 pb=round(float(rng.uniform(-1, 6)), 5), semi=round(float(rng.uniform(0, 5)), 5))
        if kind == "hdf5":
            q["pb"], q["semi"] = 10 ** q["pb"], 10 ** q["semi"]
            q["p"], q["v"] = [w * 5 for w in q["p"]], [w * 9 for w in q["v"]]
        pairs.append(q)
    singles = [star(rng, ids.pop(), ev, False) for _ in range(ns)]
    if kind == "nbody6":
        for s in pairs:                          # one line for both stars: all of it known or none
            if rng.integers(6) == 0:
                for w in (s["a"], s["b"]):
                    w["logl"] = w["logr"] = float("nan")
    if kind == "conf":
        for s in pairs:
            s["a"]["logl"], s["a"]["logr"] = [0.1 if w != w else w for w in (s["a"]["logl"], s["a"]["logr"])]
            s["b"]["logl"], s["b"]["logr"] = [0.2 if w != w else w for w in (s["b"]["logl"], s["b"]["logr"])]
    if kind == "hdf5":
        for s in singles + [w for q in pairs for w in (q["a"], q["b"])]:
            if s["logl"] != s["logl"]:
                s["logl"] = s["logr"] = 0.3
            s["m"] = s["msun"]
    return dict(t=f4(0.5 * k + rng.uniform(0, 0.4)), cen=[f4(q) for q in rng.normal(0, 0.1, 3)], P=P, head=head, pairs=pairs, singles=singles, ev=bool(ev), centred=True)


def alist(s):
    a = [0.0] * 20
    a[0], a[1], a[2], a[3], a[10], a[11] = s["t"], len(s["pairs"]), s["P"]["rb"], s["P"]["zm"], s["P"]["tb"], s["P"]["vb"]
    a[6:9] = s["cen"]
    a[4], a[12], a[13], a[17] = (s["head"][k] for k in ("rtide", "rc", "nc", "rscale"))
    return a


def block(s, rows, more):
    b = fl(alist(s)) + fl([r["m"] for r in rows])
    if more:
        b += fl([r["rho"] for r in rows]) + fl([0.0] * len(rows))
    b += fl([q for r in rows for q in r["p"]]) + fl([q for r in rows for q in r["v"]])
    if more:
        b += fl([r["pot"] for r in rows])
    b += i4(*[r["id"] for r in rows])
    return i4(16, len(rows), 1, 1, 20, 16) + i4(len(b)) + b + i4(len(b))


def num(x):
    return "NaN" if x != x else repr(x)


def pair_line(q, head):
    a, b = q["a"], q["b"]
    return " ".join([str(w) for w in head] + [str(w) for w in (a["id"], b["id"], a["kw"], b["kw"], q["kwb"])] + ["0.5"]
                    + [num(w) for w in (q["ecc"], q["pb"], q["semi"], a["msun"], b["msun"], a["logl"], b["logl"], a["logr"], b["logr"])] + ["3.5", "3.6"]) + "\n"


def w_nbody6(d, outs, ev):
    with open(os.path.join(d, "OUT3"), "wb") as f:
        for s in outs:
            f.write(block(s, s["pairs"] + s["singles"], False))
    if not ev:
        return
    with open(os.path.join(d, "fort.82"), "w") as f, open(os.path.join(d, "fort.83"), "w") as g:
        for s in outs:
            f.write("## BIN %d %r\n" % (len(s["pairs"]), s["t"]))
            for q in s["pairs"]:
                f.write(pair_line(q, []))
            g.write("## SIN %d %r\n" % (len(s["singles"]), s["t"]))
            for r in s["singles"]:
                g.write(" ".join([str(r["id"]), str(r["kw"]), "0.5", num(r["msun"]), num(r["logl"]), num(r["logr"]), "3.5"]) + "\n")
            f.write("## END\n")
            g.write("## END\n")


def w_conf(d, name, s, ev, rng):
    rows = [w for q in s["pairs"] for w in (q["a"], q["b"])] + s["singles"]
    with open(os.path.join(d, "conf.3_" + name), "wb") as f:
        f.write(block(s, rows, True))
    if not ev:
        return
    nb = len(s["pairs"])
    with open(os.path.join(d, "bev.82_" + name), "w") as f:
        f.write("%d %r\n" % (nb, s["t"]))
        for j, q in enumerate(s["pairs"]):
            f.write(pair_line(q, ["%r" % s["t"], 2 * j + 1, 2 * j + 2]))
    order = rng.permutation(len(s["singles"])) if rng.integers(2) else np.arange(len(s["singles"]))
    with open(os.path.join(d, "sev.83_" + name), "w") as f:
        f.write("%d %r\n" % (len(order), s["t"]))
        for j in order:
            r = s["singles"][j]
            f.write(" ".join(["%r" % s["t"], str(2 * nb + j + 1), str(r["id"]), str(r["kw"]), "0.5", num(r["msun"]), num(r["logl"]), num(r["logr"]), "3.5"]) + "\n")


def w_hdf5(d, name, groups):
    import h5py
    with h5py.File(os.path.join(d, "snap.40_%s.h5part" % name), "w") as f:
        for k, s in enumerate(groups):
            g = f.create_group("Step#%d" % k)
            S, B = s["singles"], s["pairs"]
            g.attrs["N_SINGLE"], g.attrs["Time"] = len(S), s["t"]
            put = lambda h, n, v, t=float: h.create_dataset(n, data=np.array(v, dtype=t))
            put(g, "NAM", [r["id"] for r in S], int)
            for j in range(3):
                put(g, "X%d" % (j + 1), [r["p"][j] for r in S])
                put(g, "V%d" % (j + 1), [r["v"][j] for r in S])
            put(g, "M", [r["m"] for r in S])
            put(g, "KW", [r["kw"] for r in S], int)
            put(g, "L", [10 ** r["logl"] for r in S])
            put(g, "RS", [r["logr"] for r in S])
            put(g, "POT", [r["pot"] for r in S])
            for q in ("RC", "TE"):
                put(g, q, [0.1] * len(S))
            if B:
                h = g.create_group("Binaries")
                for n, k_ in (("A", "semi"), ("ECC", "ecc"), ("P", "pb"), ("POT", "pot")):
                    put(h, n, [q[k_] for q in B])
                put(h, "KWC", [q["kwb"] for q in B], int)
                put(h, "NAMC", [q["id"] for q in B], int)
                put(h, "G", [0.2] * len(B))
                for i, w in ((1, "a"), (2, "b")):
                    put(h, "KW%d" % i, [q[w]["kw"] for q in B], int)
                    put(h, "NAM%d" % i, [q[w]["id"] for q in B], int)
                    put(h, "L%d" % i, [10 ** q[w]["logl"] for q in B])
                    put(h, "M%d" % i, [q[w]["m"] for q in B])
                    put(h, "RS%d" % i, [q[w]["logr"] for q in B])
                    for z in ("MC", "RC", "TE"):
                        put(h, z + str(i), [0.1] * len(B))
                for j in range(3):
                    put(h, "XC%d" % (j + 1), [q["p"][j] for q in B])
                    put(h, "VC%d" % (j + 1), [q["v"][j] for q in B])
                    put(h, "XR%d" % (j + 1), [0.3 + j] * len(B))
                    put(h, "VR%d" % (j + 1), [0.4 + j] * len(B))


def ints(x):
    return [int(round(float(q))) for q in np.ravel(x)]


def show(c):
    if c.ntot == 0:
        return dict(ntot=0, x=[[0.0]] * len(c.x))
    s = C.state(c)
    b = {q: ints(getattr(c, q)) for q in ("id1", "id2", "kw1", "kw2", "kcm")}
    b.update({q: F(getattr(c, q)) for q in ("ecc", "pb", "semi", "m1", "m2", "logl1", "logl2", "logr1", "logr2")})
    if len({len(w) for w in b.values()}) > 1:
        b = {q: [] for q in b}
    return dict(u=s["u"], o=s["o"], t=s["t"], x=s["x"], m=s["m"], id=s["id"], cen=s["cen"], P=C.P_of(c), head=dict(rtide=float(c.rtide), rc=float(c.rc), nc=int(c.nc), rscale=float(c.rscale)), ntot=int(c.ntot), nb=int(c.nb), ns=int(c.ns),
                kw=ints(c.kw), logl=F(c.logl), logr=F(c.logr), lum=F(c.lum), rho=F(c.rhos), pot=F(getattr(c, "pot", [])), bse=b)


def scenario(rng, kind, d):
    def run(t):
        ev = kind == "hdf5" or rng.integers(4) > 0
        n = int(rng.integers(1, 4))
        kw = {}
        if rng.integers(3) == 0:
            kw["sortstars"] = False
        if rng.integers(4) == 0:
            kw["analyze"] = False
        if kind == "hdf5":
            outs, files = [], []
            for f in range(int(rng.integers(1, 3))):
                g = [an_output(rng, kind, len(outs) + k, ev) for k in range(n)]
                for s in g[1:]:
                    s["P"], s["head"], s["centred"] = g[0]["P"], g[0]["head"], False      # the scales of a file are those of its conf.3
                w_hdf5(d, str(f), g)
                w_conf(d, str(f), dict(g[0], pairs=[]), False, rng)
                outs += g
            first = dict(ctype="nbody6pp", hdf5=True, nsnap=0)
        else:
            outs = [an_output(rng, kind, k, ev) for k in range(n)]
            if kind == "nbody6":
                w_nbody6(d, outs, ev)
                first = dict(ctype="nbody6")
            else:
                for k, s in enumerate(outs):
                    w_conf(d, str(k), s, ev, rng)
                first = dict(ctype=str(rng.choice(["nbody6pp", "nbody6++"])), nsnap=0)
        t.init = dict(kind=kind, outs=outs)
        c = t.call("load", lambda: ct.load_cluster(wdir=d, **first, **kw), show)
        for _ in range(len(outs)):
            if t.failed:
                return
            if rng.integers(3) == 0:
                c.to_pckms()
            c = t.call("advance", lambda: ct.advance_cluster(c, **kw), show)
    return run


def make(prop, tier, seed, work):
    rng = np.random.default_rng([seed, 29])
    n = 80 if tier == "quick" else 1500
    out = []
    for i in range(n):
        for kind in ("nbody6", "conf", "hdf5"):
            d = os.path.join(work, "outputs")
            os.makedirs(d)
            out.append(K.record("%s:%d" % (kind, i), scenario(rng, kind, d)))
            shutil.rmtree(d, ignore_errors=True)
    return out, dict(generated_inputs=len(out))
