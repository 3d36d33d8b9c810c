"""C20: clusters written to files in random frames and read back"""
import os, shutil
import numpy as np
import clustertools as ct
import common as K
import clusters as C
from common import F
from histories import sky_cluster

UN = C.CART + ["radec"]


def table(path, delimiter=None, skip=0):
    """rows of a text file, read without the code under test"""
    out = []
    with open(path) as f:
        for i, line in enumerate(f):
            if i < skip:
                continue
            q = line.split(delimiter)
            if q and line.strip():
                out.append([float(w) for w in q])
    return out


def arg(v):
    if v is None:
        return dict(k="none")
    return dict(k="one", v=float(v)) if np.ndim(v) == 0 else dict(k="many", v=F(v))


def start(rng, wdir):
    n = int(rng.choice([1, 2, 3, 5, 8]))
    kw = dict(C.SETS[rng.integers(len(C.SETS))])
    if rng.integers(6) == 0:
        c = sky_cluster(rng, n, **kw)
        c.wdir = wdir
    else:
        u = C.CART[rng.integers(len(C.CART))]
        o = ["cluster", "centre", "galaxy"][rng.integers(3)]
        c = C.make(rng, u, o, n=n, wdir=wdir, **kw)
    if rng.integers(2):   # seen in some other frame
        u = UN[rng.integers(len(UN))]
        if u == "radec":
            c.to_sky()
        elif c.units != "radec":
            c.to_units(u)
            c.to_origin(["cluster", "centre", "galaxy"][rng.integers(3)])
    x = dict(sse=False, kw=[], m0=[], ep=[], ospin=[], e=[])
    if rng.integers(2):
        x["sse"] = True
        v = dict(kw=rng.integers(0, 15, n).astype(float), ep=rng.uniform(0, 9, n), ospin=rng.uniform(0, 9, n))
        c.add_sse(v["kw"], rng.normal(0, 1, n), rng.normal(0, 1, n), v["ep"], v["ospin"])
        c.m0 = rng.uniform(0.1, 30, n)
        x.update({q: F(w) for q, w in v.items()}, m0=F(c.m0))
    if rng.integers(2):
        e = rng.normal(0, 1, (3, n))
        c.add_energies(e[0], e[1], e[2])
        x["e"] = [[float(e[j][i]) for j in range(3)] for i in range(n)]
    return c, x


COLS = ["m", "x", "y", "z", "vx", "vy", "vz", "id", "kw"]


def reload(t, c, x, rng, d, path, units, origin, rows):
    """the rows that were written, possibly laid out differently, read with matching settings"""
    kw = {}
    names = COLS[:8] + (["kw"] if x["sse"] else [])
    nums = list(range(len(names)))
    sub = os.path.join(d, "in%d" % rng.integers(1000))
    os.makedirs(sub, exist_ok=True)
    delim, skip = None, 0
    if rng.integers(3) == 0:    # other layouts of the same table
        delim = [None, ","][rng.integers(2)]
        skip = int(rng.integers(0, 3))
        perm = [int(i) for i in rng.permutation(len(rows[0]))]
        inv = [perm.index(i) for i in nums]
        path = os.path.join(sub, "other.txt")
        with open(path, "w") as f:
            f.write("header\n" * skip)
            for r in rows:
                f.write((delim or " ").join(repr(r[p]) for p in perm) + "\n")
        nums = inv
        if delim:
            kw["delimiter"] = delim
        if skip:
            kw["skiprows"] = skip
    pick = list(range(len(names)))
    if rng.integers(3) == 0:
        pick = [int(i) for i in rng.permutation(pick)]
    if rng.integers(5) == 0 and units != "radec":
        pick = [i for i in pick if names[i] not in rng.choice(["m", "vx", "vz", "id", "kw"], 2)]
    names, nums = [names[i] for i in pick], [nums[i] for i in pick]
    plain = names[:7] == COLS[:7] and nums[:7] == list(range(7)) and len(names) == 7
    if not plain:
        kw.update(col_names=names, col_nums=nums)
    # where it is found
    how = rng.integers(5)
    cwd = os.getcwd()
    base = os.path.basename(path)
    if how == 0:
        kw["filename"] = path
    elif how == 1:
        kw.update(filename=base, wdir=os.path.dirname(path) + ("/" if rng.integers(2) else ""))
    elif how == 2:
        w = os.path.join(sub, "run")
        os.makedirs(os.path.join(w, "snaps"), exist_ok=True)
        shutil.copy(path, os.path.join(w, "snaps", "a.dat"))
        kw.update(filename="a.dat", wdir=w, snapdir="snaps" + ("/" if rng.integers(2) else ""))
    else:
        w = os.path.join(sub, "run")
        s = "snaps" if how == 3 else ""
        os.makedirs(os.path.join(w, s), exist_ok=True)
        k, z = int(rng.integers(0, 200)), int(rng.choice([1, 3, 5]))
        b, e = str(rng.choice(["", "snap_"])), str(rng.choice([".dat", ".txt"]))
        shutil.copy(path, os.path.join(w, s, b + str(k).zfill(z) + e))
        kw.update(wdir=w, nsnap=k)
        if how == 3:
            kw["snapdir"] = s
        if z != 5 or rng.integers(2):
            kw["nzfill"] = z
        if b:
            kw["snapbase"] = b
        if e != ".dat" or rng.integers(2):
            kw["snapend"] = e
    S = C.SETS[rng.integers(len(C.SETS))]
    if S:
        kw.update(ro=S["ro"], vo=S["vo"], zo=S["zo"], solarmotion=S["solar"])
    tp = 0.0
    if rng.integers(2):
        tp = kw["tphys"] = float(rng.uniform(0, 1000))
    if rng.integers(3) == 0:
        kw["analyze"] = False
    elif rng.integers(3) == 0:
        kw["sortstars"] = False
    ev = dict(u=units, o=origin, cols=names, rows=[[r[i] for i in nums] for r in (table(path, delim, skip))], t=tp, table=False,
              want=C.P_of(ct.StarCluster(**({} if not S else dict(ro=S["ro"], vo=S["vo"], zo=S["zo"], solarmotion=S["solar"])))))
    # an orbit table: row nsnap
    ofile = None
    if rng.integers(3) == 0 and units != "radec" and origin != "None":
        nsnap = kw.get("nsnap", 0)
        ou = (C.CART + ["None"])[rng.integers(len(C.CART) + 1)]
        if ou == "nbody" and units != "nbody":
            ou = "None"
        uu = units if ou == "None" else ou
        l, vf, _, _ = C.raw_factors(ct.StarCluster(), uu)
        T = [[float(i * 10.0)] + [float(q) for q in rng.normal(0, 8000, 3) * l] + [float(q) for q in rng.normal(0, 150, 3) * vf] for i in range(nsnap + 2)]
        p = os.path.join(kw.get("wdir", sub), "orbit.txt")
        with open(p, "w") as f:
            for r in T:
                f.write(" ".join(repr(q) for q in r) + "\n")
        if kw.get("wdir") and rng.integers(2):
            kw["ofilename"] = "orbit.txt"
        else:
            ofile = kw["ofile"] = open(p)
        if ou != "None":
            kw["ounits"] = ou
        ev.update(table=True, ou=uu, w=T[nsnap][1:])

    def seen(q):
        s = C.state(q)
        kwq = F(q.kw) if "kw" in names else []
        return dict(obs=s, kw=kwq, P=C.P_of(q))
    t.call("load", lambda: ct.load_cluster("snapshot", units=units, origin=origin, **kw), seen, **ev)
    if ofile:
        ofile.close()


def scenario(rng, d):
    def run(t):
        wdir = os.path.join(d, "w%d" % rng.integers(10000))
        os.makedirs(wdir, exist_ok=True)
        c, x = start(rng, wdir + ("/" if rng.integers(2) else ""))
        t.init = C.init_of(c)
        t.init["sorted"] = c.rorder is not None
        t.init["extra"] = x
        for i in range(3):
            k = rng.integers(8)
            f = os.path.join(wdir, "out%d.dat" % i)
            if k < 4:
                q = dict(energies=bool(x["e"]) and bool(rng.integers(2)), sky=bool(rng.integers(4) == 0))
                t.call("snap", lambda: ct.snapout(c, f, **dict(energies=q["energies"], radec=q["sky"])),
                       lambda _: dict(obs=C.state(c), rows=table(f)), **q)
                if not t.failed:
                    reload(t, c, x, rng, wdir, f, c.units, c.origin, t.ev[-1]["rows"])
            elif k == 4 and x["sse"]:
                t.call("sse", lambda: ct.sseout(c, f), lambda _: dict(obs=C.state(c), rows=table(f)))
            elif k == 5 and c.units != "radec":
                s = x["sse"] and bool(rng.integers(2))
                a = {} if rng.integers(2) else dict(filename="init.10", sse_filename="init.12")
                t.call("fort", lambda: ct.fortout(c, sse=s, **a),
                       lambda _: dict(obs=C.state(c), rows=table(os.path.join(wdir, a.get("filename", "fort.10"))),
                                      srows=table(os.path.join(wdir, a.get("sse_filename", "fort.12"))) if s else []), sse=s)
            elif k > 5 and c.units != "radec":
                n = len(c.x)
                eu = (["None"] + [u for u in C.CART if u != "WDunits"])[rng.integers(len(C.CART))]
                eps = [None, float(rng.uniform(0.1, 3)), rng.uniform(0.1, 3, n), [float(q) for q in rng.uniform(0.1, 3, n)]][rng.integers(4)]
                before = arg(eps)
                a = {} if eps is None else dict(eps=eps)
                if eps is not None and eu != "None":
                    a["epsunits"] = eu
                t.call("gyr", lambda: ct.gyrout(c, f, **a), lambda _: dict(obs=C.state(c), rows=table(f), epskept=arg(eps) == before),
                       eps=before, epsunits=eu)
            if t.failed:
                return
    return run


def make(prop, tier, seed, work):
    rng = np.random.default_rng([seed, 20])
    n = 400 if tier == "quick" else 8000
    out = []
    for i in range(n):
        d = os.path.join(work, "files")
        os.makedirs(d, exist_ok=True)
        out.append(K.record("file:%d" % i, scenario(rng, d)))
        shutil.rmtree(d, ignore_errors=True)
    return out, {}
