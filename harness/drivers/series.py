"""C21: TLC-generated ways through a series of snapshots, replayed with every kind of file"""
import json, os, re, shutil, struct
import numpy as np
import clustertools as ct
import common as K
import clusters as C
from common import F
from galpy.orbit import Orbit
from galorbits import pot_of, DEF


def runs(work, depth):
    cfg = "SPECIFICATION Spec\nINVARIANTS TypeOK InOrder NoneMissed EndsEmpty\n"
    rc, out = K.tlc("SeriesRuns", cfg, work, env=dict(DEPTH=str(depth), EMIT="yes"))
    hs = [json.loads(m.group(1).replace('\\"', '"').replace('\\\\', '\\')) for m in re.finditer(r'^"HIST (.*)"$', out, re.M)]
    if not hs or "No error has been found" not in out:
        raise RuntimeError("no runs from TLC: rc %d\n%s" % (rc, out[-2000:]))
    return sorted(hs, key=json.dumps), K.stats(out)


def f4(x):
    return float(np.float32(x))


# ------------------------------------------------------------------ writers
def w_rows(path, s, delim=" ", head=0, perm=None):
    with open(path, "w") as f:
        f.write("# header\n" * head)
        for r in s["rows"]:
            f.write(delim.join(repr(r[p]) for p in (perm or range(len(r)))) + "\n")


def w_gyr(path, snaps, head):
    with open(path, "w") as f:
        for s in snaps:
            L = ["# simulation output"] * head
            L[1], L[2] = "# Ntot: %d, Nsink: 0" % len(s["rows"]), "# time: %r" % s["t"]
            f.write("\n".join(L) + "\n")
            for r in s["rows"]:
                f.write(" ".join(repr(q) for q in r) + "\n")


def i4(*a):
    return struct.pack("%di" % len(a), *a)


def fl(a):
    return struct.pack("%df" % len(a), *a)


def alist(s):
    a = [0.0] * 20
    a[0], a[2], a[3], a[10], a[11] = s["t"], s["P"]["rb"], s["P"]["zm"], s["P"]["tb"], s["P"]["vb"]
    a[6:9] = s["cen"]
    return a


def data_block(s, lists=()):
    x = np.array(s["rows"])
    b = fl(alist(s)) + fl(x[:, 0])
    for q in lists[:2]:
        b += fl(q)
    b += fl(x[:, 1:4].ravel()) + fl(x[:, 4:7].ravel())
    for q in lists[2:]:
        b += fl(q)
    b += i4(*s["id"])
    return i4(len(b)) + b + i4(len(b))


def w_out3(path, snaps, tail):
    with open(path, "wb") as f:
        for s in snaps:
            k = s.get("ntail", 0)
            q = dict(s, rows=s["rows"][k:], id=s["id"][k:])
            f.write(i4(16, len(q["rows"]), 1, 1, 20, 16) + data_block(q))
    if tail:
        with open(os.path.join(os.path.dirname(path), "OUT33"), "wb") as f:
            for s in snaps:
                k = s["ntail"]
                f.write(i4(12, k, 1, 20, 12))
                if k:
                    q = dict(s, rows=s["rows"][:k], id=s["id"][:k])
                    x = np.array(q["rows"])
                    b = fl(list(s["orbit"]) + [0.0] * 14) + fl(x[:, 0]) + fl(x[:, 1:4].ravel()) + fl(x[:, 4:7].ravel()) + i4(*q["id"])
                    f.write(i4(len(b)) + b + i4(len(b)))


def w_conf(path, s):
    n = len(s["rows"])
    z = np.arange(n) * 0.5
    with open(path, "wb") as f:
        f.write(i4(16, n, 1, 1, 20, 16) + data_block(s, (z, z, -z)))


KINDS = ["snapshot", "snapshot", "snapshot", "custom", "gyrfalcon", "new_gyrfalcon", "gyrfiles", "nbody6", "nbody6", "nbody6pp", "nbody6pp"]


def scenario(rng, h, d, kind):
    def run(t):
        L = h["L"]
        wdir = os.path.join(d, "run")
        os.makedirs(wdir)
        S = C.SETS[rng.integers(len(C.SETS))]
        kw = {} if not S else dict(ro=S["ro"], vo=S["vo"], zo=S["zo"], solarmotion=S["solar"])
        nb = kind.startswith("nbody6")
        stream = kind in ("gyrfalcon", "new_gyrfalcon")
        single = kind != "new_gyrfalcon" and not nb and rng.integers(2)
        u = "nbody" if nb else str(rng.choice(C.CART))
        if u == "nbody" and not nb:
            u = "pckms"
        o = "cluster" if nb else str(rng.choice(["cluster", "centre", "galaxy"]))
        c0 = ct.StarCluster(units=u, **kw)
        l, vf, mf, tf = C.raw_factors(c0, u)
        an = bool(rng.integers(4)) or kind == "gyrfiles"
        if not an:
            kw["analyze"] = False
        if rng.integers(3) == 0:
            kw["sortstars"] = False
        if rng.integers(3) == 0:
            kw["projected"] = True
        if rng.integers(3) == 0:
            kw["centre_method"] = "VandeVen"
        step = 1 if kind != "nbody6pp" else [1, 1, 2, 5, 0.5, 0.25, 1.0][rng.integers(7)]
        tail = kind == "nbody6" and rng.integers(3) == 0
        # where the orbit comes from
        orbit = ["none", "table", "galpy"][rng.integers(3)]
        if orbit == "galpy" and (kind in ("custom",) or not an):
            orbit = "none"
        if orbit == "table" and L["gap"]:
            orbit = "none"
        otime = orbit == "table" and bool(rng.integers(2))
        ou = u
        if orbit == "table" and rng.integers(2):
            ou = str(rng.choice([q for q in C.CART if q not in ("nbody",)]))
        if tail:
            orbit, otime, ou = "table", False, u
        ol, ov, _, ot = C.raw_factors(c0, ou)
        head = 0
        give = "mxv"
        if kind.endswith("gyrfalcon") or kind == "gyrfiles":
            head = int(rng.choice([13, 13, 5, 20]))
            if head != 13:
                kw["skiprows"] = head
            give = str(rng.choice(["mxv", "mxv", "mxve", "mxvpqael"]))
            if give != "mxv":
                kw["give"] = give
        n = 0
        many = rng.integers(8) == 0 and sum(x == 'advance' for x in h['h']) < 5
        gp0 = rng.normal(0, 6000, 3)
        gv0 = rng.normal(0, 150, 3)
        dt = float(rng.uniform(1, 20))
        data = {"main": [], "cont": []}
        table = {"main": {}, "cont": {}}
        for dd in ("main", "cont"):
            for k in L[dd]:
                n = int(rng.integers(7, 12) + 120 * many) if kind != "new_gyrfalcon" or not n else n
                gp, gv = gp0 + k * 30.0, gv0 + k
                p = rng.normal(0, 10, (n, 3)) + (gp if o == "galaxy" else 0) + rng.normal(0, 3, 3)
                v = rng.normal(0, 3, (n, 3)) + (gv if o == "galaxy" else 0)
                m = rng.uniform(0.5, 9, n) * mf
                rows = np.column_stack([m, p * l, v * vf])
                s = dict(n=k, t=0.0, id=[], cen=[0.0] * 3, P=dict(zm=1.0, rb=1.0, vb=1.0, tb=1.0))
                if give == "mxve":
                    rows = np.column_stack([rows, rng.uniform(0, 1, n)])
                elif give == "mxvpqael":
                    rows = np.column_stack([rows, rng.uniform(0, 1, (n, 5))])
                if nb:
                    rows = np.float32(rows).astype(float)
                    s["id"] = [int(q) for q in rng.permutation(900)[:n] + 1]
                    s["cen"] = [f4(q) for q in rng.normal(0, 0.1, 3)]
                    s["P"] = {q: f4(w) for q, w in dict(zm=rng.uniform(100, 9000), rb=rng.uniform(0.5, 9), vb=rng.uniform(0.5, 9), tb=rng.uniform(0.1, 9)).items()}
                    s["ntail"] = int(rng.integers(1, 4)) if tail else 0
                s["rows"] = [[float(q) for q in r] for r in rows]
                s["tf"] = dt * k * tf
                if nb:
                    s["tf"] = f4(dt * k)
                if nb or stream or kind == "gyrfiles":
                    s["t"] = s["tf"]
                row = [float(q) for q in gp * ol] + [float(q) for q in gv * ov]
                if tail:
                    row = [f4(q) for q in row]
                s["orbit"] = row
                table[dd][k] = [s["tf"] if otime and ou == u else dt * k * ot] + row
                s["torb"] = table[dd][k][0]
                data[dd].append(s)
        # a body on a galpy orbit
        q, g, kk = [0.0] * 6, DEF[0], 1.0
        okw = {}
        if orbit == "galpy":
            g = DEF[rng.integers(2)]
            # never close to the axis, where galpy's interpolation is poor
            R, ph, vR, vT = rng.uniform(3, 9), rng.uniform(-3, 3), rng.normal(0, 40), rng.choice([-1, 1]) * rng.uniform(100, 250)
            q = [float(w) for w in (R * np.cos(ph), R * np.sin(ph), rng.normal(0, 2), vR * np.cos(ph) - vT * np.sin(ph),
                                    vR * np.sin(ph) + vT * np.cos(ph), rng.normal(0, 50))]
            body = Orbit([R / g["ro"], vR / g["vo"], vT / g["vo"], q[2] / g["ro"], q[5] / g["vo"], ph], ro=g["ro"], vo=g["vo"], solarmotion=g["solar"])
            kk = float(rng.uniform(0.3, 3))
            tmax = 8 * dt * 40 / 1000.0 / (g["ro"] / g["vo"] / C.KMS)
            body.integrate(np.linspace(0, tmax, 20001), pot_of(kk))
            okw["orbit"] = body
        # files
        cd = os.path.join(wdir, "cont")
        if L["hascont"]:
            os.makedirs(cd)
        names = {}
        akw = {}     # what has to be given to every call
        sub = ""
        dirs = [("main", wdir)] + ([("cont", cd)] if L["hascont"] else [])
        perm = None
        if kind in ("snapshot", "custom", "gyrfiles"):
            z = int(rng.choice([5, 5, 1, 3]))
            b, e = str(rng.choice(["", "snap_"])), str(rng.choice([".dat", ".dat", ".txt"]))
            if z != 5:
                kw["nzfill"] = z
            if b:
                kw["snapbase"] = b
            if e != ".dat":
                kw["snapend"] = e
            if rng.integers(3) == 0:
                sub = kw["snapdir"] = "snaps"
            delim = " "
            if kind == "snapshot":
                if rng.integers(3) == 0:
                    delim = kw["delimiter"] = ","
                head = int(rng.integers(0, 3))
                if head:
                    kw["skiprows"] = head
                if rng.integers(3) == 0:
                    perm = [int(w) for w in rng.permutation(7)]
                    akw.update(col_names=["m", "x", "y", "z", "vx", "vy", "vz"], col_nums=[perm.index(w) for w in range(7)])
            for dd, path in dirs:
                os.makedirs(os.path.join(path, sub), exist_ok=True)
                for s in data[dd]:
                    p = os.path.join(path, sub, b + str(s["n"]).zfill(z) + e)
                    w_gyr(p, [s], head) if kind == "gyrfiles" else w_rows(p, s, delim, head, perm)
            kw["nsnap"] = L["n0"]
        elif stream:
            w_gyr(os.path.join(wdir, "all.nemo"), data["main"], head)
        elif kind == "nbody6":
            if rng.integers(3) == 0:
                sub = kw["snapdir"] = "out"
            for dd, path in dirs:
                os.makedirs(os.path.join(path, sub), exist_ok=True)
                w_out3(os.path.join(path, sub, "OUT3"), data[dd], tail)
        elif kind == "nbody6pp":
            if rng.integers(3) == 0:
                sub = kw["snapdir"] = "out"
            for dd, path in dirs:
                os.makedirs(os.path.join(path, sub), exist_ok=True)
                for s in data[dd]:
                    num = s["n"] * step if L["n0"] or s["n"] or isinstance(step, float) else 0
                    if isinstance(step, float):
                        num = float(num)
                    w_conf(os.path.join(path, sub, "conf.3_" + str(num)), s)
            kw["nsnap"] = L["n0"] * step
            if isinstance(step, float):
                kw["nsnap"] = float(kw["nsnap"])
            if step != 1 or rng.integers(2):
                kw["dtout"] = step
        ofile = None
        if orbit == "table" and not tail:
            both = {**table["main"], **table["cont"]}
            for dd, path in dirs:
                with open(os.path.join(path, "orbit.txt"), "w") as f:
                    for k in range(max(both) + 1):
                        f.write(" ".join(repr(w) for w in both.get(k, [0.0] * 7)) + "\n")
            if rng.integers(2):
                okw["ofilename"] = "orbit.txt"
            else:
                ofile = okw["ofile"] = open(os.path.join(wdir, "orbit.txt"))
            if ou != u:
                akw["ounits"] = ou
            if otime:
                akw["otime"] = True
        kw["wdir"] = wdir + ("/" if rng.integers(2) or stream else "")
        ctype = {"gyrfiles": "gyrfalcon"}.get(kind, kind)
        if kind == "gyrfalcon" and rng.integers(3) == 0:
            ctype = "nemo"
        if kind == "nbody6pp" and rng.integers(2):
            ctype = "nbody6++"
        first = dict(kw, **akw)
        if stream:
            first["filename"] = "all.nemo" if rng.integers(2) else os.path.join(wdir, "all.nemo")
        if kind == "custom":
            akw["load_function"] = first["load_function"] = custom
            ctype = "snapshot"
        again = {q_: w for q_, w in kw.items() if q_ in ("analyze", "sortstars")}
        again.update(akw)
        if orbit == "galpy":
            again["orbit"] = okw["orbit"]
        centre = "none"
        if nb:
            centre = "given" if orbit != "galpy" else "found"
        elif kind != "custom" and an and not (o == "centre" and kind == "snapshot" and orbit != "galpy"):
            centre = "found"
        P = C.P_of(c0)
        shown = settings_of(kw, u, o, give, head)
        t.init = dict(L=dict(main=list(L["main"]), cont=list(L["cont"]), hascont=L["hascont"], n0=L["n0"]), u=u, o=o, main=data["main"], cont=data["cont"],
                      orbit=orbit, otime=otime, ou=ou, q=q, k=kk, g=dict(ro=g["ro"], vo=g["vo"]), ids=nb, centre=centre, scaled=nb, set=shown, P=P, step=step)
        c = None

        def seen(c):
            more = {"mxv": [], "mxve": ["eps"], "mxvpqael": ["gyrpot", "gyrq", "gyracc", "eps", "gyrlev"]}[give] if c.ntot else []
            return dict(obs=C.state(c), nsnap=float(c.nsnap), P=C.P_of(c), more=[F(getattr(c, w)) for w in more],
                        set=settings_seen(c, shown))
        c = t.call("load", lambda: ct.load_cluster(ctype, units=u, origin=o, **first, **okw), seen)
        for step_ in h["h"]:
            if t.failed:
                break
            if step_ == "convert":
                if c.units_init is None:
                    break
                if c.units != "radec":
                    if nb:
                        t.call("convert", lambda: (c.to_pckms(), c.to_centre()))
                    else:
                        t.call("convert", lambda: (c.to_units(str(rng.choice(["pckms", "kpckms", "galpy"]))), c.to_origin(str(rng.choice(["cluster", "centre", "galaxy"])))))
            else:
                c = t.call("advance", lambda: ct.advance_cluster(c, **again), seen)
        if ofile:
            ofile.close()
    return run


KEEP = dict(delimiter=None, nzfill=5, snapbase="", snapend=".dat", snapdir="", projected=False, centre_method=None, skiprows=0)


def settings_of(kw, u, o, give, head):
    r = {q: str(kw.get(q, w)) for q, w in KEEP.items()}
    r["skiprows"] = str(head)
    r.update(units=u, origin=o, give=give)
    return r


def settings_seen(c, want):
    r = {q: str(getattr(c, q)) for q in KEEP}
    r.update(units=str(c.units_init), origin=str(c.origin_init), give=c.give)
    return r


def custom(ctype=None, units=None, origin=None, ofile=None, orbit=None, advance=False, **kw):
    """a user's own reader"""
    n = int(kw.get("nsnap", 0))
    c = ct.StarCluster(0.0, units=units, origin=origin, ctype=ctype, **kw)
    p = os.path.join(kw.get("wdir", ""), kw.get("snapdir", ""), kw.get("snapbase", "") + str(n).zfill(int(kw.get("nzfill", 5))) + kw.get("snapend", ".dat"))
    if os.path.isfile(p):
        d = np.loadtxt(p, ndmin=2)
        c.add_stars(*d[:, 1:7].T, d[:, 0])
        if ofile is not None:
            from clustertools.io.orbit import _get_cluster_orbit
            _get_cluster_orbit(c, ofile, advance=advance, **kw)
    return c


def fits(kind, L):
    if kind in ("gyrfalcon", "new_gyrfalcon"):
        return not L["hascont"] and not L["gap"] and L["n0"] == 0
    if kind == "nbody6":
        return not L["gap"] and L["n0"] == 0
    if kind in ("custom", "nbody6pp"):
        return True
    return True


def make(prop, tier, seed, work):
    rng = np.random.default_rng([seed, 21])
    hs, st = runs(work, 6)
    out = []
    n = 360 if tier == "quick" else 6000
    picks = {k: [x for x in hs if fits(k, x["L"])] for k in set(KINDS)}
    for i in range(n):
        kind = KINDS[i % len(KINDS)]
        h = picks[kind][rng.integers(len(picks[kind]))]
        d = os.path.join(work, "series")
        os.makedirs(d)
        out.append(K.record("%s:%d" % (kind, i), scenario(rng, h, d, kind)))
        shutil.rmtree(d, ignore_errors=True)
    return out, dict(states=st[1], transitions=st[0], histories_from_spec=n)
