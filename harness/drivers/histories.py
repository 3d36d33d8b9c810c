"""C01-C05: call histories generated by TLC from Histories.tla, replayed into the real code, recorded."""
import json, re
import numpy as np
import clustertools as ct
import common as K
import clusters as C
from clustertools.cluster import operations as ops

ALPH = {"C01": "units", "C02": "origin", "C03": "sky", "C04": "derived", "C05": "save"}


def tlc_histories(alphabet, depth, work, num=None, seed=1):
    """num None: every history of that depth; else num random ones"""
    cfg = "SPECIFICATION Spec\nINVARIANTS TypeOK SkyIsRadec GalaxyIsCartesian\n"
    extra = [] if num is None else ["-simulate", "num=%d" % num, "-depth", str(depth + 3), "-seed", str(seed)]
    rc, out = K.tlc("Histories", cfg, work, env=dict(ALPHABET=alphabet, DEPTH=str(depth), EMIT="yes", WEIGHT="12" if num is not None else "1"),
                    extra=extra, workers="1" if num is not None else "8")
    hs = []
    for m in re.finditer(r'^"HIST (.*)"$', out, re.M):
        hs.append(json.loads(m.group(1).replace('\\"', '"').replace('\\\\', '\\')))
    if not hs:
        raise RuntimeError("no histories from TLC: rc %d\n%s" % (rc, out[-2000:]))
    return hs, K.stats(out)


def design_check(alphabet, work, depth=6):
    """exhaustive check of the control design; returns (states, transitions)"""
    cfg = ("SPECIFICATION Spec\nINVARIANTS TypeOK SkyIsRadec GalaxyIsCartesian ReturnsExactly\n"
           "PROPERTIES GetsUnits GetsOrigin\nVIEW << u, o, sv >>\n").replace("VIEW << u, o, sv >>", "VIEW TheView")
    rc, out = K.tlc("Histories", cfg, work, env=dict(ALPHABET=alphabet, DEPTH=str(depth), EMIT="no"))
    if "No error has been found" not in out:
        raise RuntimeError("the control design is wrong:\n" + out[-3000:])
    gen, dist = K.stats(out)
    return dist, gen


def light(c, rng):
    """binaries and luminosities, which derived radii follow too"""
    if rng.integers(3) == 0 and c.units != "radec":
        w = np.array([c.x, c.y, c.z, c.vx, c.vy, c.vz]).mean(axis=1)[:, None] + np.array([c.x, c.y, c.z, c.vx, c.vy, c.vz]).std(axis=1)[:, None] * rng.normal(0, 1, (6, 2))
        c.add_stars(*w, np.full(2, c.m.mean()), np.array([901, 902]), nb=1, sortstars=True)
    if rng.integers(3) == 0:
        n = len(c.x)
        c.add_sse(rng.integers(0, 16, n).astype(float), rng.normal(0, 1, n), rng.normal(0, 1, n))
        c.analyze(sortstars=True)


def grow(t, c, e, rng, obs):
    W = np.array([c.x, c.y, c.z, c.vx, c.vy, c.vz])
    n = e["n"]
    w = W.mean(axis=1)[:, None] + (W.std(axis=1)[:, None] + 1e-3 * abs(W.mean(axis=1)[:, None])) * rng.normal(0, 1.5, (6, n))
    m = c.m.mean() * rng.uniform(0.2, 3, n)
    ids = [int(np.max(c.id)) + 1 + i for i in range(n)]
    t.call("add", lambda: c.add_stars(*w, m, np.array(ids), sortstars=e["so"], analyze=e["an"]), lambda _: dict(obs=obs(c)),
           new=dict(x=[[float(q) for q in w[:, i]] for i in range(n)], m=[float(q) for q in m], id=ids), so=e["so"], an=e["an"])


def start(rng, u, o, n=6, prop=""):
    kw = dict(C.SETS[rng.integers(len(C.SETS))])
    c = sky_cluster(rng, n, **kw) if u == "radec" else C.make(rng, u, o, n=n, **kw)
    if rng.integers(3) == 0:
        c.centre_method = str(rng.choice(["orthographic", "VandeVen"]))
    if prop == "C04":
        light(c, rng)
    if rng.integers(5) == 0:    # never sorted so far
        c.rorder = c.rproorder = c.rorder_origin = None
    return c


def sky_cluster(rng, n, ro=None, vo=None, zo=None, solar=None, cen=True):
    """a cluster given by sky coordinates, as an observer would load it"""
    kws = {} if ro is None else dict(ro=ro, vo=vo, zo=zo, solarmotion=solar)
    c = ct.StarCluster(C.rnd(rng, 1, 12), units="radec", origin="sky", **kws)
    g = [C.rnd(rng, 5, 355), C.rnd(rng, -75, 75), C.rnd(rng, 2, 30), C.rnd(rng, -6, 6), C.rnd(rng, -6, 6), C.rnd(rng, -200, 200)]
    d = np.array([0.05, 0.05, 0.05, 0.2, 0.2, 5.0])
    x = np.array(g) + rng.normal(0, 1, (n, 6)) * d
    c.add_stars(*x.T, rng.uniform(0.1, 5, n), [int(i) for i in rng.permutation(9 * n)[:n] + 1], sortstars=True)
    c.add_orbit(*[float(q) for q in g])
    q = np.array(g) + rng.normal(0, 1, 6) * d * 0.5 * (1 if cen else 0)
    c.xc, c.yc, c.zc, c.vxc, c.vyc, c.vzc = [float(v) for v in q]
    c.ra_c, c.dec_c, c.dist_c, c.pmra_c, c.pmdec_c, c.vlos_c = [float(v) for v in q]
    c.analyze(sortstars=True)
    return c


FN = dict(pckms="to_pckms", kpckms="to_kpckms", pcmyr="to_pcmyr", kpcgyr="to_kpcgyr", galpy="to_galpy", nbody="to_nbody",
          WDunits="to_WDunits", radec="to_radec", amuse="to_amuse",
          cluster="to_cluster", centre="to_centre", galaxy="to_galaxy", sky="to_sky")


def do_units(c, e):
    u, an = e["u"], e["an"]
    if e["via"] == "to_units":
        c.to_units(u)
    elif e["via"] == "function":
        getattr(ops, FN[u])(c, analyze=an)
    else:
        getattr(c, FN[u])(analyze=an)


def do_origin(c, e):
    o, so = e["o"], e["so"]
    kw = dict(sortstars=so)
    if e["cm"] != "None":
        kw["centre_method"] = e["cm"]
    if e["via"] == "to_origin":
        c.to_origin(o, **kw)
    elif e["via"] == "function":
        getattr(ops, FN[o])(c, **kw)
    else:
        getattr(c, FN[o])(**kw)


def so_of(e):
    # to_units('radec') asks for no re-sort
    return not (e["op"] == "units" and e["via"] == "to_units" and e["u"] == "radec")


def replay(c, h, obs, rng, make_read=None):
    def scenario(t):
        t.init = C.init_of(c)
        t.init["sorted"] = c.rorder is not None
        t.add(op="start", obs=obs(c))
        for e in h:
            e = dict(e)
            if e["op"] == "units":
                e["so"] = so_of(e)
                t.call(fn=lambda: do_units(c, e), observe=lambda _: dict(obs=obs(c)), **{k: v for k, v in e.items()})
            elif e["op"] == "origin":
                # ways of projecting sky offsets, where the call takes one
                e["cm"] = str(rng.choice(["None", "None", "orthographic", "VandeVen"])) if e["o"] in ("cluster", "centre") else "None"
                t.call(fn=lambda: do_origin(c, e), observe=lambda _: dict(obs=obs(c)), **{k: v for k, v in e.items()})
            elif e["op"] == "add":
                grow(t, c, e, rng, obs)
            elif e["op"] == "save":
                t.call("save", lambda: c.save_cluster(), lambda _: dict(obs=obs(c)))
            elif e["op"] == "return":
                t.call("return", lambda: c.return_cluster(), lambda _: dict(obs=obs(c)))
            elif e["op"] == "analyze":
                t.call("analyze", lambda: c.analyze(sortstars=e["so"]), lambda _: dict(obs=obs(c)), so=e["so"])
            elif e["op"] == "read":
                t.ev.append(dict(op="read", fn_=e["fn"], exc=""))
                t.ev.pop()
                e2 = dict(op="read", what=e["fn"], exc="")
                try:
                    READS[e["fn"]](c, rng)
                    e2["obs"] = obs(c)
                except Exception as x:
                    e2["exc"] = "%s: %s" % (type(x).__name__, str(x)[:200])
                t.ev.append(e2)
            if t.failed:
                break
    return scenario


def directed_saves(rng, h1, quick):
    """save; one TLC-generated step; return -- for every single step the specification has"""
    moves = [x for x in h1 if x["h"][0]["op"] in ("units", "origin")]
    reads = [x for x in h1 if x["h"][0]["op"] == "read"]
    out = []
    S, R = dict(op="save"), dict(op="return")
    k = 260 if quick else 4000
    for i in rng.permutation(len(reads))[:k]:
        x = reads[i]
        same = [m for m in moves if (m["u"], m["o"]) == (x["u"], x["o"])]
        m = same[rng.integers(len(same))]["h"]
        # the analysis runs in whatever frame the conversion leads to, so it must be one that is defined there
        ok = x["h"][0]["fn"] != "initialize_orbits"
        out.append(dict(u=x["u"], o=x["o"], h=[S] + m + (x["h"] if ok else []) + [R] if rng.integers(2) else [S] + x["h"] + m + [R]))
    for i in rng.permutation(len(moves))[:120 if quick else 4000]:
        x = moves[i]
        out.append(dict(u=x["u"], o=x["o"], h=[S] + x["h"] + [R]))
    return out


def make(prop, tier, seed, work):
    import reads
    global READS
    READS = reads.READS
    rng = np.random.default_rng([seed, int(prop[1:])])
    obs = C.full if prop in ("C04", "C05") else C.state
    quick = tier == "quick"
    alph = ALPH[prop]
    st, tr = design_check(alph, work)
    h1, s1 = tlc_histories(alph, 1, work)
    nl, dl = (80, 10) if quick else (1500, 16)
    hl, s2 = tlc_histories(alph, dl, work, num=nl, seed=seed)
    if prop == "C05":
        dl_ = directed_saves(rng, h1, quick)
    else:
        dl_ = []
    if quick and len(h1) > 700:
        h1 = [h1[i] for i in rng.permutation(len(h1))[:700]]
    traces = []
    for k, hist in enumerate([("one", x) for x in h1] + [("saved", x) for x in dl_] + [("long", x) for x in hl]):
        kind, x = hist
        c = start(rng, x["u"], x["o"], n=int(rng.integers(14, 22)) if prop == "C05" else int(rng.integers(2, 5)) if kind == "one" else int(rng.integers(1, 12)), prop=prop)
        traces.append(K.record("%s:%d:%s/%s" % (kind, k, x["u"], x["o"]), replay(c, x["h"], obs, rng)))
    if not quick:
        h2, s3 = tlc_histories(alph, 2, work)
        for k in rng.permutation(len(h2))[:6000]:
            x = h2[k]
            c = start(rng, x["u"], x["o"], n=3, prop=prop)
            traces.append(K.record("two:%d:%s/%s" % (k, x["u"], x["o"]), replay(c, x["h"], obs, rng)))
    return traces, dict(states=st, transitions=tr, histories_from_spec=len(traces))
