"""C32: questions asked with plot=True, and what they draw"""
import copy, json, os, re
import numpy as np
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
import clustertools as ct
import common as K
import clusters as C
from twins import held, quantity, COLS
from galorbits import pot_of
from galpy.potential import MWPotential2014, LogarithmicHaloPotential


def histories(work, depth):
    cfg = "SPECIFICATION Spec\nINVARIANT OneCurrent\nPROPERTIES Kept Asked\n"
    rc, out = K.tlc("Figures", cfg, work, env=dict(DEPTH=str(depth)))
    hs = [json.loads(m.group(1).replace('\\"', '"').replace('\\\\', '\\')) for m in re.finditer(r'^"HIST (.*)"$', out, re.M)]
    if not hs or "No error has been found" not in out:
        raise RuntimeError("no histories from TLC: rc %d\n%s" % (rc, out[-2000:]))
    return sorted(hs, key=json.dumps), K.stats(out)


def arrays(r):
    """an answer as a list of arrays (of AMUSE quantities: in pc, km/s, MSun, Myr)"""
    if isinstance(r, ct.StarCluster) or r is None:
        return []
    if isinstance(r, tuple):
        return [quantity(x)["v"] for x in r]
    return [quantity(r)["v"]]


def word(label):
    for w, u in (("kpc/Gyr", "kpcgyr"), ("pc/Myr", "pcmyr"), ("NBODY", "NBODY"), ("GALPY", "GALPY"), ("kpc", "kpc"), ("pc", "pc"), ("km/s", "pc"), ("Msun", "pc")):
        if w in label:
            return u
    return ""


def seen():
    """the figures there are: number of drawings of each, and which is current"""
    ns = plt.get_fignums()
    pages = [sum(len(ax.lines) + len(ax.collections) for ax in plt.figure(n).axes) for n in ns] if 0 else \
            [sum(len(ax.lines) + len(ax.collections) for ax in f.axes) for f in (m.canvas.figure for m in map(matplotlib._pylab_helpers.Gcf.figs.get, ns))]
    return pages, (ns.index(plt.gcf().number) + 1) if ns else 0


def drawings():
    out = []
    if not plt.get_fignums():
        return out
    for ax in plt.gcf().axes:
        w = dict(xw=word(ax.get_xlabel()), yw=word(ax.get_ylabel()))
        for ln in ax.lines:
            out.append((ln, dict(x=plain(ln.get_xdata()), y=plain(ln.get_ydata()), **w)))
        for co in ax.collections:
            xy = np.asarray(co.get_offsets(), float).reshape(-1, 2)
            out.append((co, dict(x=K.F(xy[:, 0]), y=K.F(xy[:, 1]), **w)))
    return out


def plain(x):
    return quantity(x)["v"]


def questions(rng, c):
    """(name, arguments, by method)"""
    r, m = np.sort(c.r), np.sort(c.m)
    n = len(r)
    b = lambda: bool(rng.integers(2))
    pot = [MWPotential2014, LogarithmicHaloPotential(normalize=1., q=1.0)][rng.integers(2)]
    soft = pot_of(1.3)
    prof = lambda **kw: dict(dict(nrad=int(rng.integers(3, 6)), normalize=b(), projected=b()), **kw)
    along = lambda: prof(coord=[None, "v", "vr", "vphi", "vtheta", "vx", "vy", "vz"][rng.integers(8)])
    tf = 15.0 * factor_time(c)
    path = lambda: dict(pot=soft, tfinal=tf, nt=2 * int(rng.integers(3, 10)) + 1, skypath=b())
    match = lambda: dict(path(), **(dict(skypath=False) if c.units == "amuse" else {}))
    plotting = lambda: dict(xlim=(-30.0 * s, 20.0 * s), ylim=(-25.0 * s, 40.0 * s)) if b() else {}
    s = 1.0
    if c.units == "radec":
        menu = [("starplot", lambda: dict(coords=str(rng.choice(["xy", "xz", "yz", "xyz"])), **plotting())), ("skyplot", lambda: dict(coords=str(rng.choice(["radec", "pm"])), **plotting()))]
        menu = menu + [(n, lambda: dict(path(), skypath=True)) for n in ("orbital_path", "tail_path")]
    else:
        menu = [("starplot", lambda: dict(coords=str(rng.choice(["xy", "xz", "yz", "xyz"])), do_centre=b(), **plotting())), ("skyplot", lambda: dict(coords=str(rng.choice(["radec", "pm"])), do_centre=b(), **plotting())),
                ("rho_prof", prof), ("m_prof", lambda: prof(cumulative=b())), ("v_prof", along), ("v2_prof", along), ("sigv_prof", along), ("beta_prof", prof),
                ("alpha_prof", lambda: prof(nrad=3, nmass=4)), ("eta_prof", lambda: prof(nrad=3, nmass=4)), ("meq_prof", lambda: prof(nrad=3, nmass=4)), ("vcirc_prof", lambda: prof(nrad=4)),
                ("mass_function", lambda: dict(nmass=int(rng.integers(4, 7)))), ("eta_function", lambda: dict(nmass=int(rng.integers(4, 7)))), ("meq_function", lambda: dict(nmass=int(rng.integers(4, 7)))),
                ("rlimiting", lambda: dict(pot=pot, projected=b(), nrad=int(rng.integers(4, 12)))), ("rtidal", lambda: dict(pot=pot, from_centre=b())), ("rcore", lambda: dict(method="isothermal", projected=b(), nrad=10) if b() else dict(projected=b())),
                ("virial_radius", lambda: dict(method="critical_density", projected=False)),
                ("orbital_path", path), ("tail_path", path), ("orbital_path_match", match), ("tail_path_match", match)]
    only = os.environ.get("FIGURES")
    if only:
        menu = [q for q in menu if q[0] in only.split(",")] or menu
    name, f = menu[rng.integers(len(menu))]
    kw = f()
    return name, kw, b() and hasattr(c, name)


def factor_time(c):
    if c.units == "nbody":
        return 1.0 / c.tbar
    return dict(kpckms=1e-3, kpcgyr=1e-3, WDunits=1e-3, radec=1e-3, galpy=1.0 / 35.0).get(c.units, 1.0)


OPTS = dict(normalize=False, projected=False, skypath=False, coords="", specific=True, argument=False)


def scenario(rng, h, tmp):
    def run(t):
        plt.close("all")
        P = C.SETS[rng.integers(3)]
        units = str(rng.choice(["pckms", "pckms", "kpckms", "pcmyr", "kpcgyr", "galpy", "nbody", "WDunits", "amuse", "radec"]))
        c = C.make(rng, "pckms" if units == "pckms" or units == "radec" else "kpckms", ["cluster", "centre", "galaxy"][rng.integers(3)], n=int(rng.integers(24, 50)), ro=P.get("ro"), vo=P.get("vo"), zo=P.get("zo"), solar=P.get("solar"))
        if units != c.units:
            c.to_units(units)
        t.init = dict(u=units)
        for k, s in enumerate(h):
            if s["op"] == "emitted":
                break
            if s["op"] == "page":
                t.call("page", lambda: plt.figure(), lambda r: dict(zip(("pages", "cur"), seen())))
            elif s["op"] == "turn":
                t.call("turn", lambda: plt.figure(plt.get_fignums()[s["a"] - 1]), lambda r: dict(zip(("pages", "cur"), seen())), to=s["a"])
            elif s["op"] == "change":
                def change():
                    if rng.integers(2) and c.units != "radec":
                        c.to_origin(["cluster", "centre", "galaxy"][rng.integers(3)])
                    else:
                        c.analyze(sortstars=True)
                t.call("change", change, lambda r: dict(zip(("pages", "cur"), seen())))
            else:
                draw(rng, t, c, bool(s["a"]), s["f"], os.path.join(tmp, "page%d.png" % k))
            if t.failed:
                return
    return run


IN_SKY = [k for k in COLS if k not in ("r", "v", "rpro", "vpro") and not (k[0] == "r" and k[1:3] in ("m", "mp", "10", "ma", "me"))]


def state(c):
    return held(c) if c.units != "radec" else {k: v for k, v in held(c).items() if k in IN_SKY}


def half_radius(c, name, kw, ans):
    """what the radii of a normalized profile were divided by"""
    if name != "vcirc_prof" or not kw["normalize"]:
        return 1.0
    return quantity(ct.vcirc_prof(copy.deepcopy(c), **dict(kw, normalize=False))[0])["v"][0] / ans[0][0]


def draw(rng, t, c, over, file, path):
    for attempt in range(6):
        name, kw, method = questions(rng, c)
        ref, other = copy.deepcopy(c), copy.deepcopy(c)
        seed = int(rng.integers(1 << 30))

        def ask(x, by_method, **more):
            np.random.seed(seed)
            f = getattr(x, name) if by_method else lambda **k: getattr(ct, name)(x, **k)
            return f(**kw, **more)
        try:                            # what cannot be asked without a plot is for other checks
            if name == "starplot":
                low = copy.deepcopy(c)
                if low.units == "amuse":
                    low.to_pckms()
                ans = [K.F(low.x), K.F(low.y), K.F(low.z)]
                out0 = []
            elif name == "skyplot":
                low = copy.deepcopy(c)
                low.to_radec(sortstars=False)
                ans = [K.F(low.ra), K.F(low.dec), K.F(low.pmra), K.F(low.pmdec)]
                out0 = []
            else:
                ans = arrays(ask(ref, False))
                out0 = arrays(ask(other, method))
            break
        except Exception:
            if os.environ.get("VERIF_DEBUG"):
                import traceback; traceback.print_exc()
    else:
        return
    if os.path.exists(path):
        os.remove(path)
    more = dict(overplot=over) if over or rng.integers(2) else {}
    if file:
        more["filename"] = path
    if name not in ("starplot", "skyplot"):
        more["plot"] = True
    old = {id(d) for d, _ in drawings()}
    keep = [d for d, _ in drawings()]
    u = "pckms" if c.units == "amuse" else str(c.units)
    gal = [quantity(getattr(c, a))["v"][0] for a in ("xgc", "ygc", "zgc", "xc", "yc", "zc")]
    stars, about, centres = [], [], []
    if name == "rtidal":
        stars = [plain(c.x), plain(c.y)]
        d = 1.0 if kw["from_centre"] else 0.0
        about = [[gal[k] + d * gal[3 + k] for k in (0, 1)]] if c.origin == "galaxy" else [[d * gal[3 + k] for k in (0, 1)]] if c.origin == "cluster" else [[-gal[3], -gal[4]], [0.0, 0.0]]
    o = dict(galaxy=1.0, cluster=0.0, centre=0.0).get(str(c.origin), 0.0)
    q = {k: kw.get(k, v) for k, v in OPTS.items()}
    q["log"] = not over
    if name == "starplot" and kw.get("do_centre") and not over:
        a, b = dict(xy=(0, 1), xz=(0, 2), yz=(1, 2), xyz=(0, 1))[kw["coords"]]
        e = 0.0 if c.origin == "centre" else 1.0
        f = -1.0 if c.origin == "centre" else 0.0
        centres = [[o * gal[a] + e * gal[3 + a], o * gal[b] + e * gal[3 + b]], [o * gal[a] + f * gal[3 + a], o * gal[b] + f * gal[3 + b]]]
        if c.origin == "centre" and kw["coords"] == "xyz":
            centres = []
    if name == "skyplot" and kw["coords"] == "radec" and kw.get("do_centre") and not over:
        centres = [[float(low.ra_gc), float(low.dec_gc)]]
    s0, f0 = state(other), [str(other.units), str(other.origin)]
    if name in ("starplot", "skyplot"):
        s0, f0 = state(c), [str(c.units), str(c.origin)]

    def see(out):
        pages, cur = seen()
        new = [dict(d, xw="", yw="") if over else d for a, d in drawings() if id(a) not in old]
        ax = plt.gca()
        lim = []
        if not over:
            for k, g in (("xlim", ax.get_xlim), ("ylim", ax.get_ylim)):
                if k in kw:
                    lim += [[float(a), float(b)] for a, b in zip(kw[k], g())]
        ok = os.path.exists(path) and open(path, "rb").read(4) == b"\x89PNG"
        return dict(pages=pages, cur=cur, plotted=arrays(out) if name not in ("starplot", "skyplot") else [], s1=state(c), f1=[str(c.units), str(c.origin)], curves=new, saved=ok,
                    limits=lim, axes=[ax.get_xscale(), ax.get_yscale()])
    t.call(name, lambda: ask(c, method, **more), see, q=q, over=over, file="filename" in more, u=u, P=C.P_of(other), ans=ans, plain=out0, s0=s0, f0=f0, stars=stars, about=about,
           centres=centres, half=half_radius(c, name, kw, ans), tol="1e-4" if "meq" in name or "eta" in name else "1e-7")
    del keep


def make(prop, tier, seed, work):
    rng = np.random.default_rng([seed, 32])
    hs, (gen, dist) = histories(work, 4 if tier == "quick" else 5)
    k = 130 if tier == "quick" else 2000
    tmp = os.path.join(work, "pages")
    os.makedirs(tmp, exist_ok=True)
    order = [int(i) for i in rng.permutation(len(hs))[:k]]
    out = [K.record("figures:%d" % i, scenario(rng, hs[i], tmp)) for i in order]
    plt.close("all")
    return out, dict(histories=len(out), histories_emitted=len(hs), model_states=dist, exhaustive=False)
