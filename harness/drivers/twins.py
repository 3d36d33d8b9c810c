"""C31: the same cluster in pc and km/s and in any other unit system, through the same calls"""
import copy, json, re
import numpy as np
import clustertools as ct
import common as K
import clusters as C
from clusters import U
from galorbits import pot_of
from galpy.util import conversion
from galpy.potential import MWPotential2014, LogarithmicHaloPotential

LAB = {} if U is None else dict(length=U.parsec, velocity=U.kms, mass=U.MSun, time=U.Myr, square=U.kms ** 2, energy=U.MSun * U.kms ** 2,
                                density=U.MSun / U.parsec ** 3, surface=U.MSun / U.parsec ** 2)
COLS = ["x", "y", "z", "vx", "vy", "vz", "m", "xc", "yc", "zc", "vxc", "vyc", "vzc", "xgc", "ygc", "zgc", "vxgc", "vygc", "vzgc", "tphys", "r", "v", "rpro",
        "vpro", "rm", "rmpro", "r10", "r10pro", "mtot", "mmean", "rmean", "rmax", "rmeanpro", "rmaxpro", "id"]


def histories(work, depth):
    cfg = "SPECIFICATION Spec\nINVARIANTS SameBody SameAnswers\n"
    rc, out = K.tlc("Twins", cfg, work, env=dict(DEPTH=str(depth)))
    hs = [json.loads(m.group(1).replace('\\"', '"').replace('\\\\', '\\')) for m in re.finditer(r'^"HIST (.*)"$', out, re.M)]
    if not hs or "No error has been found" not in out:
        raise RuntimeError("no histories from TLC: rc %d\n%s" % (rc, out[-2000:]))
    return sorted(hs, key=json.dumps), K.stats(out)


def quantity(x):
    """an array or a number, with what it is a quantity of"""
    if hasattr(x, "value_in"):
        for k, un in LAB.items():
            try:
                return dict(u=k, v=K.F(x.value_in(un)))
            except Exception:
                pass
        return dict(u=str(x.unit), v=[])
    if isinstance(x, list) or (isinstance(x, np.ndarray) and x.dtype == object):
        q = [quantity(y) for y in x]
        u = sorted(set(y["u"] for y in q))
        return dict(u=u[0] if len(u) == 1 else "mixed:" + "/".join(u) if u else "", v=[y for z in q for y in z["v"]])
    if x is None:
        return dict(u="", v=[])
    return dict(u="", v=K.F(x))


def answer(r):
    if isinstance(r, ct.StarCluster) or r is None:
        return []
    if isinstance(r, tuple):
        return [quantity(x) for x in r]
    return [quantity(r)]


def held(c):
    return {n: quantity(getattr(c, n, None)) for n in COLS}


def factors(c, u):
    if u == "galpy":
        return dict(L=1e-3 / c._ro, V=1 / c._vo, M=1 / conversion.mass_in_msol(ro=c._ro, vo=c._vo), T=1e-3 / conversion.time_in_Gyr(ro=c._ro, vo=c._vo))
    if u == "nbody":
        return dict(L=1 / c.rbar, V=1 / c.vbar, M=1 / c.zmbar, T=1 / c.tbar)
    if u == "WDunits":
        return dict(L=1e-3, V=C.KMS, M=1 / 222288.4543021174, T=1e-3)
    l, v, m, t = C.raw_factors(c, u if u != "amuse" else "pckms")
    return dict(L=l, V=v, M=m, T=t)


class Q(float):
    """an argument in pc, km/s, MSun or Myr"""
    def __new__(cls, x, k):
        q = float.__new__(cls, x)
        q.k = k
        return q


def given(v, c):
    if isinstance(v, Q):
        if c.units == "amuse":
            return float(v) | dict(L=U.parsec, V=U.kms, M=U.MSun, T=U.Myr)[v.k]
        return float(v) * factors(c, c.units)[v.k]
    if isinstance(v, list):
        return [given(x, c) for x in v]
    return v


LIM = "LIM"


def start(rng, b):
    """where the search for the densest place begins"""
    kw = dict(rmin=Q(1.0, "L"), nmax=30)
    if b():
        kw.update({k: Q(float(rng.normal(0, 2)), "L") for k in ("xstart", "ystart", "zstart")})
    if b():
        kw.update({k: Q(float(rng.normal(0, 2)), "V") for k in ("vxstart", "vystart", "vzstart")})
    if b():
        kw["rmax"] = Q(float(rng.uniform(8, 20)), "L")
    if b():
        kw["nsphere"] = int(rng.integers(4, 12))
    return kw


def asking(rng, c, u):
    """a question: (name, arguments)"""
    r, v, m = np.sort(c.r), np.sort(c.v), np.sort(c.m)
    n = len(r)
    b = lambda: bool(rng.integers(2))

    def between(a, i):
        return float((a[i] + a[i + 1]) / 2)

    def limits(always=False):
        kw = {}
        if (always or b()) and n > 12:
            w = rng.integers(4)
            if w == 0:
                kw["rmax"] = Q(between(r, n * 3 // 4), "L")
            elif w == 1:
                kw["rmin"] = Q(between(r, n // 5), "L")
            elif w == 2:
                kw["mmin"], kw["mmax"] = Q(between(m, n // 6), "M"), Q(between(m, n - 3), "M")
            else:
                kw["vmax"] = Q(between(v, n * 3 // 4), "V")
        return kw
    pot = [MWPotential2014, LogarithmicHaloPotential(normalize=1., q=1.0)][rng.integers(2)]
    soft = pot_of(1.3)        # orbits of stars about the centre of a galaxy are not sensitive in this one
    T = Q(float(rng.uniform(5, 30)), "T")
    path = lambda: dict(pot=pot, tfinal=T, nt=2 * int(rng.integers(3, 10)) + 1)
    pro = lambda: dict(projected=True) if b() else {}
    prof = lambda **kw: dict(dict(nrad=int(rng.integers(3, 6)), normalize=b(), projected=b(), **limits()), **kw)
    slope = lambda: dict(nmass=int(rng.integers(3, 6)), **limits())
    menu = [
        ("relaxation_time", lambda: dict(rad=Q(between(r, n // 2), "L")) if b() else {}), ("half_mass_relaxation_time", dict), ("core_relaxation_time", dict),
        ("closest_star", lambda: dict(argument=b(), projected=b())), ("rlagrange", lambda: dict(nlagrange=int(rng.integers(3, 11)), projected=b())),
        ("virial_radius", lambda: dict(method="critical_density", projected=b(), rhocrit=None) if 0 else dict(projected=b(), full=b())),
        ("mass_function", slope), ("eta_function", slope), ("ckin", slope), ("meq_function", slope),
        ("rcore", lambda: dict(mfrac=0.2) if b() else {}), ("rtidal", lambda: dict(pot=pot, rtiterate=int(rng.integers(3)))),
        ("rlimiting", lambda: dict(pot=pot, projected=b(), nrad=int(rng.integers(4, 12)))), ("subset", lambda: limits(True)),
        ("initialize_orbits", dict), ("interpolate_orbit", lambda: dict(pot=soft, tfinal=T)), ("interpolate_orbits", lambda: dict(pot=soft, tfinal=T)),
        ("orbital_path", path), ("orbital_path_match", path), ("tail_path", path), ("tail_path_match", path), ("to_tail", dict), ("add_rotation", lambda: dict(qrot=float(rng.uniform(0, 1)))),
        ("rho_prof", prof), ("m_prof", lambda: prof(cumulative=b())), ("v_prof", lambda: prof(coord=str(rng.choice(["vr", "vtheta", "vphi"])) if b() else None)),
        ("v2_prof", prof), ("sigv_prof", prof), ("beta_prof", prof),
        ("alpha_prof", lambda: dict(nrad=3, nmass=4)), ("eta_prof", lambda: dict(nrad=3, nmass=4)), ("meq_prof", lambda: dict(nrad=3, nmass=4)), ("vcirc_prof", lambda: dict(nrad=None, **pro())),
        ("find_centre_of_mass", dict), ("find_centre_of_density", lambda: start(rng, b)),
        ("energies", lambda: dict(specific=b(), projected=b(), full=b(), softening=Q(float(rng.uniform(0, 1)), "L"), ids=c.id[:4] if b() else None))]
    if u in ("galpy", "nbody", "WDunits"):       # their own gravitational constant; the N-body scales are those given
        menu = [q for q in menu if q[0] not in ("energies", "vcirc_prof", "virial_radius")]
    name, f = menu[rng.integers(len(menu))]
    return name, f()


def changing(rng, c, u):
    b = lambda: bool(rng.integers(2))
    menu = [("find_centre", lambda: dict(density=False)), ("find_centre", lambda: start(rng, b)), ("find_centre", lambda: start(rng, b)), ("find_centre", lambda: dict(method="casertano")),
            ("add_rotation", lambda: dict(qrot=float(rng.uniform(0, 1)))),
            ("add_orbit", lambda: dict(args=[Q(float(rng.normal(0, 3000)), "L") for _ in range(3)] + [Q(float(rng.normal(0, 100)), "V") for _ in range(3)])),
            ("add_stars", lambda: dict(args=[[Q(x, "L") for x in rng.normal(0, 9, 2)] for _ in range(3)] + [[Q(x, "V") for x in rng.normal(0, 9, 2)] for _ in range(3)]
                                       + [[Q(x, "M") for x in rng.uniform(0.1, 9, 2)]]))]
    if u not in ("galpy", "nbody", "WDunits"):
        menu.append(("virialize", lambda: dict(specific=b())))
    name, f = menu[rng.integers(len(menu))]
    return name, f()


def array(v):
    if isinstance(v, list) and v and hasattr(v[0], "value_in"):
        w = [q.value_in(v[0].unit) for q in v]
        return np.array(w) | v[0].unit
    return np.array(v) if isinstance(v, list) else v


def scenario(rng, h):
    def run(t):
        P, n = C.SETS[rng.integers(3)], int(rng.integers(24, 50))
        plain = C.make(rng, "pckms", h[0]["a"], n=n, ro=P.get("ro"), vo=P.get("vo"), zo=P.get("zo"), solar=P.get("solar"))
        two = [plain, copy.deepcopy(plain)]
        t.init = dict(o=plain.origin)
        state = dict(u="pckms")

        def both(op, fn, q=None, tol="1e-6", keep=None):
            """the same call on both; when it cannot be answered in pc and km/s either, that is for other checks"""
            seed = int(rng.integers(1 << 30))
            np.random.seed(seed)
            try:
                r0 = fn(two[0])
            except Exception:
                return False

            def go():
                np.random.seed(seed)
                return fn(two[1])

            def see(r1):
                if keep:
                    two[0], two[1] = r0, r1
                side = lambda r, c: dict(a=answer(r) if not keep else [], s=held(c), u=str(c.units), o=str(c.origin))
                return dict(plain=side(r0, two[0]), twin=side(r1, two[1]), P=C.P_of(two[0]))
            d = dict(specific=True, argument=False, normalize=False, projected=False)
            d.update({k: v for k, v in (q or {}).items() if k in d})
            t.call(op, go, see, q=d, tol=tol, u=state["u"])
            return not t.failed
        for s in h[1:]:
            op, a = s["op"], s["a"]
            if op == "emitted":
                return
            if op == "units":
                state["u"] = a
                ok = both("units", lambda c: c.to_units(a) if c is two[1] else c.analyze())
            elif op == "move":
                ok = both("move", lambda c: c.to_origin(a))
            else:
                low, seen = two[0], state["u"]
                if op == "part":
                    kw = asking_part(rng, low)
                    ok = both("part", lambda c: ct.sub_cluster(c, **{k: given(v, c) for k, v in kw.items()}), kw, keep=True)
                else:
                    name, kw = (asking if op == "ask" else changing)(rng, low, seen)
                    by_function = name in ("interpolate_orbit", "interpolate_orbits", "add_rotation", "to_tail", "find_centre_of_mass", "find_centre_of_density") and op == "ask"

                    def fn(c):
                        kws = {k: array(given(v, c)) if k != "args" else None for k, v in kw.items()}
                        pos = [array(given(v, c)) for v in kws and kw.get("args", [])]
                        kws.pop("args", None)
                        if by_function or not hasattr(c, name):
                            r = getattr(ct, name)(c, *pos, **kws)
                        else:
                            r = getattr(c, name)(*pos, **kws)
                        if name == "initialize_orbits":
                            r = np.ravel([q for o in [r] for q in (o.x(), o.y(), o.z(), o.vx(), o.vy(), o.vz())])
                        if name == "add_stars":
                            c.analyze()
                        return r if op == "ask" else None
                    fits = name in ("mass_function", "eta_function", "ckin", "alpha_prof", "eta_prof", "interpolate_orbit", "interpolate_orbits", "orbital_path", "tail_path")
                    ok = both(name, fn, kw, "5e-3" if "meq" in name else "1e-4" if fits else "1e-6")
            if not ok:
                return
    return run


def asking_part(rng, c):
    r, m = np.sort(c.r), np.sort(c.m)
    n = len(r)
    w = rng.integers(3)
    if w == 0:
        return dict(rmax=Q(float((r[n * 4 // 5] + r[n * 4 // 5 + 1]) / 2), "L"))
    if w == 1:
        return dict(mmin=Q(float((m[n // 8] + m[n // 8 + 1]) / 2), "M"))
    return dict(indx=np.arange(n) % 7 != 3)


def make(prop, tier, seed, work):
    rng = np.random.default_rng([seed, 31])
    hs, (gen, dist) = histories(work, 3 if tier == "quick" else 4)
    k = 400 if tier == "quick" else 5000
    am = [i for i, h in enumerate(hs) if any(s["a"] == "amuse" for s in h)]
    rest = [i for i in range(len(hs)) if i not in set(am)]
    order = [int(i) for i in rng.permutation(am)[:k * 2 // 3]] + [int(i) for i in rng.permutation(rest)[:k // 3]]
    out = [K.record("twins:%d" % i, scenario(rng, hs[i])) for i in order]
    return out, dict(histories=len(out), histories_emitted=len(hs), model_states=dist, exhaustive=False)
