"""C28: every pair of unit systems, every kind of quantity, random scales"""
import numpy as np
import clustertools as ct
import common as K
import clusters as C
from clusters import U
from common import F
from clustertools.util import units as un

FN = dict(length="_convert_length", velocity="_convert_velocity", square="_convert_square_velocity", time="_convert_time",
          mass="_convert_mass", density="_convert_density", surface="_convert_density")
AM = {} if U is None else dict(length=U.parsec, velocity=U.kms, square=U.kms * U.kms, time=U.Myr, mass=U.MSun,
                               density=U.MSun / U.parsec ** 3, surface=U.MSun / U.parsec ** 2)


def pairs(kind):
    a = C.CART + (["amuse"] if U is not None else [])
    src, dst = list(a), list(a)
    if kind in ("density", "surface"):
        src = C.CART
    if kind == "length":
        dst = dst + ["radec"]
    if kind in ("time", "mass"):
        src, dst = src + ["radec"], dst + ["radec"]
    return [(p, q) for p in src for q in dst]


def run_case(kind, a, b, rng):
    def run(t):
        for _ in range(1):
            s = C.SETS[rng.integers(3)]
            c = C.make(rng, "kpckms", "galaxy", n=4, ro=s.get("ro"), vo=s.get("vo"), zo=s.get("zo"), solar=s.get("solar"))
            if rng.integers(3):
                c.rbar, c.zmbar, c.vbar, c.tbar = [float(10 ** rng.uniform(-1, 2)) for _ in range(4)]
            c.units = b             # only the label matters to the converters
            c.xgc, c.ygc, c.zgc = 100., 20., float(10 ** rng.uniform(-0.3, 1.5))      # as in the sky system
            x = 10 ** rng.uniform(-3, 3, int(rng.integers(1, 5)))
            arr = bool(rng.integers(2))
            if not arr:
                x = x[:1]
            if rng.integers(2) and kind not in ("mass", "density", "surface"):
                x = -x
            arg = np.array(x) if arr else float(x[0])
            if a == "amuse":
                arg = arg | AM[kind]
            kw = dict(projected=True) if kind == "surface" else {}
            f = getattr(un, FN[kind])

            def show(y):
                if b == "amuse":
                    y = y.value_in(AM[kind])
                return dict(y=F(y))
            q = {"kind": kind, "from": a, "to": b, "x": F(x), "P": C.P_of(c), "dist": float(c.zgc), "array": arr}
            t.call("convert", lambda: f(arg, a, c, **kw), show, q=q)
            if t.failed:
                return
    return run


def make(prop, tier, seed, work):
    rng = np.random.default_rng([seed, 28])
    reps = 4 if tier == "quick" else 60
    out = []
    for kind in FN:
        if not hasattr(un, FN[kind]):
            continue
        for a, b in pairs(kind):
            for k in range(reps):
                out.append(K.record("%s:%s:%s:%s:%d" % (kind, a, b, prop, k), run_case(kind, a, b, rng)))
    return out, {}
