------------------------------- MODULE Scales -------------------------------
(* Physical quantities in a unit system: a quantity of any dimension is the *)
(* product of powers of the base factors of Units!Fac.                      *)
EXTENDS Units
\* exponents of mass, length, velocity, time
Dimension(k) ==
  CASE k = "length"   -> << 0, 1, 0, 0 >>
    [] k = "velocity" -> << 0, 0, 1, 0 >>
    [] k = "square"   -> << 0, 0, 2, 0 >>
    [] k = "time"     -> << 0, 0, 0, 1 >>
    [] k = "mass"     -> << 1, 0, 0, 0 >>
    [] k = "density"  -> << 1, -3, 0, 0 >>
    [] k = "surface"  -> << 1, -2, 0, 0 >>
FacOf(k, u, P) == LET f == Fac(u, P)
                      d == Dimension(k)
                  IN RPow(f.m, d[1]) \otimes (RPow(f.l, d[2]) \otimes (RPow(f.v, d[3]) \otimes RPow(f.t, d[4])))
\* a quantity x of kind k, known in units a, expressed in units b
InUnits(k, x, a, b, P) == (x \otimes FacOf(k, b, P)) \oslash FacOf(k, a, P)
\* an angle seen at the distance of the cluster
Angle(x, d) == RDeg \otimes RAtan2(x, d)
=============================================================================
