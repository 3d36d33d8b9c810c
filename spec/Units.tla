------------------------------- MODULE Units -------------------------------
(* The unit systems of the library, stated independently of its code: a     *)
(* canonical quantity is in pc, km/s, Msun, Myr; Fac(u, P).x is the factor   *)
(* that turns it into units u.  P carries the per-cluster scales:            *)
(*   ro (kpc), vo (km/s): galpy scales;  zm, rb, vb, tb: N-body scales       *)
EXTENDS RealNum

KmsInPcMyr == "1.022712165045695"        \* 1 km/s = 1.0227 pc/Myr = 1.0227 kpc/Gyr
GalpyG == "0.00430091727003628"          \* pc (km/s)^2 / Msun, galpy's value
Grav0 == "0.004302"                       \* pc (km/s)^2 / Msun, the library's value
WDMass == "222288.4543021174"             \* Msun per WD mass unit

Cartesian == {"pckms", "kpckms", "pcmyr", "kpcgyr", "galpy", "nbody", "WDunits", "amuse"}
AllUnits == Cartesian \cup {"radec"}

GalpyMass(P) == (RSq(P.vo) \otimes P.ro \otimes 1000) \oslash GalpyG       \* Msun
GalpyTime(P) == (RDiv(P.ro, P.vo) \oslash KmsInPcMyr) \otimes 1000         \* Myr

Fac(u, P) ==
  CASE u \in {"pckms", "amuse"} -> [l |-> "1.0", v |-> "1.0", m |-> "1.0", t |-> "1.0"]
    [] u = "kpckms"  -> [l |-> "0.001", v |-> "1.0", m |-> "1.0", t |-> "0.001"]
    [] u = "pcmyr"   -> [l |-> "1.0", v |-> KmsInPcMyr, m |-> "1.0", t |-> "1.0"]
    [] u = "kpcgyr"  -> [l |-> "0.001", v |-> KmsInPcMyr, m |-> "1.0", t |-> "0.001"]
    [] u = "galpy"   -> [l |-> RDiv("0.001", P.ro), v |-> RDiv(1, P.vo), m |-> RDiv(1, GalpyMass(P)), t |-> RDiv(1, GalpyTime(P))]
    [] u = "nbody"   -> [l |-> RDiv(1, P.rb), v |-> RDiv(1, P.vb), m |-> RDiv(1, P.zm), t |-> RDiv(1, P.tb)]
    [] u = "WDunits" -> [l |-> "0.001", v |-> KmsInPcMyr, m |-> RDiv(1, WDMass), t |-> "0.001"]
    [] u = "radec"   -> [l |-> "0.001", v |-> "1.0", m |-> "1.0", t |-> "0.001"]
    [] OTHER         -> [l |-> "1.0", v |-> "1.0", m |-> "1.0", t |-> "1.0"]

\* the gravitational constant the library documents for each unit system
GravIn(u) ==
  CASE u \in {"pckms", "amuse"} -> Grav0
    [] u = "kpckms" -> Grav0 \otimes "0.001"
    [] u = "pcmyr" -> Grav0 \otimes RSq(KmsInPcMyr)
    [] u = "kpcgyr" -> Grav0 \otimes "0.001" \otimes RSq(KmsInPcMyr)
    [] OTHER -> "1.0"

(* -- sky: heliocentric ICRS observables of a galactocentric phase-space point (kpc, km/s).      *)
(* AEq = (ICRS <- Galactic) . (galactic <- tilted galactocentric); Tilt puts the Sun at height zo *)
PmK == "4.740470463533348"                \* km/s per (mas/yr kpc)
AEq == << << "-0.05487395613599863", "0.49411076266983167", "-0.867665490354331" >>,
          << "-0.8734371822278617", "-0.444828617791737", "-0.19807824084271808" >>,
          << "-0.4838350314310009", "0.746981964311944", "0.4559842183155382" >> >>
Tilt(P, w) == LET d == RSqrt(RSq(P.ro) \oplus RSq(P.zo))
                  c == P.ro \oslash d
                  s == P.zo \oslash d
              IN << RNeg((c \otimes w[1]) \oplus (s \otimes w[3])), w[2],
                    (c \otimes w[3]) \ominus (s \otimes w[1]) >>
MatVec(A, w) == [i \in 1..3 |-> RSum([j \in 1..3 |-> A[i][j] \otimes w[j]])]
Dot3(a, b) == RSum([j \in 1..3 |-> a[j] \otimes b[j]])
Sub3(a, b) == [j \in 1..3 |-> a[j] \ominus b[j]]
Add3(a, b) == [j \in 1..3 |-> a[j] \oplus b[j]]
Scale3(k, a) == [j \in 1..3 |-> k \otimes a[j]]
PosDeg(x) == IF RLt(x, 0) THEN x \oplus 360 ELSE x
\* <<ra, dec (deg), dist (kpc), pmra*cos(dec), pmdec (mas/yr), vlos (km/s)>>
SkyOf(P, p, v) ==
  LET sun  == << P.ro, "0.0", P.zo >>
      vsun == << P.sx, P.sy \oplus P.vo, P.sz >>
      X == MatVec(AEq, Tilt(P, Sub3(p, sun)))
      V == MatVec(AEq, Tilt(P, Sub3(v, vsun)))
      d == RNorm3(X)
      rho == RNorm2(X)
      ra == RAtan2(X[2], X[1])
      dec == RAtan2(X[3], rho)
      er == << RNeg(RSin(ra)), RCos(ra), "0.0" >>
      ed == << RNeg(RSin(dec) \otimes RCos(ra)), RNeg(RSin(dec) \otimes RSin(ra)), RCos(dec) >>
  IN << PosDeg(ra \otimes RDeg), dec \otimes RDeg, d,
        Dot3(V, er) \oslash (PmK \otimes d), Dot3(V, ed) \oslash (PmK \otimes d), Dot3(V, X) \oslash d >>
\* and back: <<position (kpc), velocity (km/s)>> of the point with sky observables w
FromSky(P, w) ==
  LET ra == w[1] \oslash RDeg
      dec == w[2] \oslash RDeg
      d == w[3]
      rhat == << RCos(dec) \otimes RCos(ra), RCos(dec) \otimes RSin(ra), RSin(dec) >>
      er == << RNeg(RSin(ra)), RCos(ra), "0.0" >>
      ed == << RNeg(RSin(dec) \otimes RCos(ra)), RNeg(RSin(dec) \otimes RSin(ra)), RCos(dec) >>
      V == Add3(Scale3(w[6], rhat), Scale3(PmK \otimes d, Add3(Scale3(w[4], er), Scale3(w[5], ed))))
      T == [i \in 1..3 |-> [j \in 1..3 |-> AEq[j][i]]]
  IN << Add3(Tilt(P, MatVec(T, Scale3(d, rhat))), << P.ro, "0.0", P.zo >>),
        Add3(Tilt(P, MatVec(T, V)), << P.sx, P.sy \oplus P.vo, P.sz >>) >>
=============================================================================
