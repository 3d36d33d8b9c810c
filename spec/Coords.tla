------------------------------- MODULE Coords -------------------------------
(* Cylindrical and spherical coordinates of a phase-space point, defined by  *)
(* the Cartesian point they stand for: a conversion is right when its result *)
(* names the point it was made from.                                         *)
EXTENDS StarCluster
\* << R, phi, z, vR, vphi, vz >>
FromCyl(w) ==
  LET c == RCos(w[2])
      s == RSin(w[2])
  IN << w[1] \otimes c, w[1] \otimes s, w[3],
        (w[4] \otimes c) \ominus (w[5] \otimes s), (w[4] \otimes s) \oplus (w[5] \otimes c), w[6] >>
\* << r, phi, theta, vr, vphi, vtheta >>: theta is measured from the positive z axis
FromSphere(w) ==
  LET c == RCos(w[2])
      s == RSin(w[2])
      ct == RCos(w[3])
      s_t == RSin(w[3])
      vR == (w[4] \otimes s_t) \oplus (w[6] \otimes ct)
  IN << w[1] \otimes (s_t \otimes c), w[1] \otimes (s_t \otimes s), w[1] \otimes ct,
        (vR \otimes c) \ominus (w[5] \otimes s), (vR \otimes s) \oplus (w[5] \otimes c),
        (w[4] \otimes ct) \ominus (w[6] \otimes s_t) >>
Size6(a) == << RNorm3(a), RNorm3(<< a[4], a[5], a[6] >>) >>
\* close, next to the size of the position and of the velocity
NearSized(a, b, s, tol) == /\ \A j \in 1..3 : RNear(a[j], b[j], 0, tol \otimes s[1])
                           /\ \A j \in 4..6 : RNear(a[j], b[j], 0, tol \otimes s[2])
\* the coordinates name the point a, the angle(s) and radius in their proper ranges
IsCyl(w, a) == RLe(0, w[1]) /\ NearSized(FromCyl(w), a, Size6(a), "1e-9")
IsSphere(w, a) == /\ RLe(0, w[1]) /\ RLe(0, w[3]) /\ RLe(w[3], RPi \oplus "1e-12")
                  /\ NearSized(FromSphere(w), a, Size6(a), "1e-7")
IsSky(P, w, a) ==
  LET s == SkyOf(P, << a[1], a[2], a[3] >>, << a[4], a[5], a[6] >>)
  IN /\ RNear(RCos(w[1] \oslash RDeg), RCos(s[1] \oslash RDeg), 0, "1e-8") /\ RNear(RSin(w[1] \oslash RDeg), RSin(s[1] \oslash RDeg), 0, "1e-8")
     /\ RNear(w[2], s[2], 0, "1e-6") /\ RNear(w[3], s[3], "1e-8", 0)
     /\ \A j \in 4..6 : RNear(w[j], s[j], "1e-6", "1e-5")
=============================================================================
