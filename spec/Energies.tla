------------------------------ MODULE Energies ------------------------------
(* Kinetic and potential energies of gravitating stars.                      *)
(* S: sequence of [m, w]; G, eps: gravitational constant and softening;      *)
(* pro: only the sky plane counts; sp: per unit mass                         *)
EXTENDS StarCluster

Sep2(a, b, pro) == RSq(a[1] \ominus b[1]) \oplus RSq(a[2] \ominus b[2]) \oplus (IF pro THEN 0 ELSE RSq(a[3] \ominus b[3]))
Kin(S, i, pro, sp) ==
  LET w == S[i].w
      v2 == RSq(w[4]) \oplus RSq(w[5]) \oplus (IF pro THEN 0 ELSE RSq(w[6]))
  IN RMul("0.5", v2) \otimes (IF sp THEN 1 ELSE S[i].m)
Pot(S, i, G, eps, pro, sp) ==
  RNeg(G) \otimes (IF sp THEN 1 ELSE S[i].m) \otimes
  RSum([j \in 1..Len(S) |-> IF j = i THEN 0 ELSE S[j].m \oslash RSqrt(Sep2(S[i].w, S[j].w, pro) \oplus RSq(eps))])
\* mass-weighted inverse separations of all pairs
PairSum(S, pro) ==
  RSum([i \in 1..Len(S) |-> S[i].m \otimes RSum([j \in 1..(i - 1) |-> S[j].m \oslash RSqrt(Sep2(S[i].w, S[j].w, pro))])])
VirialRatio(S, G, eps, pro, sp) ==
  RSum([i \in 1..Len(S) |-> Kin(S, i, pro, sp)]) \oslash
  RMul("0.5", RSum([i \in 1..Len(S) |-> Pot(S, i, G, eps, pro, sp)]))
\* stars of what a cluster shows (raw units), moved to frame f: velocities and positions relative to its zero point
RawStars(d, f) ==
  LET off == IF d.o = "galaxy" /\ f \in {"cluster", "centre"} THEN d.gc ELSE [j \in 1..6 |-> "0.0"]
      of2 == IF f = "centre" /\ d.o \in {"galaxy", "cluster"} THEN d.cen ELSE [j \in 1..6 |-> "0.0"]
  IN [i \in 1..Len(d.x) |-> [m |-> d.m[i], w |-> [j \in 1..6 |-> d.x[i][j] \ominus (off[j] \oplus of2[j])]]]
=============================================================================
