---------------------------- MODULE BinaryTrace ----------------------------
(* C09: binary elements and the scales they convert with.                    *)
(* State: the cluster c (StarCluster) plus the binaries, canonical           *)
(*   bin   sequence of [a (AU), p (days), m1, m2 (Msun)]                     *)
(*   bu    units the elements are shown in: audays, sudays, nbody, other     *)
(* A conversion changes bu only.                                             *)
EXTENDS StarCluster, TraceKit

AUPerPc == "206264.80624709636"
RsunPerAU == RDiv("1.495978707e13", "6.957e10")
DaysPerYear == "365.25"
\* one N-body length in AU and one N-body (binary) time in days: the period of ... / (2 pi) of a
\* binary of one N-body mass at one N-body length
LenAU(P) == P.rb \otimes AUPerPc
TimeDays(P) == DaysPerYear \otimes (RPow(LenAU(P), "1.5") \oslash RSqrt(P.zm))
BFac(bu, P) ==
  CASE bu = "audays" -> [a |-> "1.0", p |-> "1.0", m |-> "1.0"]
    [] bu = "sudays" -> [a |-> RsunPerAU, p |-> "1.0", m |-> "1.0"]
    [] OTHER -> [a |-> RDiv(1, LenAU(P)), p |-> RDiv(1, TimeDays(P)), m |-> RDiv(1, P.zm)]
Known == {"audays", "sudays", "nbody"}
\* elements in units the library does not know are kept as they are
View9(b, bu, P) == LET f == IF bu \in Known THEN BFac(bu, P) ELSE BFac("audays", P)
                   IN [a |-> b.a \otimes f.a, p |-> b.p \otimes f.p, m1 |-> b.m1 \otimes f.m, m2 |-> b.m2 \otimes f.m]
Canon9(w, bu, P) == LET f == IF bu \in Known THEN BFac(bu, P) ELSE BFac("audays", P)
                    IN [a |-> w.a \oslash f.a, p |-> w.p \oslash f.p, m1 |-> w.m1 \oslash f.m, m2 |-> w.m2 \oslash f.m]
TheInit(i) == [c |-> FromRaw(i), bu |-> i.bu, bin |-> [k \in 1..Len(i.bin) |-> Canon9(i.bin[k], i.bu, i.P)]]
BTo(s, bu) == IF s.bu \in Known THEN [s EXCEPT !.bu = bu] ELSE s
\* new scales re-read the elements shown in N-body units
Rescaled(s, P) ==
  [s EXCEPT !.bin = IF s.bu = "nbody" THEN [k \in 1..Len(@) |-> Canon9(View9(@[k], "nbody", s.c.P), "nbody", P)] ELSE @,
            !.c.P = P]
ThePost(s, e) ==
  CASE e.op = "units" -> LET d == [s EXCEPT !.c = ToUnits(@, e.u)]
                         IN IF e.u = "nbody" /\ Len(s.bin) > 0 THEN BTo(d, "nbody") ELSE d
    [] e.op = "origin" -> [s EXCEPT !.c = ToOrigin(@, e.o)]
    [] e.op = "bunits" -> BTo(s, e.bu)
    [] e.op = "scales" -> Rescaled(s, e.P)
    [] OTHER -> s
N9(a, b) == RNear(a, b, "1e-10", 0)
TheFails(s0, s, e) ==
  LET n == Len(s.bin)
      full == Len(e.bin) = n
  IN Failing(StateClauses(s.c, e.obs)) \cup
     Failing([ bunits |-> e.bu1 = s.bu,
               binaries |-> full,
               separations |-> full => \A k \in 1..n : N9(e.bin[k].a, View9(s.bin[k], s.bu, s.c.P).a),
               periods |-> full => \A k \in 1..n : N9(e.bin[k].p, View9(s.bin[k], s.bu, s.c.P).p),
               masses |-> full => \A k \in 1..n : /\ N9(e.bin[k].m1, View9(s.bin[k], s.bu, s.c.P).m1)
                                                  /\ N9(e.bin[k].m2, View9(s.bin[k], s.bu, s.c.P).m2),
               \* rescaled to the cluster's own stars: one N-body mass holds them all
               newscales |-> e.op = "scales" =>
                  LET S == ReFrame(s0.c, IF s0.c.o \in {"galaxy", "sky"} THEN "centre" ELSE s0.c.o)
                      P == e.P
                  IN /\ IF e.mass THEN N9(P.zm, MTot(s0.c)) ELSE P.zm = s0.c.P.zm
                     /\ IF e.radii THEN LagrangeTol([k \in 1..Len(S) |-> S[k].m], [k \in 1..Len(S) |-> RNorm3(S[k].p)],
                                                    RMul("0.75", P.rb), "0.5", "1e-7") ELSE P.rb = s0.c.P.rb
                     /\ RNear(P.vb, RMul("0.06557", RSqrt(P.zm \oslash P.rb)), "1e-9", 0)
                     /\ RNear(P.tb, P.rb \oslash RMul("1.023", P.vb), "1e-9", 0) ])
=============================================================================
