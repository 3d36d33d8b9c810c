---------------------------- MODULE EnergyTrace ----------------------------
(* C10: recorded energy calculations judged against Energies.tla             *)
EXTENDS Energies, TraceKit
TheInit(i) == << >>
ThePost(c, e) == c
\* what cannot be told apart numerically: velocities and separations of stars far out in the Galaxy
ETol(d) == IF d.o = "galaxy" THEN "1e-6" ELSE "1e-9"
KTol(S, i, sp) == RMul("1e-9", Kin(S, i, FALSE, sp) \oplus Kin(S, 1, FALSE, sp))
TheFails(c0, c1, e) ==
  LET d == e.par
      S == TLCEval(RawStars(d, IF d.o = "galaxy" THEN "cluster" ELSE d.o))
      J == e.which         \* stars asked for, in the cluster's order
      G == GravIn(d.u)
      n == Len(J)
      full == Len(e.kin) = n /\ Len(e.pot) = n
      N(a, b) == RNear(a, b, ETol(d), "1e-300")
      pos(i) == { k \in 1..n : J[k] = i }
      Same == StateClauses(FromRaw(d), e.after)
      a == e.attr
      na == Len(S)
      afull == Len(a.kin) = na /\ Len(a.pot) = na /\ Len(a.etot) = na
  IN Failing(Same) \cup
     Failing([ one |-> full,
               kinetic |-> full => \A k \in 1..n : RNear(e.kin[k], Kin(S, J[k], e.q.pro, e.q.sp), ETol(d), KTol(S, J[k], e.q.sp)),
               potential |-> full => \A p \in 1..Len(e.probe) : LET k == e.probe[p] IN
                                N(e.pot[k], Pot(S, J[k], G, e.q.eps, e.q.pro, e.q.sp)),
               \* the other ways to compute the same thing agree star by star
               agree |-> e.ref.k = "many" => /\ Len(e.ref.v) = n
                                             /\ full => \A k \in 1..n : N(e.pot[k], e.ref.v[k]),
               recorded |-> e.method =>
                  /\ afull
                  /\ afull => \A i \in 1..na : IF pos(i) = {} THEN REq(a.kin[i], 0) /\ REq(a.pot[i], 0)
                                               ELSE LET k == CHOOSE q \in pos(i) : TRUE IN
                                                    N(a.kin[i], e.kin[k]) /\ N(a.pot[i], e.pot[k])
                  /\ afull => \A i \in 1..na : RNear(a.etot[i], a.kin[i] \oplus a.pot[i], "1e-9", RMul("1e-12", RAbs(a.pot[i]))),
               totals |-> (e.method /\ afull) =>
                  /\ N(a.ektot, RSum(a.kin)) /\ N(a.ptot, RSum(a.pot) \oslash 2)
                  /\ RNear(a.qvir, RSum(a.kin) \oslash (RSum(a.pot) \oslash 2), "1e-8", 0),
               untouched |-> ~e.method => a = e.attr0 ])
=============================================================================
