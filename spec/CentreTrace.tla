---------------------------- MODULE CentreTrace ----------------------------
(* C12: recorded searches for the centre judged against Centre.tla, and the  *)
(* way the cluster records what was found.                                   *)
EXTENDS StarCluster, Centre, TraceKit

TheInit(i) == FromRaw(i)
Stars(d, mask) ==
  LET J == TLCEval(SelectSeq([i \in 1..Len(d.x) |-> i], LAMBDA i : mask.k = "none" \/ mask.v[i]))
  IN TLCEval([k \in 1..Len(J) |-> [m |-> d.m[J[k]], w |-> d.x[J[k]]]])
\* every answer the definition allows
Wanted(e) ==
  LET S == Stars(e.par, e.q.mask) IN
  CASE e.q.how = "mass"      -> << Com6(S) >>
    [] e.q.how = "clip"      -> << Clipped(S, e.q) >>
    [] e.q.how = "casertano" -> << Casertano(S, e.q.k) >>
    [] OTHER                 -> << Harfst(S, e.q), HarfstIn(S, e.q), HarfstOut(S, e.q) >>
Size6(d) ==
  LET p == 1 \otimes RSeqMax([i \in 1..Len(d.x) |-> RNorm3(d.x[i])])
      v == RSeqMax([i \in 1..Len(d.x) |-> RNorm3(<< d.x[i][4], d.x[i][5], d.x[i][6] >>)])
  IN << p, p, p, v, v, v >>
Close(a, b, sc, tol) == \A j \in 1..6 : RNear(a[j], b[j], tol, tol \otimes sc[j])
NoOrbit(d) == \A j \in 1..6 : REq(d.gc[j], 0)
Zeros == [j \in 1..6 |-> "0.0"]
\* what the cluster shows as orbit and centre afterwards
RecordedGc(d, r, reset) == IF d.o \in {"galaxy", "sky"} /\ (NoOrbit(d) \/ reset) THEN r ELSE d.gc
RecordedCen(d, r, reset) ==
  CASE d.o = "cluster" -> r
    [] d.o = "galaxy"  -> IF NoOrbit(d) \/ reset THEN Zeros ELSE Sub6(r, d.gc)
    [] d.o = "sky"     -> IF NoOrbit(d) \/ reset THEN r ELSE d.cen
    [] OTHER           -> d.cen
ThePost(c, e) == CASE e.op = "find" -> FromRaw(e.after)
                   [] e.op = "units" -> ToUnits(c, e.u)
                   [] e.op = "origin" -> ToOrigin(c, e.o)
                   [] OTHER -> c
FindFails(e) ==
  LET d == e.par
      a == e.after
      sc == TLCEval(Size6(d))
  IN Failing([ found |-> LET W == TLCEval(Wanted(e)) IN \E k \in 1..Len(W) : Close(e.ret, W[k], sc, "1e-9"),
               orbit |-> Close(a.gc, IF e.method THEN RecordedGc(d, e.ret, e.reset) ELSE d.gc, sc, "1e-13"),
               centre |-> Close(a.cen, IF e.method THEN RecordedCen(d, e.ret, e.reset) ELSE d.cen, sc, "1e-13"),
               frame |-> a.u = d.u /\ a.o = d.o,
               stars |-> /\ Len(a.x) = Len(d.x) /\ a.id = d.id /\ a.m = d.m
                         /\ Len(a.x) = Len(d.x) => \A i \in 1..Len(d.x) : Close(a.x[i], d.x[i], sc, "1e-14"),
               mask |-> e.mask_after = e.q.mask ])
TheFails(c0, c1, e) == IF e.op = "find" THEN FindFails(e) ELSE Failing(StateClauses(c1, e.obs))
=============================================================================
