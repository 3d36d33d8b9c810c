--------------------------- MODULE HistoryTrace ---------------------------
(* Recorded histories of a StarCluster judged against StarCluster.tla.       *)
EXTENDS StarCluster, TraceKit

TheInit(i) == FromRaw(i)

\* what the derived attributes still promise after a change of view
Refresh(c0, c1, an, so) ==
  LET moved == c0.u # c1.u \/ c0.o # c1.o \/ c0.vm # c1.vm
  IN IF moved THEN [c1 EXCEPT !.fresh = an, !.sorted = an /\ so] ELSE c1

ThePost(c, e) ==
  CASE e.op = "start"  -> c
    [] e.op = "units"  -> Refresh(c, ToUnits(c, e.u), e.an, e.so)
    [] e.op = "origin" -> Refresh(c, ToOrigin(IF e.cm = "None" THEN c ELSE [c EXCEPT !.cm = e.cm], e.o), TRUE, e.so)
    [] e.op = "analyze" -> [c EXCEPT !.fresh = TRUE, !.sorted = e.so \/ @]
    [] e.op = "add"    -> [AddTo(c, e.new) EXCEPT !.fresh = e.an, !.sorted = e.an /\ e.so]
    [] e.op = "save"   -> [c EXCEPT !.sv = << c.u, c.o, c.sorted >>]
    [] e.op = "return" -> [ReturnTo(c, c.sv[1], c.sv[2]) EXCEPT !.fresh = TRUE, !.sorted = c.sv[3]]
    [] e.op = "read"   -> c

StateNames == {"units", "origin", "count", "ids", "mass", "stars", "centre", "orbit", "time"}
Only(names, r) == [k \in (DOMAIN r \cap names) |-> r[k]]
\* C04 looks at the derived attributes only, the others at the state; C05 at both
TheFails(c0, c1, e) ==
  LET s == StateClauses(c1, e.obs)
      d == DerivedClauses(c1, e.obs)
  IN CASE IOEnv.PROP = "C04" -> Failing(d)
       [] IOEnv.PROP = "C05" -> IF e.op \in {"read", "return"} THEN Failing(s) \cup Failing(d)
                                ELSE Failing(Only({"units", "origin"}, s))
       [] OTHER -> Failing(s)
=============================================================================
