---------------------------- MODULE SelectTrace ----------------------------
(* C06, C07: recorded selections and sub-clusters judged against Select.tla  *)
EXTENDS Select, TraceKit
TheInit(i) == << >>

\* canonical state of the child, from what the parent shows
ParentState(d) == FromRaw(d)
Restrict(c, J) == [c EXCEPT !.st = Pick(@, J)]
ThePost(c, e) ==
  CASE e.op = "sub" -> IF e.child.n = 0 \/ ~e.follow THEN << >>
                       ELSE IF e.fresh THEN FromRaw(e.child) ELSE Restrict(FromRaw(e.par), Chosen(e.par, e.q))
    [] e.op = "units" -> ToUnits(c, e.u)
    [] e.op = "origin" -> ToOrigin(c, e.o)
    [] OTHER -> c

Untouched(a, b) == [ parentunits |-> a.u = b.u /\ a.o = b.o,
                     parentdata |-> a = b ]
SubsetFails(e) ==
  LET d == e.par
      J == Chosen(d, e.q)
  IN Failing([ selected |-> e.res = [i \in 1..Len(d.id) |-> Meets(d, e.q, i)],
               remembered |-> e.kept = e.res,
               mask |-> e.mask_after = e.q.mask ]) \cup Failing(Untouched(e.par, e.after))
SubFails(c1, e) ==
  LET d == e.par
      J == Chosen(d, e.q)
      ch == e.child
      full == ch.n = Len(J) /\ Len(ch.x) = ch.n /\ Len(ch.m) = ch.n /\ Len(ch.id) = ch.n
      R == Failing([ count |-> ch.n = Len(J), mask |-> e.mask_after = e.q.mask ]) \cup Failing(Untouched(e.par, e.after))
      rat == LET f == Fac(ch.u, ch.P)
                 g == Fac(d.u, d.P)
                 l == IF ch.u = d.u /\ ch.u = "nbody" THEN f.l \oslash g.l ELSE 1
                 v == IF ch.u = d.u /\ ch.u = "nbody" THEN f.v \oslash g.v ELSE 1
             IN [m |-> IF ch.u = d.u /\ ch.u = "nbody" THEN f.m \oslash g.m ELSE 1, w |-> << l, l, l, v, v, v >>]
      tol == TLCEval(IF e.exact THEN [j \in 1..6 |-> "1e-12"]
                     ELSE LET c == FromRaw(ch) IN [j \in 1..6 |-> IF j < 4 THEN AtolP(c) ELSE AtolV(c)])
      D == [x |-> ch.x, m |-> ch.m, ord |-> ch.ord, ordpro |-> ch.ordpro, d |-> ch.d, lum |-> << >>]
  IN R \cup
     IF Len(J) = 0 \/ ch.n # Len(J) THEN {}
     ELSE Failing([ aligned |-> full,
                    ids |-> full => \A k \in 1..ch.n : ch.id[k] = d.id[J[k]],
                    masses |-> full => \A k \in 1..ch.n : RNear(ch.m[k], d.m[J[k]] \otimes rat.m, "1e-11", 0),
                    stars |-> full => \A k \in 1..ch.n : \A j \in 1..6 :
                                RNear(ch.x[k][j], d.x[J[k]][j] \otimes rat.w[j], "1e-9", tol[j]),
                    perstar |-> \A f \in PerStar : Given(d, f) => ExactSeq(ch[f], Pick(d[f], J)),
                    skydata |-> Len(d.sky) = Len(d.id) /\ ~e.fresh => \A k \in 1..ch.n : Len(ch.sky) = ch.n /\ ExactSeq(ch.sky[k], d.sky[J[k]]),
                    binaries |-> ch.bse = BinaryRows(d, J),
                    frame |-> ch.u = d.u /\ ch.o = d.o,
                    time |-> RNear(ch.t \otimes Fac(d.u, d.P).t, d.t \otimes Fac(ch.u, ch.P).t, "1e-9", 0),
                    settings |-> \A f \in Settings : SameVal(ch.set[f], d.set[f]),
                    binarycount |-> ch.set.nb = IF Len(d.bse) > 0 THEN Len(BinaryRows(d, J)) ELSE d.set.nb,
                    scales |-> IF e.opt.nbody
                               THEN LET c == FromRaw(ch)
                                        S == ReFrame(c, IF c.o \in {"galaxy", "sky"} THEN "centre" ELSE c.o)
                                    IN NBodyOK(e.opt, d.P, ch.P, [k \in 1..ch.n |-> S[k].m], [k \in 1..ch.n |-> RNorm3(S[k].p)])
                               ELSE \A f \in Scales : Exact(ch.P[f], d.P[f]),
                    centre |-> ~e.opt.centre => /\ \A j \in 1..6 : RNear(ch.cen[j], d.cen[j] \otimes rat.w[j], "1e-9", tol[j])
                                                /\ \A j \in 1..6 : RNear(ch.gc[j], d.gc[j] \otimes rat.w[j], "1e-9", tol[j]),
                    \* recentred on its own stars
                    recentred |-> (e.opt.centre /\ ch.o \in {"galaxy", "cluster"}) =>
                        LET S == [k \in 1..ch.n |-> [m |-> ch.m[k], w |-> ch.x[k]]]
                            q == [start |-> Zero, nsphere |-> 100, rmin |-> "0.1", rmax |-> "None", nmax |-> 100]
                            want == Harfst(S, q)
                            got == IF ch.o = "galaxy" THEN ch.gc ELSE ch.cen
                            sc == 1 \oplus RSeqMax([k \in 1..ch.n |-> RNorm3(ch.x[k])])
                        IN /\ \A j \in 1..6 : RNear(got[j], want[j], "1e-7", RMul("1e-9", sc))
                           /\ ch.o = "galaxy" => \A j \in 1..6 : RNear(ch.cen[j], 0, 0, "1e-9")
                           /\ ch.o = "cluster" => \A j \in 1..6 : RNear(ch.gc[j], d.gc[j], "1e-9", "1e-12") ])
          \cup (IF full THEN Failing(DerivedClauses([fresh |-> TRUE, sorted |-> e.opt.sort], D)) ELSE {})
TheFails(c0, c1, e) ==
  CASE e.op = "subset" -> SubsetFails(e)
    [] e.op = "sub" -> SubFails(c1, e)
    [] OTHER -> Failing(StateClauses(c1, e.obs))
=============================================================================
