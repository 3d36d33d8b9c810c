--------------------------- MODULE NeighbourTrace ---------------------------
(* C19: recorded neighbour searches and overlaps judged against Neighbours.tla *)
EXTENDS Neighbours, TraceKit
TheInit(i) == << >>
ThePost(c, e) == c
Big(S) == RSeqMax([i \in 1..Len(S) |-> RNorm3(S[i])])
ClosestFails(e) ==
  LET S == e.par.x
      n == Len(S)
      flat == e.q.flat
      tol == RMul("1e-14", Big(S))
      full == Len(e.dist) = n
  IN Failing([ howmany |-> full /\ (e.q.arg => Len(e.arg) = n),
               distance |-> full => \A i \in 1..n : RNear(e.dist[i], Closest(S, i, flat), "1e-9", tol),
               another |-> (full /\ e.q.arg /\ Len(e.arg) = n) =>
                   \A i \in 1..n : /\ e.arg[i] + 1 # i /\ e.arg[i] >= 0 /\ e.arg[i] < n
                                   /\ RNear(Gap(S[i], S[e.arg[i] + 1], flat), e.dist[i], "1e-9", tol),
               kept |-> e.method => e.kept = e.dist /\ (e.q.arg => e.keptarg = e.arg),
               unchanged |-> e.after = e.par ])
OverlapFails(e) ==
  LET S == e.par.x
      T == e.other.x
      J == Overlap(S, T, e.q.tol, e.q.flat)
      sel == [i \in 1..Len(S) |-> \E k \in 1..Len(J) : J[k] = i]
  IN Failing([ selected |-> e.q.cluster \/ e.mask = sel,
               extracted |-> e.q.cluster =>
                   Len(e.child.id) = Len(J) /\ Len(e.child.x) = Len(J) /\ Len(e.child.m) = Len(J) /\
                   \A k \in 1..Len(J) : /\ e.child.id[k] = e.par.id[J[k]] /\ REq(e.child.m[k], e.par.m[J[k]])
                                        /\ \A j \in 1..6 : RNear(e.child.x[k][j], e.par.x[J[k]][j], "1e-9", RMul("1e-9", Big(S))),
               unchanged |-> e.after = e.par /\ e.other_after = e.other ])
TheFails(c0, c1, e) == CASE e.op = "closest" -> ClosestFails(e) [] OTHER -> OverlapFails(e)
=============================================================================
