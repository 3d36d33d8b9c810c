------------------------------- MODULE Centre -------------------------------
(* Centres of a set of stars.  S is a sequence of [m, w], w = <<x,y,z,vx,vy,vz>>. *)
EXTENDS RealNum, TLC

Zero == << "0.0", "0.0", "0.0", "0.0", "0.0", "0.0" >>
Add6(a, b) == [j \in 1..6 |-> a[j] \oplus b[j]]
Sub6(a, b) == [j \in 1..6 |-> a[j] \ominus b[j]]
MassOf(S) == RSum([i \in 1..Len(S) |-> S[i].m])
Com6(S) == LET M == MassOf(S) IN
           [j \in 1..6 |-> RSum([i \in 1..Len(S) |-> S[i].m \otimes S[i].w[j]]) \oslash M]
Within(S, c, rlim) == SelectSeq(S, LAMBDA s : RLt(RNorm3(Sub6(s.w, c)), rlim))

\* shrinking spheres (Harfst): q = [start, nsphere, rmin, rmax, nmax]; stop when too few stars are left
RECURSIVE Shrink(_, _, _, _, _)
Shrink(S, q, c, rlim, n) ==
  IF ~RLt(q.rmin, rlim) \/ n >= q.nmax THEN c
  ELSE LET In == TLCEval(Within(S, c, rlim))
       IN IF Len(In) <= q.nsphere \/ ~RLt(0, MassOf(In)) THEN c
          ELSE Shrink(S, q, TLCEval(Com6(In)), rlim \otimes "0.8", n + 1)
\* the first sphere reaches the farthest star; e nudges it in or out
HarfstE(S, q, e) ==
  LET far == RSeqMax([i \in 1..Len(S) |-> RNorm3(Sub6(S[i].w, q.start))])
  IN Shrink(S, q, q.start, (IF q.rmax = "None" THEN far ELSE q.rmax) \otimes e, 0)
Harfst(S, q) == HarfstE(S, q, "1.0")
HarfstIn(S, q) == HarfstE(S, q, "1.000000000001")
HarfstOut(S, q) == HarfstE(S, q, "0.999999999999")

\* local densities from k nearest neighbours (Casertano & Hut); the star itself counts as the first
Casertano(S, k) ==
  LET n == Len(S)
      dist(i) == TLCEval([j \in 1..n |-> RNorm3(Sub6(S[i].w, S[j].w))])
      rho == TLCEval([i \in 1..n |->
               LET d == dist(i)
                   o == RArgSort(d)
               IN RSum([a \in 1..(k - 1) |-> S[o[a]].m]) \oslash RCube(d[o[k]])])
      tot == RSum(rho)
  IN [j \in 1..6 |-> RSum([i \in 1..n |-> rho[i] \otimes S[i].w[j]]) \oslash tot]

\* sigma clipping: while more than nsphere stars are left keep those within nsigma standard deviations of
\* the mean distance from the mean position; done when no star is beyond
Std(s) == LET m == RMean(s) IN RSqrt(RMean([i \in 1..Len(s) |-> RSq(s[i] \ominus m)]))
RECURSIVE Clip(_, _, _, _)
Clip(S, q, c, centred) ==   \* c: point radii are measured from
  LET r == TLCEval([i \in 1..Len(S) |-> RNorm3(Sub6(S[i].w, c))])
      lim == q.nsigma \otimes Std(r)
      T == TLCEval(SelectSeq([i \in 1..Len(S) |-> [s |-> S[i], in |-> RLt(r[i], lim)]], LAMBDA z : z.in))
      K == [i \in 1..Len(T) |-> T[i].s]
  IN IF Len(S) <= q.nsphere \/ Len(K) <= q.nsphere \/ (centred /\ Len(K) = Len(S)) THEN S
     ELSE Clip(K, q, TLCEval([j \in 1..6 |-> RMean([i \in 1..Len(K) |-> K[i].w[j]])]), TRUE)
Clipped(S, q) == Com6(Clip(S, q, q.start, FALSE))
=============================================================================
