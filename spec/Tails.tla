------------------------------- MODULE Tails -------------------------------
(* Stars matched to a path, tidal tails along an orbit, and the orientation  *)
(* of a cluster along its motion.                                            *)
(* A path is [t, p, v]: times, positions and velocities (sequences); it is   *)
(* flat when only its first two coordinates count (projected, or on the sky).*)
EXTENDS Bins, Units

Dist(flat, d) == IF flat THEN RNorm2(d) ELSE RNorm3(d)
Flat(flat, d) == IF flat THEN << d[1], d[2], "0.0" >> ELSE d
RECURSIVE Running(_, _, _)
Running(s, i, acc) == IF i > Len(s) THEN acc ELSE Running(s, i + 1, Append(acc, acc[Len(acc)] \oplus s[i]))
\* distance along the path from its first point
ArcLength(path, flat) == TLCEval(Running([i \in 1..(Len(path.p) - 1) |-> Dist(flat, Sub3(path.p[i + 1], path.p[i]))], 1, << "0.0" >>))
\* the progenitor: the points of the path that are nearest to now
Least(s, tol) == LET m == RSeqMin(s) IN SelectSeq([i \in 1..Len(s) |-> i], LAMBDA i : RNear(s[i], m, "1e-9", tol))
Progenitors(path) == LET a == [i \in 1..Len(path.t) |-> RAbs(path.t[i])] IN Least(a, "1e-9" \otimes RSeqMax(a))
Cross(a, b) == << (a[2] \otimes b[3]) \ominus (a[3] \otimes b[2]), (a[3] \otimes b[1]) \ominus (a[1] \otimes b[3]), (a[1] \otimes b[2]) \ominus (a[2] \otimes b[1]) >>
\* distance to the straight line along the path at its i-th point
Aside(path, flat, i, s) ==
  LET j == IF i < Len(path.p) THEN i ELSE i - 1
      w == Flat(flat, Sub3(path.p[j + 1], path.p[j]))
      d == Flat(flat, Sub3(s, path.p[i]))
  IN IF REq(RNorm3(w), 0) THEN RNorm3(d) ELSE RNorm3(Cross(w, d)) \oslash RNorm3(w)
\* positive on the side of the angular momentum
SideOf(path, i, s) == Dot3(Sub3(s, path.p[i]), Cross(path.p[i], path.v[i]))
SideScale(path, i, s) == RNorm3(Sub3(s, path.p[i])) \otimes RNorm3(path.p[i]) \otimes RNorm3(path.v[i])
\* a star at s is matched to point i
Separations(path, flat, s) == TLCEval([i \in 1..Len(path.p) |-> Dist(flat, Sub3(s, path.p[i]))])
NearestPoint(path, flat, s) == LET d == Separations(path, flat, s) IN CHOOSE i \in 1..Len(d) : RLe(d[i], RSeqMin(d))

\* overlapping bins, each with the same share of the path
RoamEqual(x, n, m) ==
  LET s == Sorted(x)
      N == Len(x)
      at(f) == s[RFloor(f \otimes (N - 1)) + 1]
      lo == [i \in 1..m |-> at(((i - 1) \otimes (RSub(1, RDiv(1, n)))) \oslash (m - 1))]
      hi == [i \in 1..m |-> IF i = m THEN s[N] ELSE at((((i - 1) \otimes (RSub(1, RDiv(1, n)))) \oslash (m - 1)) \oplus RDiv(1, n))]
      in(i, v) == RLe(lo[i], v) /\ (i = m \/ RLt(v, hi[i]))
  IN [i \in 1..m |-> [lo |-> lo[i], hi |-> hi[i], mid |-> RMean(SelectSeq(s, LAMBDA v : in(i, v)))]]
TailBins(t, q) ==
  TLCEval(IF q.ntail > q.nt THEN IF q.bins = "fix" THEN RoamFixed(t, q.nt, q.ntail) ELSE RoamEqual(t, q.nt, q.ntail)
          ELSE IF q.bins = "fix" THEN FixedBins(t, q.nt) ELSE EqualBins(t, q.nt))
\* the bins a time is in: one, or every one of the overlapping ones
InTailBin(B, q, i, v) ==
  IF q.ntail > q.nt THEN (i = 1 \/ RLe(B[i].lo, v)) /\ (RLe(B[i].lo, v) \/ i < Len(B)) /\ (i = Len(B) \/ RLt(v, B[i].hi))
  ELSE BinOf(B, v) = i
=============================================================================
