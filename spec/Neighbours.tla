----------------------------- MODULE Neighbours -----------------------------
(* Nearest neighbours of stars, and the stars of one cluster near another.   *)
EXTENDS RealNum, FiniteSets
\* w: coordinates of a star; flat: seen in projection (or on the sky)
Gap(a, b, flat) == IF flat THEN RNorm2(<< a[1] \ominus b[1], a[2] \ominus b[2] >>)
                   ELSE RNorm3(<< a[1] \ominus b[1], a[2] \ominus b[2], a[3] \ominus b[3] >>)
\* distance of star i to its closest other star
Closest(S, i, flat) == RSeqMin([j \in 1..(Len(S) - 1) |-> Gap(S[i], S[IF j < i THEN j ELSE j + 1], flat)])
\* distance of point a to the stars T
Reach(a, T, flat) == RSeqMin([j \in 1..Len(T) |-> Gap(a, T[j], flat)])
Overlap(S, T, tol, flat) == SelectSeq([i \in 1..Len(S) |-> i], LAMBDA i : RLt(Reach(S[i], T, flat), tol))
=============================================================================
