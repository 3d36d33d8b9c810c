-------------------------------- MODULE Bins --------------------------------
(* Binning of lists of values, histograms, fits and profiles over bins.      *)
(* A binning is a sequence of [lo, mid, hi]; a value is in the first bin     *)
(* whose upper edge is above it, or in the last one.                         *)
EXTENDS Integers, Sequences, RealNum, TLC

Sorted(x) == LET o == TLCEval(RArgSort(x)) IN TLCEval([i \in 1..Len(x) |-> x[o[i]]])
RIsInt(a) == REq(a, RFloor(a))
RECURSIVE CountBelow(_, _, _, _)
\* number of entries of s[1..i] that are <= v
CountBelow(s, v, i, acc) == IF i > Len(s) THEN acc ELSE CountBelow(s, v, i + 1, acc + (IF RLe(s[i], v) THEN 1 ELSE 0))
BinOf(B, v) == LET k == CountBelow([i \in 1..Len(B) |-> B[i].hi], v, 1, 0) + 1 IN IF k > Len(B) THEN Len(B) ELSE k
Covered(B, v) == RLe(B[1].lo, v) /\ RLe(v, B[Len(B)].hi)
Members(B, x, i) == SelectSeq([k \in 1..Len(x) |-> k], LAMBDA k : BinOf(B, x[k]) = i)
PickOf(x, J) == [k \in 1..Len(J) |-> x[J[k]]]

\* ---- equal widths, linear or logarithmic
FixedBins(x, n) ==
  LET a == RSeqMin(x)
      b == RSeqMax(x)
      e(i) == IF i = n THEN b ELSE a \oplus ((i \otimes (b \ominus a)) \oslash n)
  IN [i \in 1..n |-> [lo |-> e(i - 1), mid |-> RMul("0.5", e(i - 1) \oplus e(i)), hi |-> e(i)]]
LogBins(x, n) ==
  LET a == RLog10(RSeqMin(x))
      b == RLog10(RSeqMax(x))
      e(i) == IF i = 0 THEN RSeqMin(x) ELSE IF i = n THEN RSeqMax(x) ELSE RPow(10, a \oplus ((i \otimes (b \ominus a)) \oslash n))
  IN [i \in 1..n |-> [lo |-> e(i - 1), mid |-> RMul("0.5", e(i - 1) \oplus e(i)), hi |-> e(i)]]
\* ---- equal numbers: bins start at the values of rank i N / n; bins of no width are dropped
EqualBins(x, n) ==
  LET s == Sorted(x)
      N == Len(x)
      lo == [i \in 1..n |-> s[(((i - 1) * N) \div n) + 1]]
      hi == [i \in 1..n |-> IF i < n THEN lo[i + 1] ELSE s[N]]
      K == SelectSeq([i \in 1..n |-> i], LAMBDA i : RLt(lo[i], hi[i]))
      B == TLCEval([k \in 1..Len(K) |-> [lo |-> lo[K[k]], mid |-> "0", hi |-> hi[K[k]]]])
  IN TLCEval([k \in 1..Len(K) |-> [B[k] EXCEPT !.mid = RMean(PickOf(x, Members(B, x, k)))]])
\* ---- overlapping bins: each with a width (or share of the data) 1/n of the whole, starting at m equally spaced places
RoamFixed(x, n, m) ==
  LET a == RSeqMin(x)
      b == RSeqMax(x)
      w == (b \ominus a) \oslash n
      lo(i) == a \oplus (((i - 1) \otimes (b \ominus w \ominus a)) \oslash (m - 1))
  IN [i \in 1..m |-> [lo |-> lo(i), mid |-> lo(i) \oplus RMul("0.5", w), hi |-> lo(i) \oplus w]]
RoamLog(x, n, m) ==
  LET B == RoamFixed([i \in 1..Len(x) |-> RLog10(x[i])], n, m)
  IN [i \in 1..m |-> [lo |-> RPow(10, B[i].lo), mid |-> RPow(10, B[i].mid), hi |-> RPow(10, B[i].hi)]]

\* ---- least squares y = a x + b, with the errors numpy.polyfit reports
LineFit(x, y) ==
  LET n == Len(x)
      mx == RMean(x)
      my == RMean(y)
      sxx == RSum([i \in 1..n |-> RSq(x[i] \ominus mx)])
      sxy == RSum([i \in 1..n |-> (x[i] \ominus mx) \otimes (y[i] \ominus my)])
      a == sxy \oslash sxx
      b == my \ominus (a \otimes mx)
      res == RSum([i \in 1..n |-> RSq(y[i] \ominus (b \oplus (a \otimes x[i])))])
      s2 == res \oslash (n - 2)
  IN [a |-> a, b |-> b, ea |-> RSqrt(s2 \oslash sxx), eb |-> RSqrt(s2 \otimes (RDiv(1, n) \oplus (RSq(mx) \oslash sxx)))]
\* ---- moments
RVar(x) == LET m == RMean(x) IN RMean([i \in 1..Len(x) |-> RSq(x[i] \ominus m)])
RStd(x) == RSqrt(RVar(x))
RMedian(x) == LET s == Sorted(x)
                  n == Len(x)
              IN IF n % 2 = 1 THEN s[(n + 1) \div 2] ELSE RMul("0.5", s[n \div 2] \oplus s[(n \div 2) + 1])
=============================================================================
