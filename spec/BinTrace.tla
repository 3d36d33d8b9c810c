------------------------------ MODULE BinTrace ------------------------------
(* C15: recorded calls of the binning and statistics helpers judged against Bins.tla *)
EXTENDS Bins, TraceKit, FiniteSets
TheInit(i) == << >>
ThePost(c, e) == c
N9(a, b, s) == RNear(a, b, "1e-9", RMul("1e-11", s))
SeqNear(s, t, sc) == Len(s) = Len(t) /\ \A i \in 1..Len(s) : N9(s[i], t[i], sc)
SeqSame(s, t) == Len(s) = Len(t) /\ \A i \in 1..Len(s) : RNear(s[i], t[i], 0, 0)
Scale(x) == RSeqMax([i \in 1..Len(x) |-> RAbs(x[i])])
Given(e) == [i \in 1..Len(e.lo) |-> [lo |-> e.lo[i], mid |-> e.mid[i], hi |-> e.hi[i]]]
\* members of a half-open bin (the last one closed), taken by itself
Within(x, lo, hi, closed) == SelectSeq([k \in 1..Len(x) |-> k], LAMBDA k : RLe(lo, x[k]) /\ (RLt(x[k], hi) \/ (closed /\ REq(x[k], hi))))
SumNear(s, x, J) == RNear(s, RSum(PickOf(x, J)), "1e-9", RMul("1e-10", RMul(Len(x), Scale(x))))
MeanNear(s, x, J) == RNear(s, RMean(PickOf(x, J)), "1e-9", RMul("1e-10", Scale(x)))
Counts(e, closedlast(_)) ==
  [ shape |-> Len(e.lo) = Len(e.hi) /\ Len(e.lo) = Len(e.mid) /\ Len(e.lo) = Len(e.hist),
    counts |-> \A i \in 1..Len(e.lo) : REq(e.hist[i], Len(Within(e.x, e.lo[i], e.hi[i], closedlast(i)))),
    sums |-> e.nsum => /\ Len(e.sum) = Len(e.lo)
                       /\ \A i \in 1..Len(e.lo) : SumNear(e.sum[i], e.x, Within(e.x, e.lo[i], e.hi[i], closedlast(i))) ]
\* contiguous bins that cover the data and count every value once
Partition(e) ==
  LET n == Len(e.lo)
  IN [ contiguous |-> \A i \in 1..(n - 1) : REq(e.hi[i], e.lo[i + 1]),
       increasing |-> \A i \in 1..n : RLt(e.lo[i], e.hi[i]) \/ (REq(e.lo[i], e.hi[i]) /\ REq(RSeqMin(e.x), RSeqMax(e.x))),
       covers |-> REq(RSeqMin(e.x), e.lo[1]) /\ REq(RSeqMax(e.x), e.hi[n]),
       everyone |-> REq(RSum(e.hist), Len(e.x)) ]
Last(e) == Len(e.lo)
NbinFails(e) ==
  LET B == EqualBins(e.x, e.n)
      n == Len(e.lo)
      distinct == Cardinality({ e.x[i] : i \in 1..Len(e.x) }) = Len(e.x)
  IN Failing([ edges |-> SeqSame(e.lo, [i \in 1..Len(B) |-> B[i].lo]) /\ SeqSame(e.hi, [i \in 1..Len(B) |-> B[i].hi]) ]) \cup
     Failing(Counts(e, LAMBDA i : i = n)) \cup Failing(Partition(e)) \cup
     Failing([ means |-> \A i \in 1..n : MeanNear(e.mid[i], e.x, Within(e.x, e.lo[i], e.hi[i], i = n)),
               even |-> distinct => RLe(RSeqMax(e.hist) \ominus RSeqMin(e.hist), 1) ])
FixFails(e) ==
  LET B == IF e.log THEN LogBins(e.x, e.n) ELSE FixedBins(e.x, e.n)
      n == Len(e.lo)
      s == Scale(e.x)
  IN Failing([ edges |-> SeqNear(e.lo, [i \in 1..Len(B) |-> B[i].lo], s) /\ SeqNear(e.hi, [i \in 1..Len(B) |-> B[i].hi], s),
               middles |-> SeqNear(e.mid, [i \in 1..Len(B) |-> B[i].mid], s) ]) \cup
     Failing(Counts(e, LAMBDA i : i = n)) \cup Failing(Partition(e))
RoamNumFails(e) ==
  LET n == Len(e.lo)
      x == Sorted(e.x)
      rank(v) == CHOOSE k \in 1..Len(x) : REq(x[k], v)
      distinct == Cardinality({ x[i] : i \in 1..Len(x) }) = Len(x)
  IN Failing([ howmany |-> distinct /\ Len(x) > 2 * e.n => n = e.m,
               edges |-> \A i \in 1..n : /\ \E k \in 1..Len(x) : REq(x[k], e.lo[i])
                                         /\ \E k \in 1..Len(x) : REq(x[k], e.hi[i]),
               spacing |-> distinct => \A i \in 1..n :
                  /\ RNear(rank(e.hi[i]) - rank(e.lo[i]), RDiv(Len(x) - 1, e.n), 0, "1.01")
                  /\ e.m = n => RNear(rank(e.lo[i]) - 1, RDiv(((i - 1) * (Len(x) - 1)) * (e.n - 1), e.n * (e.m - 1)), 0, "1.01") ]) \cup
     Failing([ counts |-> \A i \in 1..n : REq(e.hist[i], Len(Within(e.x, e.lo[i], IF i = n THEN RSeqMax(x) ELSE e.hi[i], i = n))),
               means |-> \A i \in 1..n : MeanNear(e.mid[i], e.x, Within(e.x, e.lo[i], IF i = n THEN RSeqMax(x) ELSE e.hi[i], i = n)) ])
RoamFixFails(e) ==
  LET B == IF e.log THEN RoamLog(e.x, e.n, e.m) ELSE RoamFixed(e.x, e.n, e.m)
      n == Len(e.lo)
      s == Scale(e.x)
  IN Failing([ edges |-> SeqNear(e.lo, [i \in 1..Len(B) |-> B[i].lo], s) /\ SeqNear(e.hi, [i \in 1..Len(B) |-> B[i].hi], s),
               middles |-> SeqNear(e.mid, [i \in 1..Len(B) |-> B[i].mid], s),
               extremes |-> REq(e.lo[1], RSeqMin(e.x)) /\ RLe(RSeqMax(e.x), e.hi[n] \oplus RMul("1e-12", s)) ]) \cup
     Failing([ counts |-> \A i \in 1..n : REq(e.hist[i], Len(Within(e.x, e.lo[i], IF i = n THEN RMax(e.hi[i], RSeqMax(e.x)) ELSE e.hi[i], i = n))) ])
\* values with preset bins, or bins of their own
BinsOf(e) == IF e.own = "given" THEN Given(e) ELSE IF e.own = "num" THEN EqualBins(e.x, e.n)
             ELSE IF e.own = "log" THEN LogBins(e.x, e.n) ELSE FixedBins(e.x, e.n)
IndexFails(e) == LET B == Given(e)
                 IN Failing([ bin |-> Len(e.ret) = Len(e.x) /\ \A k \in 1..Len(e.x) : Covered(B, e.x[k]) =>
                                         LET i == e.ret[k] + 1
                                         IN i \in 1..Len(B) /\ RLe(B[i].lo, e.x[k]) /\ (RLt(e.x[k], B[i].hi) \/ (i = Len(B) /\ REq(e.x[k], B[i].hi))) ])
HistFails(e) ==
  LET B == BinsOf(e)
  IN Failing([ middles |-> SeqNear(e.rx, [i \in 1..Len(B) |-> B[i].mid], Scale(e.x)),
               counts |-> Len(e.rn) = Len(B) /\ \A i \in 1..Len(B) : REq(e.rn[i], Len(Members(B, e.x, i))) ])
SlopeFails(e) ==
  LET B == BinsOf(e)
      h == [i \in 1..Len(B) |-> Len(Members(B, e.x, i))]
      K == SelectSeq([i \in 1..Len(B) |-> i], LAMBDA i : h[i] > 0)
      dx(i) == RDiv(h[i], B[i].hi \ominus B[i].lo)
      f == TLCEval(LineFit([k \in 1..Len(K) |-> RLog10(B[K[k]].mid)], [k \in 1..Len(K) |-> RLog10(dx(K[k]))]))
  IN Failing([ middles |-> SeqNear(e.rx, [k \in 1..Len(K) |-> B[K[k]].mid], Scale(e.x)),
               counts |-> SeqNear(e.rn, [k \in 1..Len(K) |-> h[K[k]]], 1),
               density |-> Len(e.dx) = Len(K) /\ \A k \in 1..Len(K) : RNear(e.dx[k], dx(K[k]), "1e-9", 0),
               slope |-> RNear(e.fit[1], f.a, "1e-7", "1e-7") /\ RNear(e.fit[3], f.b, "1e-7", "1e-7"),
               errors |-> RNear(e.fit[2], f.ea, "1e-5", "1e-7") /\ RNear(e.fit[4], f.eb, "1e-5", "1e-7") ])
\* mean (or median) and spread of y over the occupied bins in x
ProfFails(e) ==
  LET B == BinsOf(e)
      M == TLCEval([i \in 1..Len(B) |-> Members(B, e.x, i)])
      K == SelectSeq([i \in 1..Len(B) |-> i], LAMBDA i : Len(M[i]) > 0)
      y(k) == PickOf(e.y, M[K[k]])
      s == Scale(e.y)
  IN IF Len(e.rx) # Len(K) \/ Len(e.ry) # Len(K) \/ Len(e.rs) # Len(K) THEN { "bins" }
     ELSE Failing([ middles |-> \A k \in 1..Len(K) : N9(e.rx[k], B[K[k]].mid, Scale(e.x)),
                    average |-> \A k \in 1..Len(K) : N9(e.ry[k], IF e.median THEN RMedian(y(k)) ELSE RMean(y(k)), s),
                    spread |-> \A k \in 1..Len(K) : RNear(e.rs[k], RStd(y(k)), "1e-7", RMul("1e-7", s)),
                    extremes |-> e.op = "smooth" => \A k \in 1..Len(K) : REq(e.ylo[k], RSeqMin(y(k))) /\ REq(e.yhi[k], RSeqMax(y(k))) ])
LineFails(e) == Failing([ line |-> LET t == IF e.by = "x" THEN RDiv(e.v \ominus e.p[1], e.q[1] \ominus e.p[1]) ELSE RDiv(e.v \ominus e.p[2], e.q[2] \ominus e.p[2])
                                       a == IF e.by = "x" THEN 2 ELSE 1
                                   IN RNear(e.ret, e.p[a] \oplus (t \otimes (e.q[a] \ominus e.p[a])), "1e-7", "1e-8") ])
Dist(a, b) == RNorm3([j \in 1..3 |-> a[j] \ominus b[j]])
NearFails(e) == Failing([ nearest |-> Len(e.ret) = Len(e.pts) /\ \A i \in 1..Len(e.pts) :
                            RNear(e.ret[i], RSeqMin([j \in 1..(Len(e.pts) - 1) |-> Dist(e.pts[i], e.pts[IF j < i THEN j ELSE j + 1])]), "1e-10", 0) ])
\* a sample drawn from p(x) ~ x^a on [lo, hi]: its empirical distribution stays close to the law
LawCdf(a, lo, hi, v) == IF RNear(a, "-1", 0, "1e-12") THEN RLn(v \oslash lo) \oslash RLn(hi \oslash lo)
                        ELSE LET t == a \oplus 1 IN (RPow(v, t) \ominus RPow(lo, t)) \oslash (RPow(hi, t) \ominus RPow(lo, t))
LawFails(e) ==
  LET s == Sorted(e.ret)
      n == Len(s)
  IN Failing([ howmany |-> n = e.n,
               range |-> RLe(e.lo \otimes "0.999999999", s[1]) /\ RLe(s[n], e.hi \otimes "1.000000001"),
               law |-> \A i \in 1..n : LET F == LawCdf(e.a, e.lo, e.hi, s[i])
                                       IN RLe(RAbs(F \ominus RDiv(2 * i - 1, 2 * n)), RDiv("2.6", RSqrt(n))) ])
TheFails(c0, c1, e) ==
  Failing([ arguments |-> e.same ]) \cup
  CASE e.op = "nbin" -> NbinFails(e)
    [] e.op = "fix" -> FixFails(e)
    [] e.op = "roamnum" -> RoamNumFails(e)
    [] e.op = "roamfix" -> RoamFixFails(e)
    [] e.op = "index" -> IndexFails(e)
    [] e.op = "hist" -> HistFails(e)
    [] e.op = "slope" -> SlopeFails(e)
    [] e.op \in {"prof", "smooth"} -> ProfFails(e)
    [] e.op = "line" -> LineFails(e)
    [] e.op = "nearest" -> NearFails(e)
    [] e.op = "law" -> LawFails(e)
=============================================================================
