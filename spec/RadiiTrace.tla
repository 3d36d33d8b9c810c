----------------------------- MODULE RadiiTrace -----------------------------
(* C13, C14: recorded radii and relaxation times judged against Radii.tla    *)
EXTENDS Radii, Bins, TraceKit, FiniteSets
TheInit(i) == << >>
ThePost(c, e) == c
FrameOf(d, fn) == IF fn \in {"rcore", "risocore"} \/ d.o \notin {"cluster", "centre"} THEN "centre" ELSE d.o
Tol(d) == IF d.o = "galaxy" THEN "1e-6" ELSE "1e-9"
\* the cluster's stars in pc, km/s, Msun, in frame f
Phys(d, f) == LET c == FromRaw(d)
                  s == TLCEval(ReFrame(c, f))
              IN TLCEval([i \in 1..Len(s) |-> [m |-> s[i].m, w |-> Tuple6(s[i])]])
\* x is the radius of the smallest sphere holding at least num of every den of these equal stars
Exactly(r, x, num, den) ==
  LET lo == Cardinality({k \in 1..Len(r) : RLt(r[k], x \otimes "0.9999999")})
      hi == Cardinality({k \in 1..Len(r) : RLe(r[k], x \otimes "1.0000001")})
  IN lo * den < num * Len(r) /\ hi * den >= num * Len(r)
\* isothermal sphere: where the density over equal bins, one for each share of the stars, falls to a third of its innermost value
\* (half of it on the sky); judged where it falls below that once and for all
IsoShell(b, pro) == IF pro THEN RPi \otimes (RSq(b.hi) \ominus RSq(b.lo)) ELSE RMul(RDiv(4, 3), RPi) \otimes (RCube(b.hi) \ominus RCube(b.lo))
IsoCore(m, r, nrad, pro) ==
  LET B == TLCEval(EqualBins(r, nrad))
      n == Len(B)
      p == TLCEval([i \in 1..n |-> RSum(PickOf(m, Members(B, r, i))) \oslash IsoShell(B[i], pro)])
      c == IF pro THEN RMul("0.5", p[1]) ELSE RDiv(p[1], 3)
      K == SelectSeq([i \in 1..n |-> i], LAMBDA i : RLt(p[i], c))
      i == K[1]
      clear == \A j \in 1..n : ~RNear(p[j], c, "1e-6", 0)
  IN IF Len(K) = 0 \/ ~clear \/ Len(K) # n - i + 1 THEN [k |-> "none"]
     ELSE [k |-> "one", v |-> B[i - 1].mid \oplus (((c \ominus p[i - 1]) \otimes (B[i].mid \ominus B[i - 1].mid)) \oslash (p[i] \ominus p[i - 1]))]
RadiusFails(e) ==
  LET d == e.par
      q == e.q
      S == TLCEval(RawStars(d, FrameOf(d, e.op)))
      r == TLCEval(Rad(S, q.pro))
      l == Fac(d.u, d.P).l
      N(a, b) == RNear(a, b, Tol(d), "1e-300")
  IN CASE e.op = "rlagrange" ->
            Failing([ howmany |-> Len(e.ret) = q.n,
                      fractions |-> Len(e.ret) = q.n => \A k \in 1..(q.n - 1) : LagrangeTol(Masses(S), r, e.ret[k], RDiv(k, q.n), Tol(d)),
                      ties |-> q.tie /\ Len(e.ret) = q.n => \A k \in 1..(q.n - 1) : Exactly(r, e.ret[k], k, q.n),
                      outermost |-> Len(e.ret) = q.n => N(e.ret[q.n], RSeqMax(r)),
                      increasing |-> \A k \in 1..(Len(e.ret) - 1) : RLe(e.ret[k], e.ret[k + 1] \otimes "1.000000001") ])
       [] e.op = "rfraction" -> Failing([ fraction |-> LagrangeTol(Masses(S), r, e.ret[1], q.f, Tol(d)),
                                       ties |-> q.tie => Exactly(r, e.ret[1], q.num, Len(r)) ])
       [] e.op = "rvirial" -> Failing([ virial |-> N(e.ret[1], InverseDistance(S, q.pro)) ])
       [] e.op = "rcritical" ->
            LET T == Phys(d, FrameOf(d, e.op))
                o == Overdensity(T, q.pro, q.over \otimes CriticalDensity(q.H))
            IN Failing([ virial |-> o[1] = "ok" => RNear(e.ret[1], o[2] \otimes l, IF d.o = "galaxy" THEN "1e-5" ELSE "1e-7", 0) ])
       [] e.op = "risocore" -> LET w == IsoCore(Masses(S), r, q.nrad, q.pro)
                               IN Failing([ core |-> w.k = "one" => RNear(e.ret[1], w.v, "1e-6", 0) ])
       [] e.op = "rcore" -> Failing([ core |-> RNear(e.ret[1], CoreRadius(S, q.k, q.pro), IF d.o = "galaxy" THEN "1e-5" ELSE "1e-8", 0) ])
TimeFails(e) ==
  LET d == e.par
      q == e.q
      S == Phys(d, FrameOf(d, e.op))
      t == Fac(d.u, d.P).t
      w == CASE e.op = "trelax" -> SpitzerHart(S, q, IF q.rad.k = "none" THEN MassRadius(S, q.pro, "0.5")
                                                     ELSE q.rad.v \oslash Fac(d.u, d.P).l)
             [] e.op = "trh" -> HalfMassTime(S, q)
             [] OTHER -> CoreTime(S, q, CoreRadius(Phys(d, "centre"), 6, q.pro))
  IN Failing([ time |-> RNear(e.ret[1], w \otimes t, IF d.o = "galaxy" THEN "1e-5" ELSE "1e-7", 0) ])
TheFails(c0, c1, e) ==
  (IF e.op \in {"trelax", "trh", "trc"} THEN TimeFails(e) ELSE RadiusFails(e)) \cup
  Failing(StateClauses(FromRaw(e.par), e.after)) \cup
  Failing([ recorded |-> e.method => Len(e.kept) = Len(e.ret) /\ \A k \in 1..Len(e.ret) : RNear(e.kept[k], e.ret[k], 0, 0) ])
=============================================================================
