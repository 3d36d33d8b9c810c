----------------------------- MODULE TailTrace -----------------------------
(* C24: recorded path matches, tail paths and tail orientations judged by    *)
(* Tails.tla                                                                 *)
EXTENDS Tails, Scales, StarCluster, TraceKit
TheInit(i) == << >>
ThePost(c, e) == c

PathP(P, q) == [P EXCEPT !.ro = q.g.ro, !.vo = q.g.vo, !.zo = q.g.zo, !.sx = q.g.sx, !.sy = q.g.sy, !.sz = q.g.sz]
\* the path in kpc and km/s (or degrees), and the stars beside it; times stay in the units of the cluster
PathOf(c, e) ==
  LET l == InUnits("length", "1.0", c.u, "kpckms", c.P)
      k == InUnits("velocity", "1.0", c.u, "kpckms", c.P)
      w == e.path
      n == Len(w[1])
      fl == IF e.q.sky THEN "1.0" ELSE l
      fv == IF e.q.sky THEN "1.0" ELSE k
  IN [t |-> w[1], p |-> [i \in 1..n |-> << w[2][i] \otimes fl, w[3][i] \otimes fl, w[4][i] \otimes fl >>],
      v |-> [i \in 1..n |-> << w[5][i] \otimes fv, w[6][i] \otimes fv, w[7][i] \otimes fv >>]]
Galactic(c) == ReFrame(c, "galaxy")
Beside(c, sky) == LET S == Galactic(c)
                  IN TLCEval([i \in 1..Len(S) |-> IF sky THEN Sky(c, PV(S[i].p, S[i].v)) ELSE Kpc(S[i].p)])
\* results are judged to 1e-7 of the size of what is compared
MatchFails(c, e) ==
  LET q == e.q
      path == TLCEval(PathOf(c, e))
      S == Beside(c, q.sky)
      n == Len(S)
      flat == q.pro \/ q.sky
      size == RSeqMax([i \in 1..n |-> RNorm3(S[i])] \o [i \in 1..Len(path.p) |-> RNorm3(path.p[i])])
      tol == "1e-8" \otimes size
      arc == ArcLength(path, flat)
      full == Len(e.tstar) = n /\ Len(e.dprog) = n /\ Len(e.dpath) = n
      f == IF q.sky THEN "1.0" ELSE InUnits("length", "1.0", c.u, "kpckms", c.P)
      span == RSeqMax([i \in 1..Len(path.t) |-> RAbs(path.t[i])])
      \* the point each star is matched to, by its time
      M == TLCEval([k \in 1..(IF full THEN n ELSE 0) |-> Least([i \in 1..Len(path.t) |-> RAbs(path.t[i] \ominus e.tstar[k])], 0)[1]])
      D == TLCEval([k \in 1..Len(M) |-> Separations(path, flat, S[k])])
  IN Failing([ count |-> full,
               time  |-> full => \A k \in 1..n : RNear(path.t[M[k]], e.tstar[k], "1e-9", "1e-9" \otimes span),
               nearest |-> full => \A k \in 1..n : RNear(D[k][M[k]], RSeqMin(D[k]), "1e-7", tol),
               along |-> full => \E j \in 1..Len(Progenitors(path)) : \A k \in 1..n :
                            RNear(e.dprog[k] \otimes f, arc[M[k]] \ominus arc[Progenitors(path)[j]], "1e-7", tol),
               away  |-> full => \A k \in 1..n :
                            RNear(RAbs(e.dpath[k] \otimes f), IF q.topath THEN Aside(path, flat, M[k], S[k]) ELSE D[k][M[k]], "1e-6", tol),
               side  |-> (full /\ ~flat) => \A k \in 1..n :
                            LET s == SideOf(path, M[k], S[k])
                            IN D[k][M[k]] \preceq ("10.0" \otimes tol) \/ RLe(RAbs(s), "1e-7" \otimes SideScale(path, M[k], S[k])) \/ RLe(0, s) = RLe(0, e.dpath[k]),
               kept  |-> e.method => (e.kept[1] = e.tstar /\ e.kept[2] = e.dprog /\ e.kept[3] = e.dpath) ])

\* the sky coordinates of a mean of stars
SkyNear(w, s) ==
  LET da == RAbs(w[1] \ominus s[1])
      turn == RMin(da, RAbs(da \ominus 360)) \otimes RCos(s[2] \oslash RDeg)
  IN /\ RLe(turn, "1e-6") /\ RNear(w[2], s[2], 0, "1e-6") /\ RNear(w[3], s[3], "1e-7", "1e-6")
     /\ \A j \in 4..6 : RNear(w[j], s[j], "1e-6", "1e-5")
TailFails(c, e) ==
  LET q == e.q
      path == TLCEval(PathOf(c, e))
      S == Beside(c, q.sky)
      G == TLCEval(Galactic(c))
      n == Len(S)
      flat == q.pro \/ q.sky
      B == TailBins(path.t, q)
      M == TLCEval([k \in 1..n |-> NearestPoint(path, flat, S[k])])
      away == TLCEval([k \in 1..n |-> IF q.topath THEN Aside(path, flat, M[k], S[k]) ELSE Dist(flat, Sub3(S[k], path.p[M[k]]))])
      J == TLCEval(SelectSeq([k \in 1..n |-> k], LAMBDA k : q.dmax.k = "none" \/ RLe(away[k], q.dmax.v \otimes InUnits("length", "1.0", c.u, "kpckms", c.P))))
      Of(i) == SelectSeq(J, LAMBDA k : InTailBin(B, q, i, path.t[M[k]]))
      I == TLCEval(SelectSeq([i \in 1..Len(B) |-> i], LAMBDA i : Len(Of(i)) > 0))
      full == Len(e.t) = Len(I) /\ \A j \in 1..6 : Len(e.w[j]) = Len(I)
      mean(i) == LET K == Of(i)
                 IN PV([j \in 1..3 |-> RMean([a \in 1..Len(K) |-> G[K[a]].p[j]])], [j \in 1..3 |-> RMean([a \in 1..Len(K) |-> G[K[a]].v[j]])])
      got(a) == [j \in 1..6 |-> e.w[j][a]]
      span == RSeqMax([i \in 1..Len(path.t) |-> RAbs(path.t[i])])
  IN Failing([ bins  |-> full,
               times |-> full => \A a \in 1..Len(I) : RNear(e.t[a], B[I[a]].mid, "1e-7", "1e-9" \otimes span),
               means |-> full => \A a \in 1..Len(I) :
                           LET x == mean(I[a])
                           IN IF q.sky THEN SkyNear(got(a), SkyOf(PathP(c.P, q), Kpc(x.p), x.v))
                              ELSE Near6(got(a), Scaled(c, x), "1e-8" \otimes SizePos(c) \otimes Fac(c.u, c.P).l, "1e-8" \otimes SizeVel(c) \otimes Fac(c.u, c.P).v),
               kept  |-> e.method => (e.kept[1] = e.t /\ \A j \in 1..6 : e.kept[j + 1] = e.w[j]) ])

\* Rodrigues: w turned by the angle with cosine co and sine si about the unit axis a
Turned(a, co, si, w) == Add3(Add3(Scale3(co, w), Scale3(si, Cross(a, w))), Scale3(Dot3(a, w) \otimes (1 \ominus co), a))
Aligned(c, e, si) ==   \* every star turned by the angle between the motion and the x axis
  LET v == c.gc.v
      h == Scale3(1 \oslash RNorm3(v), v)
      axis == Cross(h, << "1.0", "0.0", "0.0" >>)
      sn == RNorm3(axis)
      a == Scale3(1 \oslash sn, axis)
      S == ReFrame(c, IF c.o = "cluster" THEN "cluster" ELSE "centre")
      ap == "1e-8" \otimes SizePos(c) \otimes Fac(c.u, c.P).l
      av == "1e-8" \otimes SizeVel(c) \otimes Fac(c.u, c.P).v
  IN \A i \in 1..Len(S) : Near6([j \in 1..6 |-> e.w[j][i]],
                                Scaled(c, PV(Turned(a, h[1], si \otimes sn, S[i].p), Turned(a, h[1], si \otimes sn, S[i].v))), ap, av)
OrientFails(c, e) ==
  LET n == Len(c.st)
      full == \A j \in 1..6 : Len(e.w[j]) = n
      three(k, i) == << e.w[k][i], e.w[k + 1][i], e.w[k + 2][i] >>
  IN Failing([ count |-> full,
               turned |-> full => (Aligned(c, e, "1.0") \/ Aligned(c, e, "-1.0")),
               \* judged in the directed scenario only: the motion ends up along x
               along |-> (full /\ e.strict) => Aligned(c, e, "1.0"),
               radii |-> (full /\ e.method) => (Len(e.r) = n /\ Len(e.v) = n /\ \A i \in 1..n : RNear(e.r[i], RNorm3(three(1, i)), "1e-9", 0) /\ RNear(e.v[i], RNorm3(three(4, i)), "1e-9", 0)) ])

TheFails(c0, c1, e) ==
  LET c == TLCEval(FromRaw(e.pre))
  IN (CASE e.op = "match" -> MatchFails(c, e)
        [] e.op = "tail"  -> TailFails(c, e)
        [] e.op = "orient" -> OrientFails(c, e)
        [] OTHER -> {})
     \cup Failing(StateClauses(FromRaw(e.pre), e.after))
=============================================================================
