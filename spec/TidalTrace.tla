----------------------------- MODULE TidalTrace -----------------------------
(* C26: recorded tidal and limiting radii judged by Tidal.tla                *)
EXTENDS Tidal, Scales, TraceKit
TheInit(i) == << >>
ThePost(c, e) == c
TheFails(c0, c1, e) ==
  LET c == TLCEval(FromRaw(e.pre))
      P == c.P
      S == TLCEval(ReFrame(c, IF c.o = "cluster" THEN "cluster" ELSE "centre"))
      kpc == P.ro \otimes 1000
      q == e.q
      J == SelectSeq([k \in 1..Len(S) |-> k], LAMBDA k : q.mask.k = "none" \/ q.mask.v[k])
      m == [k \in 1..Len(J) |-> S[J[k]].m \oslash GalpyMass(P)]
      r == [k \in 1..Len(J) |-> (IF q.pro THEN RNorm2(S[J[k]].p) ELSE RNorm3(S[J[k]].p)) \oslash kpc]
      g == IF q.centre THEN Add3(c.gc.p, c.cen.p) ELSE c.gc.p
      R == IF q.rgc.k = "one" THEN q.rgc.v \oslash P.ro ELSE RNorm2(g) \oslash kpc
      z == IF q.zgc.k = "one" THEN q.zgc.v \oslash P.ro ELSE g[3] \oslash kpc
      x == IF e.op = "rtidal" THEN TidalRadius(Tide(q.pot, R, z), TLCEval(m), TLCEval(r), q.n, q.conv)
           ELSE LimitingRadius(Background(q.pot, R, z), TLCEval(m), TLCEval(r), q.nrad, q.pro)
      pc == x \otimes kpc
      want == IF c.u = "radec" THEN Angle(pc \oslash 1000, Sky(c, c.gc)[3]) ELSE InUnits("length", pc, "pckms", c.u, P)
  IN Failing([ radius |-> RNear(e.rad, want, "1e-4", 0), recorded |-> e.method => REq(e.attr, e.rad),
               given |-> e.same ])
     \cup Failing(StateClauses(FromRaw(e.pre), e.after))
=============================================================================
