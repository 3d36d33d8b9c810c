----------------------------- MODULE ScaleTrace -----------------------------
(* C28: quantities handed over between unit systems, judged by Scales.tla *)
EXTENDS Scales, TraceKit
TheInit(i) == << >>
ThePost(c, e) == c
TheFails(c0, c1, e) ==
  LET q == e.q
      want(i) == IF q.to = "radec" /\ q.kind = "length"
                 THEN Angle(InUnits("length", q.x[i], q.from, "kpckms", q.P), q.dist)
                 ELSE InUnits(q.kind, q.x[i], q.from, q.to, q.P)
      full == Len(e.y) = Len(q.x)
  IN Failing([ value |-> full /\ \A i \in 1..Len(q.x) : RNear(e.y[i], want(i), "1e-6", 0) ])
=============================================================================
