----------------------------- MODULE TwinTrace -----------------------------
(* C31: recorded twin clusters, one in pc and km/s and one in any other unit *)
(* system, judged by Twins.tla.                                              *)
EXTENDS Answers, TraceKit
\* what: sequence of [u |-> label of an AMUSE quantity or "", v |-> numbers]
TheInit(i) == [o |-> i.o]
ThePost(c, e) == [o |-> e.plain.o]
AllIn(k, p, t, u, P, tol) ==
  /\ Len(p) = Len(t)
  /\ LET f == TLCEval(FactorOf(k, u, P))
         big == TLCEval(IF Len(p) = 0 THEN "0" ELSE RSeqMax([i \in 1..Len(p) |-> IF RFinite(p[i]) THEN RAbs(p[i]) ELSE "0"]))
     IN \A i \in 1..Len(p) : RNear(t[i], p[i] \otimes f, tol, (big \otimes f) \otimes tol)
Labelled(k, a, u) == k \in {"any", "tie"} \/ a.u = (IF u = "amuse" /\ k # "number" THEN k ELSE "")
TheFails(c0, c1, e) ==
  LET kinds == AnswerKinds(e.op, e.q)
      n == Len(e.plain.a)
  IN Failing([ whole   |-> Len(e.twin.a) = n /\ (n > 0 => n = Len(kinds)),
               dimension |-> (Len(e.twin.a) = n /\ n = Len(kinds)) => \A i \in 1..n : Labelled(kinds[i], e.twin.a[i], e.twin.u),
               answer  |-> (Len(e.twin.a) = n /\ n = Len(kinds)) =>
                             \A i \in 1..n : kinds[i] = "tie" \/ (kinds[i] = "any" /\ e.twin.u \in {"galpy", "nbody", "WDunits"}) \/ AllIn(kinds[i], e.plain.a[i].v, e.twin.a[i].v, e.twin.u, e.P, e.tol),
               state   |-> \A k \in DOMAIN e.plain.s :
                             AllIn(Attribute(k), e.plain.s[k].v, e.twin.s[k].v, e.twin.u, e.P, e.tol),
               quantities |-> \A k \in DOMAIN e.twin.s : Labelled(Attribute(k), e.twin.s[k], e.twin.u),
               frame   |-> e.plain.o = e.twin.o /\ e.plain.u = "pckms" /\ e.twin.u = e.u,
               origin  |-> e.op \in {"move", "start"} \/ e.plain.o = c0.o ])
=============================================================================
