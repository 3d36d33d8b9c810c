---------------------------- MODULE RescaleTrace ---------------------------
(* C11: virialising, rotating and finding N-body scales of a StarCluster,    *)
(* interleaved with conversions.                                             *)
EXTENDS Energies, TraceKit

\* the frame a rescaling works in, and back
Work(c) == IF c.o \in {"cluster", "centre"} THEN c.o ELSE "centre"
InFrame(c, f) == [i \in 1..Len(c.st) |-> [id |-> c.st[i].id, m |-> c.st[i].m, w |-> Tuple6(ReFrame(c, f)[i])]]
\* canonical state whose stars, in frame f, have velocities vs
WithVelocities(c, f, vs) ==
  LET d == PVSub(OffsetOf(c, Frame(c)), OffsetOf(c, f))
  IN [c EXCEPT !.st = [i \in 1..Len(@) |-> [@[i] EXCEPT !.v = Sub3(vs[i], d.v)]]]
Vel(s) == << s.w[4], s.w[5], s.w[6] >>

\* ---- virialise: one factor for all velocities
Factor(c, q) ==
  LET S == TLCEval(InFrame(c, Work(c)))
      f == Fac(c.u, c.P)
      \* the softening is a length in the cluster's units; the ratio uses the cluster's gravitational constant
      R == [i \in 1..Len(S) |-> [m |-> S[i].m \otimes f.m, w |-> [j \in 1..6 |-> S[i].w[j] \otimes (IF j < 4 THEN f.l ELSE f.v)]]]
  IN RSqrt(q.qvir \oslash RAbs(VirialRatio(TLCEval(R), GravIn(c.u), q.eps, q.pro, q.sp)))
Virialised(c, q) ==
  LET k == TLCEval(Factor(c, q))
      S == InFrame(c, Work(c))
  IN WithVelocities(c, Work(c), [i \in 1..Len(S) |-> Scale3(k, Vel(S[i]))])

\* ---- rotation: tangential velocities of some stars that rotate backwards are reversed
Tangential(s) == ((s.w[1] \otimes s.w[5]) \ominus (s.w[2] \otimes s.w[4])) \oslash RNorm2(s.w)
Reversed(s) == LET k == 2 \otimes Tangential(s)
                   R == RNorm2(s.w)
               IN << s.w[4] \oplus ((k \otimes s.w[2]) \oslash R), s.w[5] \ominus ((k \otimes s.w[1]) \oslash R), s.w[6] >>
Flip(c, e, i, S) ==   \* shown velocity is that of the reversed star
  LET f == Fac(c.u, c.P)
      d == PVSub(OffsetOf(c, Frame(c)), OffsetOf(c, Work(c)))
      v == Sub3(Reversed(S[i]), d.v)
  IN \A j \in 1..3 : RNear(e.obs.x[i][3 + j], v[j] \otimes f.v, "1e-9", AtolV(c))
Flips(c, e) == LET S == TLCEval(InFrame(c, Work(c)))
               IN [i \in 1..Len(S) |-> Len(e.obs.x) = Len(S) /\ RLt(Tangential(S[i]), 0) /\ Flip(c, e, i, S)]
Rotated(c, e) ==
  LET S == TLCEval(InFrame(c, Work(c)))
      F == TLCEval(Flips(c, e))
  IN WithVelocities(c, Work(c), [i \in 1..Len(S) |-> IF F[i] THEN Reversed(S[i]) ELSE Vel(S[i])])

\* ---- N-body scales of the cluster's own stars
VirialRadius(S, pro) == RSq(RSum([i \in 1..Len(S) |-> S[i].m])) \oslash (2 \otimes PairSum(S, pro))
ScaleClauses(c, P0, P, q) ==
  LET S == TLCEval(InFrame(c, Work(c)))
  IN [ scalemass |-> IF q.mass THEN RNear(P.zm, MTot(c), "1e-9", 0) ELSE RNear(P.zm, P0.zm, "1e-14", 0),
       scaleradius |-> CASE ~q.radii -> RNear(P.rb, P0.rb, "1e-14", 0)
                         [] q.radii /\ q.rvirial -> RNear(P.rb, VirialRadius(S, q.pro), "1e-8", 0)
                         [] OTHER -> LagrangeTol([i \in 1..Len(S) |-> S[i].m],
                                                 [i \in 1..Len(S) |-> IF q.pro THEN RNorm2(S[i].w) ELSE RNorm3(S[i].w)],
                                                 RMul("0.75", P.rb), "0.5", "1e-7"),
       scalespeed |-> RNear(P.vb, RMul("0.06557", RSqrt(P.zm \oslash P.rb)), "1e-9", 0),
       scaletime |-> RNear(P.tb, P.rb \oslash RMul("1.023", P.vb), "1e-9", 0),
       \* in these units the gravitational constant is one (to the digits of the published scale)
       gravity |-> RNear((Grav0 \otimes P.zm) \oslash (P.rb \otimes RSq(P.vb)), 1, "2e-3", 0) ]

TheInit(i) == FromRaw(i)
ThePost(c, e) ==
  CASE e.op = "virialize" -> IF e.method THEN Virialised(c, e.q) ELSE c
    [] e.op = "rotate" -> Rotated(c, e)
    [] e.op = "scales" -> [c EXCEPT !.P = e.P]
    [] e.op = "units" -> ToUnits(c, e.u)
    [] e.op = "origin" -> ToOrigin(c, e.o)
    [] OTHER -> c
\* derived attributes follow the new coordinates
Derived(e) == DerivedClauses([fresh |-> TRUE, sorted |-> FALSE], e.obs)
TheFails(c0, c, e) ==
  Failing(StateClauses(c, e.obs)) \cup
  (CASE e.op = "virialize" -> Failing([ factor |-> RNear(e.qv, Factor(c0, e.q), "1e-7", 0) ]) \cup Failing(Derived(e))
     [] e.op = "rotate" ->
          LET F == TLCEval(Flips(c0, e))
              S == TLCEval(InFrame(c0, Work(c0)))
              back == Len(SelectSeq(S, LAMBDA s : RLt(Tangential(s), 0)))
              did == Len(SelectSeq(F, LAMBDA b : b))
              sd == RSqrt(e.qrot \otimes (1 \ominus e.qrot) \otimes back)
          IN Failing([ none |-> REq(e.qrot, 0) => did = 0,
                       all  |-> REq(e.qrot, 1) => did = back,
                       \* each of them with the requested probability
                       fraction |-> RLe(RAbs(did \ominus (e.qrot \otimes back)), RMul("6.5", sd) \oplus "1e-9"),
                       remembered |-> RNear(e.kept, e.qrot, 0, 0) ]) \cup Failing(Derived(e))
     [] e.op = "turned" ->   \* the same, as a function: what it returns is seen from the centre, and the cluster stays
          LET S == TLCEval(InFrame(c0, Work(c0)))
              f == Fac(c0.u, c0.P)
              own == Len(e.ret) = Len(S) /\ \A i \in 1..Len(S) : Len(e.ret[i]) = 6
              to(i, v) == \A j \in 1..3 : RNear(e.ret[i][3 + j], v[j] \otimes f.v, "1e-9", AtolV(c0))
              F == TLCEval([i \in 1..Len(S) |-> own /\ RLt(Tangential(S[i]), 0) /\ to(i, Reversed(S[i]))])
              back == Len(SelectSeq(S, LAMBDA s : RLt(Tangential(s), 0)))
              did == Len(SelectSeq(F, LAMBDA b : b))
          IN Failing([ everyone |-> own,
                       places |-> own => \A i \in 1..Len(S) : \A j \in 1..3 : RNear(e.ret[i][j], S[i].w[j] \otimes f.l, "1e-9", AtolP(c0)),
                       motions |-> own => \A i \in 1..Len(S) : F[i] \/ to(i, Vel(S[i])),
                       none |-> REq(e.qrot, 0) => did = 0,
                       all  |-> REq(e.qrot, 1) => did = back ])
     [] e.op = "scales" -> Failing(ScaleClauses(c0, c0.P, e.P, e.q)) \cup
                           Failing([ returned |-> ~e.method => REq(e.ret[1], e.P.zm) /\ REq(e.ret[2], e.P.rb) /\ REq(e.ret[3], e.P.vb) /\ REq(e.ret[4], e.P.tb) ])
     [] OTHER -> {})
=============================================================================
