------------------------------- MODULE Orbits -------------------------------
(* The Galactic orbit of a StarCluster: actions that record it, and motion   *)
(* of the cluster and of its stars in an external potential.                 *)
(*                                                                           *)
(* The motion oracle is an isotropic harmonic potential of natural frequency *)
(* k (in vo/ro): the only one whose trajectories are known in closed form    *)
(* for every initial condition, so that propagation can be judged exactly.   *)
EXTENDS StarCluster

\* the scales used by a call: the cluster's own unless the caller gives others
UseScales(P, g) == [P EXCEPT !.ro = g.ro, !.vo = g.vo, !.zo = g.zo, !.sx = g.sx, !.sy = g.sy, !.sz = g.sz]

\* an orbit given as six numbers in the units ou becomes the cluster's orbit
RecordOrbit(c, ou, w) == [c EXCEPT !.gc = Unscaled(c.P, ou, w)]
RecordTime(c, ou, t)  == [c EXCEPT !.t = t \oslash Fac(ou, c.P).t]

StartOf(c, fromcentre) == IF fromcentre THEN PVAdd(c.gc, c.cen) ELSE c.gc

\* position and velocity after a time T (Myr)
Phase(P, k, T) == (k \otimes T) \oslash GalpyTime(P)
Moved(P, k, q, T) ==
  LET f == Phase(P, k, T)
      w == (k \otimes P.vo) \oslash (P.ro \otimes 1000)        \* km/s per pc
      cs == RCos(f)
      sn == RSin(f)
  IN PV(Add3(Scale3(cs, q.p), Scale3(sn \oslash w, q.v)),
        Sub3(Scale3(cs, q.v), Scale3(sn \otimes w, q.p)))

\* the cluster as a whole moves to g: stars keep their places in it
CarryTo(c, g) ==
  LET d == PVSub(g, c.gc)
  IN [c EXCEPT !.gc = g,
               !.st = IF Frame(c) = "galaxy"
                      THEN [i \in 1..Len(c.st) |-> [c.st[i] EXCEPT !.p = Add3(@, d.p), !.v = Add3(@, d.v)]]
                      ELSE @]
MoveCluster(c, P, k, T, fc) == CarryTo(c, Moved(P, k, StartOf(c, fc), T))
\* every star moves on its own orbit; stars of a cluster seen in the Galaxy take the cluster with them
MoveStars(c, P, k, T) ==
  [c EXCEPT !.st = [i \in 1..Len(c.st) |->
                      LET q == Moved(P, k, PV(c.st[i].p, c.st[i].v), T) IN [c.st[i] EXCEPT !.p = q.p, !.v = q.v]],
            !.gc = IF Frame(c) = "galaxy" THEN Moved(P, k, @, T) ELSE @]
\* times asked for in the cluster's units
Myr(c, t) == t \oslash Fac(c.u, c.P).t
=============================================================================
