---------------------------- MODULE StarCluster ----------------------------
(* The state machine of a StarCluster.                                       *)
(*                                                                           *)
(* Abstract state c (all quantities canonical: pc, km/s, Msun, Myr):         *)
(*   u, o    unit system and origin the cluster is currently expressed in    *)
(*   st      sequence of stars [id, m, p, v], in the frame Frame(c)          *)
(*   cen     centre [p, v] relative to the orbit position                    *)
(*   gc      orbit position and velocity [p, v] in the Galaxy                *)
(*   t       time                                                            *)
(*   P       scales (Units.tla)                                              *)
(*   fresh   the derived attributes must describe the current coordinates    *)
(*   sorted  the radial orders must describe the current coordinates         *)
(*   sv      saved (units, origin), or << >>                                 *)
(*   cm, vm  way sky offsets are projected: asked for, and used by the view  *)
(*   tol     numerical tolerance: wider once the history went through the sky*)
(*                                                                           *)
(* Conversions never touch the canonical state: they change how it is viewed *)
(* (View), so path independence and reversibility are built in and the real  *)
(* code has to show them.                                                    *)
EXTENDS Units, ClusterControl

Frame(c) == IF c.u = "radec" THEN "galaxy" ELSE c.o

Zero6 == [p |-> << "0.0", "0.0", "0.0" >>, v |-> << "0.0", "0.0", "0.0" >>]
PV(p, v) == [p |-> p, v |-> v]
PVAdd(a, b) == PV(Add3(a.p, b.p), Add3(a.v, b.v))
PVSub(a, b) == PV(Sub3(a.p, b.p), Sub3(a.v, b.v))

\* offset of a frame's zero point from the cluster (orbit) frame
OffsetOf(c, f) == CASE f = "centre"  -> c.cen
                    [] f = "galaxy"  -> PVSub(Zero6, c.gc)
                    [] OTHER         -> Zero6
ReFrame(c, f) ==   \* stars re-expressed in frame f
  IF Frame(c) = f \/ Frame(c) = "none" THEN c.st
  ELSE LET d == PVSub(OffsetOf(c, Frame(c)), OffsetOf(c, f))
       IN [i \in 1..Len(c.st) |-> [c.st[i] EXCEPT !.p = Add3(@, d.p), !.v = Add3(@, d.v)]]

SkyTol == "1e-8"

\* move to (u, o): the stars are re-expressed in the frame this implies, nothing else changes
MoveTo(c, uo) ==
  LET f == IF uo[1] = "radec" THEN "galaxy" ELSE uo[2]
  IN [c EXCEPT !.u = uo[1], !.o = uo[2], !.st = ReFrame(c, f),
               !.vm = IF c.u # uo[1] \/ c.o # uo[2] THEN c.cm ELSE @,
               !.tol = IF uo[1] = "radec" /\ RLt(@, SkyTol) THEN SkyTol ELSE @]
ToUnits(c, u) == MoveTo(c, CtlUnits(c, u))
\* offsets on the sky are projected in the way last asked for, even where the cluster stays
ToOrigin(c, o) == LET d == MoveTo(c, CtlOrigin(c, o))
                  IN IF d.u = "radec" /\ o \in {"cluster", "centre"} THEN [d EXCEPT !.vm = d.cm] ELSE d

ReturnTo(c, u, o) ==
  LET c1 == IF c.u # u THEN ToUnits(c, u) ELSE c
  IN IF c1.o # o THEN ToOrigin(c1, o) ELSE c1

\* centre of mass, as a position/velocity in the frame the stars are in
MTot(c) == RSum([i \in 1..Len(c.st) |-> c.st[i].m])
ComOf(c) ==
  LET w(j, f(_)) == RSum([i \in 1..Len(c.st) |-> c.st[i].m \otimes f(c.st[i])[j]]) \oslash MTot(c)
      pf(s) == s.p
      vf(s) == s.v
  IN PV([j \in 1..3 |-> w(j, pf)], [j \in 1..3 |-> w(j, vf)])

IsZero(a) == \A j \in 1..3 : REq(a.p[j], 0) /\ REq(a.v[j], 0)

\* recording a centre q, known in the current frame: in the Galaxy it becomes the orbit
\* position if there was none (or on request), otherwise an offset from it
SetCentre(c, q, reset) ==
  CASE c.o = "cluster" \/ c.o = "none" -> [c EXCEPT !.cen = q]
    [] c.o = "galaxy" -> IF IsZero(c.gc) \/ reset
                         THEN [c EXCEPT !.gc = q, !.cen = Zero6]
                         ELSE [c EXCEPT !.cen = PVSub(q, c.gc)]
    [] OTHER -> c

(* ------------------------------- the view -------------------------------- *)
Kpc(x) == Scale3("0.001", x)
Sky(c, q) == SkyOf(c.P, Kpc(q.p), q.v)
Tuple6(q) == << q.p[1], q.p[2], q.p[3], q.v[1], q.v[2], q.v[3] >>
Scaled(c, q) == LET f == Fac(c.u, c.P) IN Tuple6(PV(Scale3(f.l, q.p), Scale3(f.v, q.v)))

\* reading raw values shown in units u (radec: sky coordinates) back into canonical quantities
Unscaled(P, u, w) == LET f == Fac(u, P)
                         q == PV([j \in 1..3 |-> w[j] \oslash f.l], [j \in 1..3 |-> w[j + 3] \oslash f.v])
                     IN IF u = "radec" THEN LET g == FromSky(P, w) IN PV(Scale3("1000.0", g[1]), g[2]) ELSE q

RawPV(P, u, w) == Unscaled(P, u, w)
\* the canonical state of a cluster that shows the raw values i
FromRaw(i) ==
  LET f == Fac(i.u, i.P)
  IN [ u |-> i.u, o |-> i.o, P |-> i.P,
       st |-> [k \in 1..Len(i.x) |->
                 LET q == RawPV(i.P, i.u, i.x[k])
                 IN [id |-> i.id[k], m |-> i.m[k] \oslash f.m, p |-> q.p, v |-> q.v]],
       cen |-> IF i.u = "radec" THEN PVSub(RawPV(i.P, i.u, i.cen), RawPV(i.P, i.u, i.gc))
               ELSE RawPV(i.P, i.u, i.cen),
       gc |-> RawPV(i.P, i.u, i.gc),
       t |-> i.t \oslash f.t, fresh |-> TRUE, cm |-> i.cm, vm |-> i.cm, sorted |-> i.sorted, sv |-> << >>,
       tol |-> IF i.u = "radec" THEN SkyTol ELSE "1e-11" ]

\* stars added to a cluster, given as it shows its own
AddTo(c, w) == [c EXCEPT !.st = @ \o [k \in 1..Len(w.x) |->
                  LET q == RawPV(c.P, c.u, w.x[k]) IN [id |-> w.id[k], m |-> w.m[k] \oslash Fac(c.u, c.P).m, p |-> q.p, v |-> q.v]]]

GcView(c)  == IF c.u = "radec" THEN Sky(c, c.gc) ELSE Scaled(c, c.gc)
CenView(c) == IF c.u = "radec" THEN Sky(c, PVAdd(c.gc, c.cen)) ELSE Scaled(c, c.cen)
\* offsets on the sky from z: scaled differences, or on the plane tangent to the sky at z; proper
\* motions are differences, rotated into the tangent plane by the orthographic method
SkyOffset(m, s, z) ==
  LET da == (s[1] \ominus z[1]) \oslash RDeg
      d == s[2] \oslash RDeg
      d0 == z[2] \oslash RDeg
      X == RCos(d) \otimes RSin(da)
      Y == (RSin(d) \otimes RCos(d0)) \ominus (RCos(d) \otimes RSin(d0) \otimes RCos(da))
      pa == (s[4] \otimes RCos(da)) \ominus (s[5] \otimes RSin(d) \otimes RSin(da))
      pd == (s[4] \otimes RSin(d0) \otimes RSin(da)) \oplus
            (s[5] \otimes ((RCos(d) \otimes RCos(d0)) \oplus (RSin(d) \otimes RSin(d0) \otimes RCos(da))))
      plain == [j \in 1..6 |-> s[j] \ominus z[j]]
  IN CASE m = "orthographic" -> << X \otimes RDeg, Y \otimes RDeg, plain[3], pa \ominus z[4], pd \ominus z[5], plain[6] >>
       [] m = "VandeVen"     -> << X \otimes RDeg, Y \otimes RDeg, plain[3], plain[4], plain[5], plain[6] >>
       [] OTHER              -> [plain EXCEPT ![1] = @ \otimes RCos(d0)]
StarView(c, i) ==
  LET q == PV(c.st[i].p, c.st[i].v)
  IN IF c.u # "radec" THEN Scaled(c, q)
     ELSE CASE c.o = "cluster" -> SkyOffset(c.vm, Sky(c, q), GcView(c))
            [] c.o = "centre"  -> SkyOffset(c.vm, Sky(c, q), CenView(c))
            [] OTHER           -> Sky(c, q)

(* ----------------- clauses on what the real object shows ------------------ *)
\* obs.x = sequence of <<x,y,z,vx,vy,vz>>, obs.m, obs.id, obs.cen, obs.gc, obs.t, obs.u, obs.o,
\* obs.d = derived attributes, obs.ord = radial orders (1-based)
SizePos(c) == 1 \oplus RSeqMax(<< RNorm3(c.gc.p), RNorm3(c.cen.p) >> \o [i \in 1..Len(c.st) |-> RNorm3(c.st[i].p)])
SizeVel(c) == 1 \oplus RSeqMax(<< RNorm3(c.gc.v), RNorm3(c.cen.v) >> \o [i \in 1..Len(c.st) |-> RNorm3(c.st[i].v)])
AtolP(c) == IF c.u = "radec" THEN "1e-7" ELSE c.tol \otimes SizePos(c) \otimes Fac(c.u, c.P).l
AtolV(c) == IF c.u = "radec" THEN "1e-6" ELSE c.tol \otimes SizeVel(c) \otimes Fac(c.u, c.P).v

Near6(a, b, ap, av) == /\ \A j \in 1..3 : RNear(a[j], b[j], "1e-9", ap)
                       /\ \A j \in 4..6 : RNear(a[j], b[j], "1e-9", av)

StateClauses(c, obs) ==
  LET ap == AtolP(c)
      av == AtolV(c)
      f == Fac(c.u, c.P)
      n == Len(c.st)
  IN [ units    |-> obs.u = c.u,
       origin   |-> obs.o = c.o,
       count    |-> /\ Len(obs.x) = n /\ Len(obs.m) = n /\ Len(obs.id) = n,
       ids      |-> Len(obs.id) = n => \A i \in 1..n : obs.id[i] = c.st[i].id,
       mass     |-> Len(obs.m) = n => \A i \in 1..n : RNear(obs.m[i], c.st[i].m \otimes f.m, "1e-9", 0),
       stars    |-> Len(obs.x) = n => \A i \in 1..n : Near6(obs.x[i], StarView(c, i), ap, av),
       centre   |-> Near6(obs.cen, CenView(c), ap, av),
       orbit    |-> Near6(obs.gc, GcView(c), ap, av),
       time     |-> RNear(obs.t, c.t \otimes f.t, "1e-9", "1e-15") ]

\* mass inside radius, with the radii known to relative precision only
Inside(ms, rs, r, tol) == RSum([i \in 1..Len(ms) |-> IF RLe(rs[i], r) \/ RNear(rs[i], r, tol, 0) THEN ms[i] ELSE 0])
Below(ms, rs, r, tol) == RSum([i \in 1..Len(ms) |-> IF RLt(rs[i], r) /\ ~RNear(rs[i], r, tol, 0) THEN ms[i] ELSE 0])
\* r is the radius of the star at which the mass inside first reaches the fraction f
LagrangeTol(ms, rs, r, f, tol) ==
  LET tot == RSum(ms) IN
    /\ \E i \in 1..Len(rs) : RNear(rs[i], r, tol, "1e-300")
    /\ RLe(f \otimes tot \otimes "0.999999999", Inside(ms, rs, r, tol))
    /\ RLe(Below(ms, rs, r, tol), f \otimes tot \otimes "1.000000001")
LagrangeOK(ms, rs, r, f) == LagrangeTol(ms, rs, r, f, "1e-9")
IsOrder(ord, rs) ==
  /\ Len(ord) = Len(rs)
  /\ { ord[i] : i \in 1..Len(ord) } = 1..Len(rs)
  /\ \A i \in 1..(Len(ord) - 1) : RLe(rs[ord[i]], rs[ord[i + 1]] \otimes "1.0000000001")

Near(a, b) == RNear(a, b, "1e-9", "1e-300")
DerivedClauses(c, obs) ==
  LET n == Len(obs.x)
      d == obs.d
      R3 == [i \in 1..n |-> RNorm3(obs.x[i])]
      R2 == [i \in 1..n |-> RNorm2(obs.x[i])]
      V3 == [i \in 1..n |-> RNorm3(<< obs.x[i][4], obs.x[i][5], obs.x[i][6] >>)]
      V2 == [i \in 1..n |-> RNorm2(<< obs.x[i][4], obs.x[i][5] >>)]
      same(a, b) == Len(a) = n /\ \A i \in 1..n : Near(a[i], b[i])
  IN IF ~c.fresh THEN [x \in {} |-> TRUE]
     ELSE [ radius    |-> same(d.r, R3),
            radiuspro |-> same(d.rpro, R2),
            speed     |-> same(d.v, V3),
            speedpro  |-> same(d.vpro, V2),
            masses    |-> /\ Near(d.mtot, RSum(obs.m)) /\ Near(d.mmean, RMean(obs.m)),
            radii     |-> /\ Near(d.rmean, RMean(R3)) /\ Near(d.rmax, RSeqMax(R3))
                          /\ Near(d.rmeanpro, RMean(R2)) /\ Near(d.rmaxpro, RSeqMax(R2)),
            \* an order is one of all the stars, or there is none
            whole     |-> Len(obs.ord) \in {0, n} /\ Len(obs.ordpro) \in {0, n},
            halflight |-> (c.sorted /\ Len(obs.lum) = n) =>
                          /\ LagrangeOK(obs.lum, R3, d.rh, "0.5") /\ LagrangeOK(obs.lum, R3, d.rh10, "0.1")
                          /\ LagrangeOK(obs.lum, R2, d.rhpro, "0.5") /\ LagrangeOK(obs.lum, R2, d.rh10pro, "0.1"),
            order     |-> c.sorted => IsOrder(obs.ord, R3),
            orderpro  |-> c.sorted => IsOrder(obs.ordpro, R2),
            halfmass  |-> c.sorted => LagrangeOK(obs.m, R3, d.rm, "0.5"),
            tenthmass |-> c.sorted => LagrangeOK(obs.m, R3, d.r10, "0.1"),
            halfmasspro  |-> c.sorted => LagrangeOK(obs.m, R2, d.rmpro, "0.5"),
            tenthmasspro |-> c.sorted => LagrangeOK(obs.m, R2, d.r10pro, "0.1") ]
=============================================================================
