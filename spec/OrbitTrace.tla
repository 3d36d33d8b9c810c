----------------------------- MODULE OrbitTrace -----------------------------
(* C22, C23: recorded orbits and their propagation judged against Orbits.tla *)
EXTENDS Orbits, TraceKit
Tight == "1e-8"
Loose == "2e-5"       \* numerical integration
TheInit(i) == FromRaw(i)

OU(c, e) == IF e.ou = "None" THEN c.u ELSE e.ou
ThePost(c, e) ==
  CASE e.op = "addorbit" -> LET c1 == RecordOrbit(c, OU(c, e), e.w)
                            IN IF e.timed THEN RecordTime(c1, OU(c, e), e.t) ELSE c1
    [] e.op = "units"    -> ToUnits(c, e.u)
    [] e.op = "origin"   -> ToOrigin(c, e.o)
    [] e.op = "movecluster" -> [MoveCluster(c, UseScales(c.P, e.g), e.k, Myr(c, e.t), e.fc) EXCEPT !.tol = Loose]
    [] e.op = "movestars"   -> [MoveStars(c, UseScales(c.P, e.g), e.k, Myr(c, e.t)) EXCEPT !.tol = Loose]
    [] OTHER -> c

PosTol(c, t) == t \otimes SizePos(c)
VelTol(c, t) == t \otimes SizeVel(c)
\* a six-vector in kpc and km/s, as galpy orbits show them
Shows(c, w, q, t) == Near6(w, Tuple6(PV(Kpc(q.p), q.v)), PosTol(c, t) \otimes "0.001", VelTol(c, t))
\* on the sky: positions within 1e-6 deg, proper motions within 1e-5 mas/yr (looser when integrated)
SkyAs(P, w, q, f) ==
  LET s == SkyOf(P, Kpc(q.p), q.v)
      da == RAbs(w[1] \ominus s[1])
      turn == RMin(da, RAbs(da \ominus 360)) \otimes RCos(s[2] \oslash RDeg)
  IN /\ RLe(turn, "1e-6" \otimes f)
     /\ RNear(w[2], s[2], 0, "1e-6" \otimes f)
     /\ RNear(w[3], s[3], "1e-8", "1e-7" \otimes f)
     /\ \A j \in 4..6 : RNear(w[j], s[j], "1e-7" \otimes f, "1e-5" \otimes f)

\* the same state, judged with the tolerance of the integration
Same(c, obs, t) ==
  LET f == Fac(c.u, c.P)
      n == Len(c.st)
      ap == PosTol(c, t) \otimes f.l
      av == VelTol(c, t) \otimes f.v
      sky == c.u = "radec"
  IN [ units  |-> obs.u = c.u,
       origin |-> obs.o = c.o,
       count  |-> Len(obs.x) = n /\ Len(obs.m) = n /\ Len(obs.id) = n,
       ids    |-> Len(obs.id) = n => \A i \in 1..n : obs.id[i] = c.st[i].id,
       mass   |-> Len(obs.m) = n => \A i \in 1..n : RNear(obs.m[i], c.st[i].m \otimes f.m, "1e-9", 0),
       stars  |-> Len(obs.x) = n => \A i \in 1..n :
                    IF sky /\ c.o = "sky" THEN SkyAs(c.P, obs.x[i], PV(c.st[i].p, c.st[i].v), "20.0")
                    ELSE IF sky THEN Near6(obs.x[i], StarView(c, i), "2e-5", "2e-4") ELSE Near6(obs.x[i], StarView(c, i), ap, av),
       centre |-> sky \/ Near6(obs.cen, CenView(c), ap, av),
       orbit  |-> IF sky THEN SkyAs(c.P, obs.gc, c.gc, "20.0") ELSE Near6(obs.gc, GcView(c), ap, av),
       time   |-> RNear(obs.t, c.t \otimes f.t, "1e-7", "1e-12") ]
\* in sky units a cluster that is moved keeps its stars' angular, not linear, distances
Mine(c, e, r) == IF c.u = "radec" /\ e.op \in {"movecluster", "addorbit"} THEN [k \in DOMAIN r \ {"stars", "centre"} |-> r[k]] ELSE r

\* sky coordinates read with other scales are another place in the Galaxy
Read(c, P, q) == IF c.u = "radec" THEN Unscaled(P, "radec", Sky(c, q)) ELSE q
\* a state that was moved is known to the precision of the integration
Unchanged(c, obs) == Failing(IF c.tol = Loose THEN Same(c, obs, Loose) ELSE StateClauses(c, obs)) = {}
InitFails(c, e) ==
  LET P == UseScales(c.P, e.g)
      q == Read(c, P, StartOf(c, e.fc))
  IN Failing([ start |-> Shows(c, e.xv, q, IF c.u = "radec" THEN "1e-6" ELSE Tight),
               sky   |-> SkyAs(P, e.sky, q, 1),
               unchanged |-> e.op = "recorded" \/ Unchanged(c, e.obs) ])
InitAllFails(c, e) ==
  LET P == UseScales(c.P, e.g)
      n == Len(c.st)
      q(i) == Read(c, P, PV(c.st[i].p, c.st[i].v))
      all == Len(e.xv) = n
  IN Failing([ count |-> all,
               start |-> all => \A i \in 1..n : Shows(c, e.xv[i], q(i), IF c.u = "radec" THEN "1e-6" ELSE Tight),
               sky   |-> (all /\ Frame(c) = "galaxy") => \A i \in 1..n : SkyAs(P, e.sky[i], q(i), 1),
               unchanged |-> Unchanged(c, e.obs) ])
\* six-vectors returned by a function, in the cluster's units (on the sky if those are sky units)
Returned(c, P, w, q) == IF c.u = "radec" THEN SkyAs(P, w, q, "20.0")
                        ELSE Near6(w, Scaled(c, q), PosTol(c, Loose) \otimes Fac(c.u, c.P).l, VelTol(c, Loose) \otimes Fac(c.u, c.P).v)
WhereFails(c, e) ==
  LET P == UseScales(c.P, e.g)
      T == Myr(c, e.t)
  IN IF e.op = "where"
     THEN Failing([ moved |-> Returned(c, P, e.r, Moved(P, e.k, Read(c, P, StartOf(c, e.fc)), T)),
                    unchanged |-> Unchanged(c, e.obs) ])
     ELSE Failing([ count |-> Len(e.r) = Len(c.st),
                    moved |-> Len(e.r) = Len(c.st) => \A i \in 1..Len(c.st) : Returned(c, P, e.r[i], Moved(P, e.k, Read(c, P, PV(c.st[i].p, c.st[i].v)), T)),
                    unchanged |-> Unchanged(c, e.obs) ])
PathFails(c, e) ==
  LET P == UseScales(c.P, e.g)
      n == Len(e.tp)
      full == n = e.nt /\ Len(e.r) = n
      q(i) == Moved(P, e.k, Read(c, P, StartOf(c, e.fc)), Myr(c, e.tp[i]))
      tl == "1e-9" \otimes RAbs(e.t)
  IN Failing([ times |-> full => \A i \in 1..n : RNear(e.tp[i], RNeg(e.t) \oplus ((2 \otimes e.t \otimes (i - 1)) \oslash (n - 1)), "1e-7", "1e-7" \otimes RAbs(e.t)),
               count |-> full,
               path  |-> full => \A i \in 1..n : IF e.sky THEN SkyAs(P, e.r[i], q(i), "20.0") ELSE Returned(c, P, e.r[i], q(i)),
               orbit |-> e.made => Shows(c, e.xv, Moved(P, e.k, Read(c, P, StartOf(c, e.fc)), Myr(c, RNeg(e.t))), Loose),
               kept  |-> e.method => e.kept = e.r /\ e.kepttime = e.tp,
               unchanged |-> Unchanged(c, e.obs) ])
TheFails(c0, c1, e) ==
  CASE e.op \in {"init", "recorded"} -> InitFails(c1, e)
    [] e.op = "inits"  -> InitAllFails(c1, e)
    [] e.op = "create" -> Failing([ orbit |-> LET c == [c1 EXCEPT !.u = e.u, !.gc = PV(Scale3("1000.0", << e.w[1], e.w[2], e.w[3] >>), << e.w[4], e.w[5], e.w[6] >>)]
                                               IN IF e.u = "radec" THEN SkyAs(c.P, e.gc, c.gc, 1)
                                                  ELSE Near6(e.gc, GcView(c), AtolP(c), AtolV(c)) ])
    [] e.op \in {"where", "wheres"} -> WhereFails(c1, e)
    [] e.op = "path" -> PathFails(c1, e)
    [] OTHER -> LET t == IF c1.tol = Loose THEN Loose ELSE Tight
                IN Failing(Mine(c1, e, Same(c1, e.obs, t)))
=============================================================================
