------------------------------- MODULE Files -------------------------------
(* A StarCluster written to a file: what each output format must hold, and   *)
(* what a cluster read from such a file must show.                           *)
(* Beside the canonical state c, the cluster carries per-star data           *)
(*   x.kw, x.m0, x.ep, x.ospin   stellar evolution (x.sse says if known)     *)
(*   x.e                          energies << kin, pot, etot >> per star     *)
EXTENDS StarCluster, TLC

N9(a, b) == RNear(a, b, "1e-9", "1e-300")
Near6In(c, a, b) == Near6(a, b, AtolP(c), AtolV(c))
Cols(row, i, k) == [j \in 1..k |-> row[i + j - 1]]

\* a snapshot: mass, the six coordinates as shown, id, then what else is asked for
SnapWidth(x, e) == 8 + (IF x.sse THEN 1 ELSE 0) + (IF e.energies THEN 3 ELSE 0) + (IF e.sky THEN 6 ELSE 0)
GalPV(c, i) == LET g == ReFrame(c, "galaxy") IN PV(g[i].p, g[i].v)
SkyNear(a, b) ==
  LET da == RAbs(a[1] \ominus b[1])
      turn == RMin(da, RAbs(da \ominus 360)) \otimes RCos(b[2] \oslash RDeg)
  IN RLe(turn, "1e-6") /\ RNear(a[2], b[2], 0, "1e-6") /\ \A j \in 3..6 : RNear(a[j], b[j], "1e-8", "1e-6")
SnapClauses(c, x, e) ==
  LET n == Len(c.st)
      f == Fac(c.u, c.P)
      w == SnapWidth(x, e)
      shape == Len(e.rows) = n /\ \A i \in 1..n : Len(e.rows[i]) = w
      k == IF x.sse THEN 1 ELSE 0
      en == IF e.energies THEN 3 ELSE 0
  IN [ columns |-> shape,
       mass    |-> shape => \A i \in 1..n : N9(e.rows[i][1], c.st[i].m \otimes f.m),
       stars   |-> shape => \A i \in 1..n : Near6In(c, Cols(e.rows[i], 2, 6), StarView(c, i)),
       ids     |-> shape => \A i \in 1..n : REq(e.rows[i][8], c.st[i].id),
       types   |-> (shape /\ x.sse) => \A i \in 1..n : REq(e.rows[i][9], x.kw[i]),
       energies |-> (shape /\ e.energies) => \A i \in 1..n : \A j \in 1..3 : N9(e.rows[i][8 + k + j], x.e[i][j]),
       sky     |-> (shape /\ e.sky) => LET G == ReFrame(c, "galaxy")
                                       IN \A i \in 1..n : SkyNear(Cols(e.rows[i], 9 + k + en, 6), Sky(c, PV(G[i].p, G[i].v))) ]

\* stellar evolution: initial mass, type, mass (Msun), epoch, spin, written with six decimals
SseClauses(c, x, rows) ==
  LET n == Len(c.st)
      shape == Len(rows) = n /\ \A i \in 1..n : Len(rows[i]) = 5
      D(a, b) == RNear(a, b, "1e-9", "6e-7")
  IN [ ssecolumns |-> shape,
       ssedata |-> shape => \A i \in 1..n : /\ D(rows[i][1], x.m0[i]) /\ REq(rows[i][2], x.kw[i]) /\ D(rows[i][3], c.st[i].m)
                                            /\ D(rows[i][4], x.ep[i]) /\ D(rows[i][5], x.ospin[i]) ]

\* mass, six coordinates in units u and origin o
CoordClauses(c, u, o, rows, w) ==
  LET d == MoveTo(c, << u, o >>)
      n == Len(c.st)
      f == Fac(u, c.P)
      shape == Len(rows) = n /\ \A i \in 1..n : Len(rows[i]) = w
      \* differences of large numbers are as precise as those numbers
      ap == (AtolP(c) \oslash Fac(c.u, c.P).l) \otimes f.l
      av == (AtolV(c) \oslash Fac(c.u, c.P).v) \otimes f.v
  IN [ columns |-> shape,
       mass  |-> shape => \A i \in 1..n : N9(rows[i][1], d.st[i].m \otimes f.m),
       stars |-> shape => \A i \in 1..n : Near6(Cols(rows[i], 2, 6), StarView(d, i), ap, av) ]
FortClauses(c, rows) == CoordClauses(c, "nbody", "centre", rows, 7)
GyrClauses(c, e) ==
  LET r == CoordClauses(c, "WDunits", "galaxy", e.rows, IF e.eps.k = "none" THEN 7 ELSE 8)
      u == IF e.epsunits = "None" THEN c.u ELSE e.epsunits
      kpc(v) == (v \oslash Fac(u, c.P).l) \otimes "0.001"
  IN r @@ [ softening |-> (r.columns /\ e.eps.k # "none") =>
              \A i \in 1..Len(c.st) : N9(e.rows[i][8], kpc(IF e.eps.k = "one" THEN e.eps.v ELSE e.eps.v[i])) ]

(* ----------------------------- reading back ------------------------------ *)
\* rows: what the file holds, in the order of the named columns that are read; absent columns are 0 (mass 1)
HasCol(e, n) == \E j \in 1..Len(e.cols) : e.cols[j] = n
ColOf(e, n) == CHOOSE j \in 1..Len(e.cols) : e.cols[j] = n
Val(e, i, n, d) == IF HasCol(e, n) THEN e.rows[i][ColOf(e, n)] ELSE d
Row6(e, i) == << Val(e, i, "x", 0), Val(e, i, "y", 0), Val(e, i, "z", 0), Val(e, i, "vx", 0), Val(e, i, "vy", 0), Val(e, i, "vz", 0) >>
LoadClauses(e, obs) ==
  LET n == Len(e.rows)
      all == Len(obs.x) = n /\ Len(obs.m) = n /\ Len(obs.id) = n
      big(a, b) == 1 \oplus RSeqMax([i \in 1..n |-> RMax(RAbs(Row6(e, i)[a]), RMax(RAbs(Row6(e, i)[a + 1]), RAbs(Row6(e, i)[a + 2])))])
      small == IF e.o = "galaxy" THEN "1e-11" ELSE "1e-14"
  IN [ units  |-> obs.u = e.u,
       origin |-> obs.o = e.o,
       count  |-> all,
       mass   |-> all => \A i \in 1..n : N9(obs.m[i], Val(e, i, "m", 1)),
       stars  |-> all => \A i \in 1..n : Near6(obs.x[i], Row6(e, i), small \otimes big(1, 3), small \otimes big(4, 6)),
       ids    |-> all => IF HasCol(e, "id") THEN \A i \in 1..n : REq(obs.id[i], Val(e, i, "id", 0))
                         ELSE \A i \in 1..n : \A j \in 1..n : i # j => obs.id[i] # obs.id[j],
       types  |-> HasCol(e, "kw") => Len(e.kw) = n /\ \A i \in 1..n : REq(e.kw[i], Val(e, i, "kw", 0)),
       time   |-> RNear(obs.t, e.t, "1e-12", 0),
       scales |-> \A k \in {"ro", "vo", "zo", "sx", "sy", "sz"} : N9(e.P[k], e.want[k]) ]
\* an orbit table entry becomes the orbit of the cluster
TableClauses(e, obs) ==
  IF ~e.table THEN [x \in {} |-> TRUE]
  ELSE LET q == Unscaled(e.P, e.ou, e.w)
           v == Scaled([u |-> e.u, P |-> e.P], q)
       IN [ orbit |-> \A j \in 1..6 : RNear(obs.gc[j], v[j], "1e-9", "1e-9") ]
=============================================================================
