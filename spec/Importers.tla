----------------------------- MODULE Importers -----------------------------
(* Setting up a StarCluster from data that are not simulation output: tables *)
(* of stars, galpy orbits, AMUSE particles and lowered isothermal models.    *)
EXTENDS Files, FiniteSets

\* galpy phase-space coordinates << R, vR, vT, z, vz, phi >> in units of ro and vo
FromPhase(w, ro, vo) ==
  LET c == RCos(w[6])
      s == RSin(w[6])
  IN << ro \otimes (w[1] \otimes c), ro \otimes (w[1] \otimes s), ro \otimes w[4],
        vo \otimes ((w[2] \otimes c) \ominus (w[3] \otimes s)),
        vo \otimes ((w[2] \otimes s) \oplus (w[3] \otimes c)), vo \otimes w[5] >>

\* the stars that a source holds, as the cluster must show them
TableStars(i) == [k \in 1..Len(i.rows) |-> [w |-> [j \in 1..6 |-> i.rows[k][j]], m |-> i.rows[k][7], id |-> i.rows[k][8]]]
PhaseStars(i) == [k \in 1..Len(i.rows) |-> [w |-> FromPhase(i.rows[k], i.ro, i.vo), m |-> i.rows[k][7], id |-> i.rows[k][8]]]
\* particles hold pc, km/s and Msun whatever units they were written in
ParticleStars(i, P) ==
  [k \in 1..Len(i.rows) |->
     [w |-> Scaled([u |-> i.u, P |-> P], PV(<< i.rows[k][1], i.rows[k][2], i.rows[k][3] >>, << i.rows[k][4], i.rows[k][5], i.rows[k][6] >>)),
      m |-> i.rows[k][7] \otimes Fac(i.u, P).m, id |-> i.rows[k][8]]]

StarClauses(S, obs, hasm, hasid, tol) ==
  LET n == Len(S)
      all == Len(obs.x) = n /\ Len(obs.m) = n /\ Len(obs.id) = n
      big(a) == RMax("1e-3", RSeqMax([k \in 1..n |-> RMax(RAbs(S[k].w[a]), RMax(RAbs(S[k].w[a + 1]), RAbs(S[k].w[a + 2])))]))
  IN [ count |-> all,
       stars |-> all => \A k \in 1..n : Near6(obs.x[k], S[k].w, tol \otimes big(1), tol \otimes big(4)),
       mass  |-> (all /\ hasm) => \A k \in 1..n : RNear(obs.m[k], S[k].m, "1e-9", "1e-300"),
       ids   |-> all => IF hasid THEN \A k \in 1..n : REq(obs.id[k], S[k].id)
                        ELSE \A k \in 1..n : \A j \in 1..n : k # j => obs.id[k] # obs.id[j] ]

(* ------------------------------- models ---------------------------------- *)
\* a random realisation of a model of mass M, half-mass radius rh, edge rt and mean square velocity v2,
\* all in the units of the model; N stars of the same mass around pos/vel q
Dist(a, q) == RNorm3(<< a[1] \ominus q[1], a[2] \ominus q[2], a[3] \ominus q[3] >>)
ModelClauses(i, obs, q, f) ==
  LET n == Len(obs.x)
      all == n = i.n /\ Len(obs.m) = n
      r == TLCEval([k \in 1..n |-> Dist(obs.x[k], q)])
      within(R) == Cardinality({ k \in 1..n : RLe(r[k], R) })
      rh == i.rh \otimes f.l
      v2 == RMean([k \in 1..n |-> RSum([j \in 1..3 |-> RSq(obs.x[k][j + 3] \ominus q[j + 3])])])
      \* five standard deviations of the sampling noise
      dr == RMax("0.02", "5.5" \oslash RSqrt(i.n))
  IN [ count |-> n = i.n,
       mass  |-> all => RNear(RSum(obs.m), i.M \otimes f.m, "1e-6", 0),
       equal |-> all => \A k \in 1..n : RNear(obs.m[k], RDiv(i.M, i.n) \otimes f.m, "1e-6", 0),
       half  |-> all => /\ 2 * within(rh \otimes (1 \oplus dr)) >= n
                        /\ 2 * within(rh \otimes (1 \ominus dr)) <= n,
       edge  |-> all => \A k \in 1..n : RLe(r[k], i.rt \otimes f.l \otimes "1.001"),
       speed |-> all => RNear(v2, i.v2 \otimes RSq(f.v), RMax("0.03", "6" \oslash RSqrt(i.n)), 0),
       ids   |-> all => \A k \in 1..n : obs.id[k] \in 1..n ]
=============================================================================
