---------------------------- MODULE ImportTrace ----------------------------
(* C27: clusters set up from tables, orbits, particles and models            *)
EXTENDS Importers, TraceKit
TheInit(i) == i
ThePost(st, e) == st

\* units, origin, scales, and the orbit: from a table, from a galpy orbit, or none
Frame27(i, e) ==
  LET o == e.obs
      q == IF i.orbit.k = "table" THEN Unscaled(e.P, i.orbit.u, i.orbit.w)
           ELSE PV(Scale3("1000.0", << i.orbit.w[1], i.orbit.w[2], i.orbit.w[3] >>), << i.orbit.w[4], i.orbit.w[5], i.orbit.w[6] >>)
      v == Scaled([u |-> i.u, P |-> e.P], q)
  IN [ units  |-> o.u = i.u,
       origin |-> o.o = i.o,
       scales |-> \A k \in {"ro", "vo", "zo", "sx", "sy", "sz"} : N9(e.P[k], i.P[k]),
       orbit  |-> i.orbit.k # "none" => Near6(o.gc, v, "1e-9" \otimes (1 \oplus RNorm3(v)), "1e-9" \otimes (1 \oplus RNorm3(<< v[4], v[5], v[6] >>))) ]
LoadFails(i, e) ==
  LET stars == CASE i.kind = "table" -> StarClauses(TableStars(i), e.obs, TRUE, i.hasid, "1e-11")
                 [] i.kind = "galpy" -> StarClauses(PhaseStars(i), e.obs, i.u # "galpy", TRUE, "1e-9")
                 [] i.kind = "amuse" -> StarClauses(ParticleStars(i, e.P), e.obs, TRUE, TRUE,
                                                   IF i.u \in {"pckms", "kpckms", "amuse"} THEN "1e-10" ELSE "1e-4")
                 [] OTHER -> LET c == e.obs
                                 q == IF i.o = "galaxy" THEN c.gc ELSE << 0, 0, 0, 0, 0, 0 >>
                             IN ModelClauses(i, c, IF i.o = "centre" THEN [j \in 1..6 |-> RNeg(c.cen[j])] ELSE q,
                                             IF i.named THEN Fac(i.u, e.P) ELSE [l |-> 1, v |-> 1, m |-> 1, t |-> 1])
  IN Failing(stars @@ Frame27(i, e))
TheFails(st0, i, e) ==
  CASE e.op = "load" -> LoadFails(i, e)
    [] e.op = "given" -> Failing([ arguments |-> e.same ])
    \* a King model: central potential W0 and concentration c = log10(rt/r0)
    [] e.op = "w0" -> Failing([ potential |-> RNear(e.w0, e.W0, "5e-3", 0), concentration |-> RNear(e.c, e.C, 0, "1e-3"),
                                inverse |-> RNear(e.back, e.C, 0, "1e-9") ])
    [] OTHER -> {}
=============================================================================
