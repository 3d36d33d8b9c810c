---------------------------- MODULE OutputTrace ----------------------------
(* C29: clusters read from N-body outputs judged by Outputs.tla.  The state  *)
(* is how many outputs of the run have been read.                            *)
EXTENDS Outputs, TraceKit
TheInit(i) == [i |-> i, k |-> 0]
ThePost(c, e) == [c EXCEPT !.k = @ + 1]

F7(a, b) == RNear(a, b, "1e-6", "1e-12")
Rows(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : F7(a[i], b[i])
Vec(w, p, v, sp, sv) == \A j \in 1..3 : RNear(w[j], p[j], "1e-6", "2e-7" \otimes sp) /\ RNear(w[j + 3], v[j], "1e-6", "2e-7" \otimes sv)
Empty(e) == Failing([ empty |-> e.ntot = 0 /\ Len(e.x) = 0 ])
ReadFails(c, e, o) ==
  LET kind == c.i.kind
      P == o.P
      O == TLCEval(Objects(o, kind = "nbody6"))
      n == Len(O)
      nb == Len(o.pairs)
      phys == kind = "hdf5"
      fl == IF phys THEN 1 \oslash P.rb ELSE "1.0"
      fv == IF phys THEN 1 \oslash P.vb ELSE "1.0"
      fm == IF phys THEN 1 \oslash P.zm ELSE "1.0"
      full == Len(e.x) = n /\ Len(e.m) = n /\ Len(e.id) = n
      p(i) == IF phys /\ i <= nb THEN o.pairs[i].p ELSE O[i].p
      v(i) == IF phys /\ i <= nb THEN o.pairs[i].v ELSE O[i].v
      sp == RSeqMax([i \in 1..n |-> RNorm3(p(i)) \otimes fl])
      sv == RSeqMax([i \in 1..n |-> RNorm3(v(i)) \otimes fv])
      bm == IF phys THEN fm ELSE 1 \oslash P.zm
      semi(q) == IF phys THEN q.semi \oslash (P.rb \otimes PcInAu) ELSE RPow(10, q.semi) \oslash (P.rb \otimes PcInSu)
      pb(q) == (IF phys THEN q.pb ELSE RPow(10, q.pb)) \oslash BinaryDays(P)
      B == o.pairs
      bse == o.ev /\ nb > 0
      b == e.bse
  IN Failing([ units |-> e.u = "nbody" /\ e.o = "cluster",
               time  |-> F7(e.t, o.t),
               count |-> e.ntot = n /\ full,
               binaries |-> e.nb = nb /\ e.ns = n - nb,
               ids   |-> full => \A i \in 1..n : e.id[i] = O[i].id,
               mass  |-> full => \A i \in 1..n : F7(e.m[i], O[i].m \otimes fm),
               stars |-> full => \A i \in 1..n : Vec(e.x[i], Scale3(fl, p(i)), Scale3(fv, v(i)), sp, sv),
               scales |-> F7(e.P.zm, P.zm) /\ F7(e.P.rb, P.rb) /\ F7(e.P.vb, P.vb) /\ F7(e.P.tb, P.tb),
               header |-> e.head.nc = o.head.nc /\ F7(e.head.rc, o.head.rc) /\ F7(e.head.rtide, o.head.rtide) /\ F7(e.head.rscale, o.head.rscale),
               centre |-> o.centred => \A j \in 1..3 : RNear(e.cen[j], o.cen[j], "1e-6", "1e-7"),
               types |-> o.ev => (Len(e.kw) = n /\ \A i \in 1..n : (e.kw[i] = TypeOf(o, i, IF kind = "nbody6" THEN "pair" ELSE "later")) \/ (kind = "hdf5" /\ i <= nb /\ e.kw[i] = B[i].a.kw)),
               luminosity |-> o.ev => (Rows(e.logl, [i \in 1..n |-> O[i].logl]) /\ Len(e.lum) = n /\ \A i \in 1..n : F7(e.lum[i], RPow(10, O[i].logl))),
               radii |-> (o.ev /\ ~phys) => Rows(e.logr, [i \in 1..n |-> O[i].logr]),
               density |-> kind = "conf" => Rows(e.rho, [i \in 1..n |-> O[i].rho]),
               potential |-> kind # "nbody6" => Rows(e.pot, [i \in 1..n |-> IF phys /\ i <= nb THEN B[i].pot ELSE O[i].pot]),
               components |-> bse => /\ Len(b.id1) = nb /\ Len(b.kw1) = nb /\ Len(b.logl1) = nb
                                     /\ \A i \in 1..nb : /\ b.id1[i] = B[i].a.id /\ b.id2[i] = B[i].b.id
                                                         /\ b.kw1[i] = B[i].a.kw /\ b.kw2[i] = B[i].b.kw /\ b.kcm[i] = B[i].kwb
                                                         /\ F7(b.logl1[i], Known(B[i].a.logl)) /\ F7(b.logl2[i], Known(B[i].b.logl))
                                                         /\ F7(b.logr1[i], Known(B[i].a.logr)) /\ F7(b.logr2[i], Known(B[i].b.logr)),
               parts |-> bse => Len(b.m1) = nb /\ \A i \in 1..nb : F7(b.m1[i], B[i].a.msun \otimes bm) /\ F7(b.m2[i], B[i].b.msun \otimes bm),
               pairs |-> bse => Len(b.semi) = nb /\ \A i \in 1..nb : F7(b.ecc[i], B[i].ecc) /\ F7(b.semi[i], semi(B[i])) /\ F7(b.pb[i], pb(B[i])) ])
TheFails(c0, c, e) == IF c.k > Len(c.i.outs) THEN Empty(e) ELSE ReadFails(c, e, c.i.outs[c.k])
=============================================================================
