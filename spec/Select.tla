------------------------------- MODULE Select -------------------------------
(* Selections of stars, and the sub-clusters made from them.                 *)
(* A criterion of a query q that is "None" excludes nothing; bounds include  *)
(* their end points.  d is what the cluster shows per star.                  *)
EXTENDS StarCluster, Centre, FiniteSets

AtLeast(x, b) == b = "None" \/ RLe(b, x)
AtMost(x, b)  == b = "None" \/ RLe(x, b)
Meets(d, q, i) ==
  LET r == IF q.projected THEN d.rpro[i] ELSE d.r[i]
      v == IF q.projected THEN d.vpro[i] ELSE d.v[i]
  IN /\ AtLeast(r, q.rmin) /\ AtMost(r, q.rmax)
     /\ AtLeast(d.m[i], q.mmin) /\ AtMost(d.m[i], q.mmax)
     /\ AtLeast(v, q.vmin) /\ AtMost(v, q.vmax)
     /\ q.emin # "None" => RLe(q.emin, d.etot[i])
     /\ q.emax # "None" => RLe(d.etot[i], q.emax)
     /\ Len(d.kw) > 0 => RLe(q.kwmin, d.kw[i]) /\ RLe(d.kw[i], q.kwmax)
     /\ q.npop.k = "one" => d.npop[i] = q.npop.v
     /\ q.mask.k = "many" => q.mask.v[i]
Chosen(d, q) == TLCEval(SelectSeq([i \in 1..Len(d.id) |-> i], LAMBDA i : Meets(d, q, i)))

\* ---- a sub-cluster: the parent's data, restricted
Exact(a, b) == RNear(a, b, "1e-12", "0")
ExactSeq(s, t) == Len(s) = Len(t) /\ \A i \in 1..Len(s) : Exact(s[i], t[i])
Pick(s, J) == [k \in 1..Len(J) |-> s[J[k]]]
PerStar == {"id", "m0", "npop", "kw", "logl", "logr", "ep", "ospin", "kin", "pot", "etot"}
Given(d, f) == Len(d[f]) = Len(d.id)
BinaryRows(d, J) == LET ids == { d.id[J[k]] : k \in 1..Len(J) }
                    IN SelectSeq(d.bse, LAMBDA b : b.id1 \in ids \/ b.id2 \in ids)
Settings == {"ctype", "bunits", "centre_method", "projected", "ro", "vo", "zo", "sx", "sy", "sz", "nc", "rc", "rtide", "rscale", "ns", "n_p"}
Scales == {"zm", "rb", "vb", "tb"}
SameVal(a, b) == a = b
\* N-body scales of a set of stars: total mass, 4/3 half-mass radius, and what follows from them
NBodyOK(q, P0, P, ms, rs) ==
  /\ IF q.mass THEN RNear(P.zm, RSum(ms), "1e-9", 0) ELSE Exact(P.zm, P0.zm)
  /\ IF q.radii THEN LagrangeTol(ms, rs, RMul("0.75", P.rb), "0.5", "1e-7") ELSE Exact(P.rb, P0.rb)
  /\ RNear(P.vb, RMul("0.06557", RSqrt(P.zm \oslash P.rb)), "1e-9", 0)
  /\ RNear(P.tb, P.rb \oslash RMul("1.023", P.vb), "1e-9", 0)
=============================================================================
