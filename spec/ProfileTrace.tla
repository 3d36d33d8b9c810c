---------------------------- MODULE ProfileTrace ----------------------------
(* C16-C18: recorded profiles and mass functions judged against Profiles.tla *)
EXTENDS Profiles, TraceKit
TheInit(i) == << >>
ThePost(c, e) == c
Tol(d) == IF d.o = "galaxy" THEN "1e-6" ELSE "1e-8"
FrameOf(d) == IF d.o \in {"cluster", "centre"} THEN d.o ELSE "centre"
\* the profiled stars: in the frame of the profile, with what the criteria look at
Scene(d, q, f) ==
  LET S == TLCEval(RawStars(d, f))
      n == Len(S)
      w == TLCEval([ r |-> [i \in 1..n |-> RNorm3(S[i].w)], rpro |-> [i \in 1..n |-> RNorm2(S[i].w)],
                     v |-> [i \in 1..n |-> RSqrt(RSq(S[i].w[4]) \oplus RSq(S[i].w[5]) \oplus RSq(S[i].w[6]))],
                     vpro |-> [i \in 1..n |-> RSqrt(RSq(S[i].w[4]) \oplus RSq(S[i].w[5]))],
                     m |-> d.m, etot |-> d.etot, kw |-> d.kw, npop |-> d.npop, id |-> d.id ])
  IN [S |-> S, m |-> d.m, r |-> IF q.projected THEN w.rpro ELSE w.r, v |-> IF q.projected THEN w.vpro ELSE w.v,
      J |-> Chosen(w, q)]
\* radii, possibly in units of the half-mass radius (density and mass profiles: of the cluster, or as seen)
Norms(x, q) == IF ~q.norm THEN << "1.0" >>
               ELSE IF q.projected /\ q.either THEN << MassRadius(x.S, TRUE, "0.5"), MassRadius(x.S, FALSE, "0.5") >>
               ELSE << MassRadius(x.S, q.projected, "0.5") >>
RadiiOK(x, q, B, rp, t) == \E k \in 1..Len(Norms(x, q)) :
                           \A i \in 1..Len(B) : RNear(rp[i], B[i].mid \oslash Norms(x, q)[k], t, 0)

DensityFails(e) ==
  LET d == e.par
      q == e.q
      x == TLCEval(Scene(d, q, FrameOf(d)))
      B == TLCEval(RadialBins(x, q))
      M == TLCEval([i \in 1..Len(B) |-> InBinLoose(x, B, i, q.own)])
      E == TLCEval([i \in 1..Len(B) |-> IF q.cum THEN Enclosed(x, B, i) ELSE M[i]])
      mass(J) == RSum(PickOf(x.m, J))
      full == Len(e.rp) = Len(B) /\ Len(e.pp) = Len(B) /\ Len(e.np) = Len(B)
  IN Failing([ bins |-> full,
               radii |-> full => RadiiOK(x, q, B, e.rp, Tol(d)),
               counts |-> full => \A i \in 1..Len(B) : REq(e.np[i], Len(E[i])),
               density |-> (full /\ e.op = "rho") => \A i \in 1..Len(B) : RNear(e.pp[i], mass(M[i]) \oslash Volume(B[i], q.projected), Tol(d), 0),
               mass |-> (full /\ e.op = "m") => \A i \in 1..Len(B) : RNear(e.pp[i], mass(E[i]), "1e-9", 0),
               total |-> (full /\ q.own # "given") =>
                   LET parts == [i \in 1..Len(B) |-> IF e.op = "rho" THEN e.pp[i] \otimes Volume(B[i], q.projected) ELSE e.pp[i]]
                   IN IF q.cum THEN RNear(e.pp[Len(B)], mass(x.J), "1e-9", 0) ELSE RNear(RSum(parts), mass(x.J), Tol(d), 0) ])
MotionFails(e) ==
  LET d == e.par
      q == e.q
      x == TLCEval(Scene(d, q, FrameOf(d)))
      B == TLCEval(RadialBins(x, q))
      M == TLCEval([i \in 1..Len(B) |-> InBinLoose(x, B, i, q.own)])
      v == TLCEval([i \in 1..Len(x.S) |-> Component(x.S[i].w, q.projected, q.coord)])
      big == RSeqMax([i \in 1..Len(x.S) |-> RNorm3(<< x.S[i].w[4], x.S[i].w[5], x.S[i].w[6] >>)])
      full == Len(e.rp) = Len(B) /\ Len(e.pp) = Len(B)
      want(i) == LET J == M[i]
                     y == PickOf(v, J)
                 IN Stat(J, CASE e.op = "v" -> RMean(y)
                              [] e.op = "v2" -> RMean([k \in 1..Len(y) |-> RSq(y[k])])
                              [] e.op = "sigv" -> RStd(y)
                              [] OTHER -> Anisotropy(x.S, J, q.projected))
      at == CASE e.op = "v2" -> RMul(Tol(d), RSq(big)) [] e.op = "beta" -> Tol(d) [] OTHER -> RMul(Tol(d), big)
  IN Failing([ bins |-> full,
               radii |-> full => RadiiOK(x, q, B, e.rp, Tol(d)),
               value |-> full => \A i \in 1..Len(B) : RNear(e.pp[i], want(i), IF e.op = "beta" THEN "1e-5" ELSE Tol(d), at) ])
\* circular velocity: at the chosen star nearest to each bin's mid radius
CircFails(e) ==
  LET d == e.par
      q == e.q
      x == TLCEval(Scene(d, q, FrameOf(d)))
      o == TLCEval(LET r == PickOf(x.r, x.J) IN LET a == RArgSort(r) IN [k \in 1..Len(a) |-> x.J[a[k]]])
      c == TLCEval(RunningSum(PickOf(x.m, o)))
      n == Len(o)
      vc == TLCEval([k \in 1..n |-> RSqrt((GravIn(d.u) \otimes c[k]) \oslash x.r[o[k]])])
      B == TLCEval(RadialBins(x, q))
      Z == Norms(x, q)[1]
      N(a, b) == RNear(a, b, Tol(d), 0)
      near(i) == LET s == [k \in 1..n |-> RAbs(x.r[o[k]] \ominus B[i].mid)]
                     m == RSeqMin(s)
                 IN { k \in 1..n : RNear(s[k], m, 0, RMul(Tol(d), B[i].mid)) }
      full == Len(e.rp) = Len(e.pp) /\ Len(e.rp) = IF q.own = "all" THEN n ELSE Len(B)
  IN Failing([ bins |-> full,
               value |-> full => IF q.own = "all" THEN \A k \in 1..n : N(e.rp[k], x.r[o[k]] \oslash Z) /\ N(e.pp[k], vc[k])
                                 ELSE \A i \in 1..Len(B) : \E k \in near(i) : N(e.rp[i], x.r[o[k]] \oslash Z) /\ N(e.pp[i], vc[k]),
               maximum |-> /\ N(e.vmax, RSeqMax(vc))
                           /\ \E k \in 1..n : N(vc[k], e.vmax) /\ N(e.rvmax, x.r[o[k]]) ])
\* slopes of the mass function or of dispersion against mass, in radial bins, and how they change with ln r
SlopeProfFails(e) ==
  LET d == e.par
      q == e.q
      x == TLCEval(Scene(d, q, FrameOf(d)))
      B == TLCEval(RadialBins(x, q))
      M == TLCEval([i \in 1..Len(B) |-> InBinLoose(x, B, i, q.own)])
      ones == IF q.corr.k = "none" THEN [k \in 1..Len(d.m) |-> 1] ELSE q.corr.v
      mid == TLCEval([i \in 1..Len(B) |-> IF q.own = "given" /\ e.op = "alpha" THEN RMean(PickOf(x.r, M[i])) ELSE B[i].mid])
      f == TLCEval([i \in 1..Len(B) |-> IF e.op = "alpha" THEN (IF Len(M[i]) >= q.nmass THEN MassFunction(x.m, M[i], q, ones).fit ELSE [a |-> "0.0", ea |-> "0.0"])
                                        ELSE IF Len(M[i]) >= 2 * q.nmass THEN SigmaOfMass(x.m, x.v, M[i], q).fit ELSE [a |-> "0.0", ea |-> "0.0"]])
      sound == TLCEval([i \in 1..Len(B) |-> e.op = "alpha" \/ Len(M[i]) < 2 * q.nmass \/ SigmaOfMass(x.m, x.v, M[i], q).sound])
      rm == MassRadius(x.S, q.projected, "0.5")
      g == TLCEval(LineFit([i \in 1..Len(B) |-> RLn(mid[i] \oslash rm)], [i \in 1..Len(B) |-> IF sound[i] \/ Len(e.pp) # Len(B) THEN f[i].a ELSE e.pp[i]]))
      full == Len(e.rp) = Len(B) /\ Len(e.pp) = Len(B)
      N(a, b) == RNear(a, b, "1e-4", "1e-5")
  IN Failing([ bins |-> full,
               radii |-> full => \A i \in 1..Len(B) : RNear(e.rp[i], mid[i] \oslash (IF q.norm THEN rm ELSE "1.0"), Tol(d), 0),
               slopes |-> full => \A i \in 1..Len(B) : sound[i] => N(e.pp[i], f[i].a),
               errors |-> (full /\ Len(e.ep) > 0) => \A i \in 1..Len(B) : N(e.ep[i], f[i].ea),
               gradient |-> full => IF Len(B) > 3 THEN N(e.fit[1], g.a) /\ N(e.fit[2], g.ea) /\ N(e.fit[3], g.b) /\ N(e.fit[4], g.eb)
                                    ELSE REq(e.fit[1], -100) ])
\* equipartition mass in radial bins, and how it changes with ln r; a fitted law has the best normalisation for its mass
MeqProfFails(e) ==
  LET d == e.par
      q == e.q
      x == TLCEval(Scene(d, q, FrameOf(d)))
      B == TLCEval(RadialBins(x, q))
      M == TLCEval([i \in 1..Len(B) |-> InBinLoose(x, B, i, q.own)])
      f == TLCEval([i \in 1..Len(B) |-> IF Len(M[i]) >= 2 * q.nmass THEN SigmaOfMass(x.m, x.v, M[i], q) ELSE [mid |-> <<>>, sig |-> <<>>, sound |-> FALSE]])
      rm == MassRadius(x.S, q.projected, "0.5")
      full == Len(e.rp) = Len(B) /\ Len(e.pp) = Len(B)
      g == TLCEval(LineFit([i \in 1..Len(B) |-> RLn(B[i].mid \oslash rm)], e.pp))
      N(a, b) == RNear(a, b, "1e-4", "1e-5")
      lo == RSeqMin(d.m)
      hi == RSeqMax(d.m)
      Cost(i, a) == LET w == TLCEval([k \in 1..Len(f[i].mid) |-> MeqLaw(f[i].mid[k], a, "1.0")])
                        s0 == RSum([k \in 1..Len(w) |-> w[k] \otimes f[i].sig[k]]) \oslash RSum([k \in 1..Len(w) |-> RSq(w[k])])
                    IN MeqCost(f[i].mid, f[i].sig, a, s0)
      noworse(i, a) == ~(RLe(lo, a) /\ RLe(a, hi))
                       \/ RLe(Cost(i, e.pp[i]), (Cost(i, a) \otimes "1.001") \oplus RMul("1e-9", RSum([k \in 1..Len(f[i].sig) |-> RSq(f[i].sig[k])])))
  IN Failing([ bins |-> full,
               radii |-> full => \A i \in 1..Len(B) : RNear(e.rp[i], B[i].mid \oslash (IF q.norm THEN rm ELSE "1.0"), Tol(d), 0),
               few |-> full => \A i \in 1..Len(B) : Len(M[i]) < 2 * q.nmass => REq(e.pp[i], 0),
               inrange |-> full => \A i \in 1..Len(B) : f[i].sound => RLe(lo \otimes "0.999999", e.pp[i]) /\ RLe(e.pp[i], hi \otimes "1.000001"),
               best |-> full => \A i \in 1..Len(B) : (f[i].sound /\ RLt(0, e.pp[i])) => noworse(i, e.pp[i] \otimes "1.05") /\ noworse(i, e.pp[i] \otimes "0.95"),
               gradient |-> full => IF Len(B) > 3 THEN N(e.fit[1], g.a) /\ N(e.fit[2], g.ea) /\ N(e.fit[3], g.b) /\ N(e.fit[4], g.eb)
                                    ELSE REq(e.fit[1], -100) ])
Here(d, q) == LET w == d IN [m |-> d.m, v |-> IF q.projected THEN d.vpro ELSE d.v, r |-> IF q.projected THEN d.rpro ELSE d.r, J |-> Chosen(d, q)]
\* completeness of stars: one number each
MassFails(e) ==
  LET d == e.par
      q == e.q
      x == TLCEval(Here(d, q))
      corr == IF q.corr.k = "none" THEN [k \in 1..Len(d.m) |-> 1] ELSE q.corr.v
      f == TLCEval(MassFunction(x.m, x.J, q, corr))
      n == Len(f.mid)
      enough == Len(x.J) >= q.nmass
      full == Len(e.mm) = n /\ Len(e.mh) = n /\ Len(e.dm) = n
      N(a, b) == RNear(a, b, "1e-6", "1e-7")
  IN IF ~enough THEN Failing([ toofew |-> Len(e.fit) > 0 /\ \A k \in 1..Len(e.fit) : REq(e.fit[k], -1000) ])
     ELSE Failing([ bins |-> full,
                    means |-> full => \A i \in 1..n : RNear(e.mm[i], f.mid[i], "1e-9", 0),
                    counts |-> full => \A i \in 1..n : REq(e.mh[i], f.n[i]),
                    everyone |-> full => REq(RSum(e.mh), Len(x.J)),
                    dndm |-> full => \A i \in 1..n : RNear(e.dm[i], f.dm[i], "1e-8", 0),
                    complete |-> (full /\ q.corr.k = "many") => \A i \in 1..n : f.n[i] > 0 => RNear(e.err[i], RDiv(f.n[i], f.c[i]), "1e-9", 0),
                    slope |-> e.op = "mf" => N(e.fit[1], f.fit.a) /\ N(e.fit[3], f.fit.b),
                    errors |-> e.op = "mf" => RNear(e.fit[2], f.fit.ea, "1e-4", "1e-6") /\ RNear(e.fit[4], f.fit.eb, "1e-4", "1e-6"),
                    recorded |-> e.method => RNear(e.kept, e.fit[IF e.op = "taper" THEN 3 ELSE 1], "1e-9", 0),
                    \* the fitted tapered law cannot be improved by a small step in any parameter
                    best |-> e.op = "taper" => LET A == e.fit[1]
                                                   al == e.fit[3]
                                                   mc == e.fit[5]
                                                   be == e.fit[7]
                                                   C(a, b, c, g) == TaperCost(f.mid, f.dm, a, b, c, g)
                                                   c0 == C(A, al, mc, be) \otimes "1.0001"
                                                   up == "1.01"
                                                   dn == "0.99"
                                               IN /\ RLe(C(A, al, mc, be), C(A \otimes up, al, mc, be) \otimes "1.0001")
                                                  /\ RLe(C(A, al, mc, be), C(A \otimes dn, al, mc, be) \otimes "1.0001") ])
SigmaFails(e) ==
  LET d == e.par
      q == e.q
      x == TLCEval(Here(d, q))
      f == TLCEval(SigmaOfMass(x.m, x.v, x.J, q))
      n == Len(f.mid)
      enough == Len(x.J) >= 2 * q.nmass
      full == Len(e.mm) = n /\ Len(e.sig) = n
      N(a, b) == RNear(a, b, "1e-6", "1e-7")
      lo == RSeqMin(d.m)
      hi == RSeqMax(d.m)
      Cost(a, b) == MeqCost(f.mid, f.sig, a, b)
      c0 == Cost(e.fit[1], e.fit[3])
      noworse(a, b) == ~(RLe(lo, a) /\ RLe(a, hi) /\ RLe(0, b)) \/ RLe(c0, (Cost(a, b) \otimes "1.001") \oplus RMul("1e-9", RSum([i \in 1..n |-> RSq(f.sig[i])])))
  IN IF ~enough THEN Failing([ toofew |-> \A k \in 1..Len(e.fit) : REq(e.fit[k], -1000) ])
     ELSE Failing([ bins |-> full,
                    means |-> full => \A i \in 1..n : RNear(e.mm[i], f.mid[i], "1e-9", 0),
                    dispersion |-> full => \A i \in 1..n : RNear(e.sig[i], f.sig[i], "1e-7", 0),
                    slope |-> (~e.meq /\ f.sound) => N(e.fit[1], f.fit.a) /\ N(e.fit[3], f.fit.b),
                    errors |-> (~e.meq /\ f.sound) => RNear(e.fit[2], f.fit.ea, "1e-4", "1e-6") /\ RNear(e.fit[4], f.fit.eb, "1e-4", "1e-6"),
                    fiterrors |-> (e.meq /\ f.sound /\ RLt(0, e.fit[1]) /\ RLt(0, e.fit[3])) =>
                                     LET g == TLCEval(MeqError(f.mid, f.sig, e.fit[1], e.fit[3]))
                                     IN g.sound => RNear(e.fit[2], g.eq, "1e-3", 0) /\ RNear(e.fit[4], g.es, "1e-3", 0),
                    recorded |-> (e.method /\ f.sound) => RNear(e.kept, e.fit[1], "1e-9", 0),
                    \* the fitted law cannot be improved by a small step in either parameter
                    best |-> (e.meq /\ f.sound) => /\ noworse(e.fit[1] \otimes "1.05", e.fit[3]) /\ noworse(e.fit[1] \otimes "0.95", e.fit[3])
                                      /\ noworse(e.fit[1], e.fit[3] \otimes "1.02") /\ noworse(e.fit[1], e.fit[3] \otimes "0.98") ])
TheFails(c0, c1, e) ==
  (CASE e.op \in {"rho", "m"} -> DensityFails(e)
     [] e.op \in {"v", "v2", "sigv", "beta"} -> MotionFails(e)
     [] e.op = "vcirc" -> CircFails(e)
     [] e.op = "meqprof" -> MeqProfFails(e)
     [] e.op \in {"alpha", "eta"} -> SlopeProfFails(e)
     [] e.op \in {"mf", "taper"} -> MassFails(e)
     [] e.op = "sigma" -> SigmaFails(e)
     [] e.op = "ckin" -> Failing([ ratio |-> RNear(e.ck, e.inner \oslash e.half, "1e-6", 0) ])) \cup
  Failing(StateClauses(FromRaw(e.par), e.after)) \cup
  Failing([ mask |-> e.mask_after = e.q.mask, bingiven |-> e.bins_after ])
=============================================================================
