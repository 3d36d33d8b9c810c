------------------------------ MODULE Profiles ------------------------------
(* Radial profiles, mass functions and mass-dependent kinematics of a set of stars.          *)
(* x: what is profiled - [S stars, r radii, v speeds, m masses, J chosen stars (indices)]     *)
EXTENDS Select, Radii, Bins

\* ---- radial bins over the chosen stars: preset, of equal width, or of equal number
RadialBins(x, q) ==
  LET r == PickOf(x.r, x.J)
  IN IF q.own = "given" THEN [i \in 1..Len(q.lo) |-> [lo |-> q.lo[i], mid |-> q.mid[i], hi |-> q.hi[i]]]
     ELSE IF q.own = "fix" THEN FixedBins(r, q.nrad) ELSE EqualBins(r, q.nrad)
\* chosen stars in bin i; stars outside preset bins are in none
InBin(x, B, i) == SelectSeq(x.J, LAMBDA k : Covered(B, x.r[k]) /\ BinOf(B, x.r[k]) = i)
InBinLoose(x, B, i, own) == IF own = "given" THEN InBin(x, B, i) ELSE SelectSeq(x.J, LAMBDA k : BinOf(B, x.r[k]) = i)
Enclosed(x, B, i) == SelectSeq(x.J, LAMBDA k : IF i < Len(B) THEN RLt(x.r[k], B[i].hi) ELSE RLe(x.r[k], B[i].hi))
Volume(b, pro) == IF pro THEN RPi \otimes (RSq(b.hi) \ominus RSq(b.lo))
                  ELSE RMul(RDiv(4, 3), RPi) \otimes (RCube(b.hi) \ominus RCube(b.lo))

\* ---- velocity of a star along a coordinate
Component(w, pro, coord) ==
  LET R == RSqrt(RSq(w[1]) \oplus RSq(w[2]))
      r == RNorm3(w)
      vR == ((w[1] \otimes w[4]) \oplus (w[2] \otimes w[5])) \oslash R
  IN CASE coord \in {"r", "vr"} -> IF pro THEN vR ELSE (RMul(w[1], w[4]) \oplus RMul(w[2], w[5]) \oplus RMul(w[3], w[6])) \oslash r
       [] coord \in {"phi", "vp", "vphi"} -> ((w[1] \otimes w[5]) \ominus (w[2] \otimes w[4])) \oslash R
       [] coord \in {"theta", "vt", "vtheta"} -> ((vR \otimes w[3]) \ominus (R \otimes w[6])) \oslash r
       [] coord \in {"x", "vx"} -> w[4]
       [] coord \in {"y", "vy"} -> w[5]
       [] coord \in {"z", "vz"} -> w[6]
       [] OTHER -> IF pro THEN RSqrt(RSq(w[4]) \oplus RSq(w[5])) ELSE RSqrt(RSq(w[4]) \oplus RSq(w[5]) \oplus RSq(w[6]))
\* statistics need more than three stars
Stat(J, s) == IF Len(J) > 3 THEN s ELSE "0.0"
Anisotropy(S, J, pro) ==
  LET sd(c) == RVar([k \in 1..Len(J) |-> Component(S[J[k]].w, pro, c)])
  IN IF pro THEN RSqrt(sd("phi") \oslash sd("r")) \ominus 1
     ELSE 1 \ominus ((sd("theta") \oplus sd("phi")) \oslash (2 \otimes sd("r")))

\* ---- mass function of the stars J: equal numbers or equal widths in mass, dN/dM, its slope
MassBins(m, J, q) == IF q.mfix THEN FixedBins(PickOf(m, J), q.nmass) ELSE EqualBins(PickOf(m, J), q.nmass)
InMass(m, B, J, i) == SelectSeq(J, LAMBDA k : BinOf(B, m[k]) = i)
MassFunction(m, J, q, corr) ==     \* corr: completeness of every star
  LET B == TLCEval(MassBins(m, J, q))
      M == TLCEval([i \in 1..Len(B) |-> InMass(m, B, J, i)])
      c == TLCEval([i \in 1..Len(B) |-> RSum([k \in 1..Len(M[i]) |-> RDiv(1, corr[M[i][k]])])])
      dm == TLCEval([i \in 1..Len(B) |-> c[i] \oslash (B[i].hi \ominus B[i].lo)])
      K == SelectSeq([i \in 1..Len(B) |-> i], LAMBDA i : Len(M[i]) > 0)
  IN [mid |-> [i \in 1..Len(B) |-> B[i].mid], n |-> [i \in 1..Len(B) |-> Len(M[i])], dm |-> dm, c |-> c,
      fit |-> TLCEval(LineFit([k \in 1..Len(K) |-> RLog10(B[K[k]].mid)], [k \in 1..Len(K) |-> RLog10(dm[K[k]])]))]
\* ---- velocity dispersion against mean mass
SigmaOfMass(m, v, J, q) ==
  LET B == TLCEval(EqualBins(PickOf(m, J), q.nmass))
      M == TLCEval([i \in 1..Len(B) |-> InMass(m, B, J, i)])
      s == TLCEval([i \in 1..Len(B) |-> RStd(PickOf(v, M[i]))])
  IN [mid |-> [i \in 1..Len(B) |-> B[i].mid], sig |-> s, sound |-> \A i \in 1..Len(B) : Len(M[i]) > 1,   \* one star has no dispersion
      fit |-> TLCEval(LineFit([i \in 1..Len(B) |-> RLog10(B[i].mid)], [i \in 1..Len(B) |-> RLog10(s[i])]))]
\* Bianchini et al. 2016: equipartition mass
MeqLaw(m, meq, s0) == IF RLe(m, meq) THEN s0 \otimes RExp(RMul("-0.5", m \oslash meq))
                      ELSE s0 \otimes RExp("-0.5") \otimes RPow(m \oslash meq, "-0.5")
MeqCost(x, y, meq, s0) == RSum([i \in 1..Len(x) |-> RSq(y[i] \ominus MeqLaw(x[i], meq, s0))])
\* uncertainties of the two parameters of the fitted law: the diagonal of s2 (J^T J)^-1, s2 the mean square residual per degree of freedom
MeqError(x, y, meq, s0) ==
  LET n == Len(x)
      Jq == TLCEval([i \in 1..n |-> MeqLaw(x[i], meq, s0) \otimes RMul("0.5", IF RLe(x[i], meq) THEN x[i] \oslash RSq(meq) ELSE "1.0" \oslash meq)])
      Js == TLCEval([i \in 1..n |-> MeqLaw(x[i], meq, s0) \oslash s0])
      qq == RSum([i \in 1..n |-> RSq(Jq[i])])
      ss == RSum([i \in 1..n |-> RSq(Js[i])])
      qs == RSum([i \in 1..n |-> Jq[i] \otimes Js[i]])
      det == (qq \otimes ss) \ominus RSq(qs)
      s2 == MeqCost(x, y, meq, s0) \oslash (n - 2)
  IN [sound |-> n > 2 /\ ~RLe(det, RMul("1e-5", qq \otimes ss)),
      eq |-> IF n > 2 THEN RSqrt((s2 \otimes ss) \oslash det) ELSE "0.0", es |-> IF n > 2 THEN RSqrt((s2 \otimes qq) \oslash det) ELSE "0.0"]
\* Tapered power law
TaperLaw(m, A, al, mc, be) == A \otimes RPow(m, al) \otimes (1 \ominus RExp(RNeg(RPow(m \oslash mc, be))))
TaperCost(x, y, A, al, mc, be) == RSum([i \in 1..Len(x) |-> RSq(y[i] \ominus TaperLaw(x[i], A, al, mc, be))])
=============================================================================
