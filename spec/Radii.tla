-------------------------------- MODULE Radii --------------------------------
(* Characteristic radii and relaxation times of a set of stars S = <<[m, w]>>.*)
EXTENDS Energies, TLC

Rad(S, pro) == [i \in 1..Len(S) |-> IF pro THEN RNorm2(S[i].w) ELSE RNorm3(S[i].w)]
Masses(S) == [i \in 1..Len(S) |-> S[i].m]
\* running sums of a sequence
RECURSIVE Cum(_, _, _, _)
Cum(s, i, acc, out) == IF i > Len(s) THEN out
                       ELSE LET a == acc \oplus s[i] IN Cum(s, i + 1, a, Append(out, a))
RunningSum(s) == Cum(s, 1, "0.0", << >>)
\* radius of the star at which the mass inside first reaches a fraction of the whole
MassRadius(S, pro, f) ==
  LET r == TLCEval(Rad(S, pro))
      o == TLCEval(RArgSort(r))
      c == TLCEval(RunningSum([i \in 1..Len(S) |-> S[o[i]].m]))
      k == CHOOSE j \in 1..Len(S) : /\ RLe(f \otimes c[Len(S)] \otimes "0.9999999999", c[j])
                                    /\ j > 1 => ~RLe(f \otimes c[Len(S)] \otimes "0.9999999999", c[j - 1])
  IN r[o[k]]
InverseDistance(S, pro) == RSq(RSum(Masses(S))) \oslash (2 \otimes PairSum(S, pro))

\* mean density inside each star, outwards; the radius where it meets the overdensity, by linear interpolation
CriticalDensity(H) == RMul("1e-12", RDiv(3 \otimes RSq(H), 8 \otimes RPi \otimes GalpyG))     \* Msun/pc^3
Overdensity(S, pro, rho) ==      \* <<"ok", r>> or <<"ambiguous">> when the density does not simply fall through rho
  LET r == TLCEval(Rad(S, pro))
      o == TLCEval(RArgSort(r))
      c == TLCEval(RunningSum([i \in 1..Len(S) |-> S[o[i]].m]))
      n == Len(S)
      p == TLCEval([i \in 1..n |-> c[i] \oslash (RMul(RDiv(4, 3), RPi) \otimes RCube(r[o[i]]))])
      near == TLCEval(RArgSort([i \in 1..n |-> RAbs(p[i] \ominus rho)]))
      k == near[1]
      falls(a, b) == RLt(p[b], rho) /\ RLt(rho, p[a])
      at(a, b) == LET m == (p[b] \ominus p[a]) \oslash (r[o[b]] \ominus r[o[a]])
                  IN r[o[b]] \oplus ((rho \ominus p[b]) \oslash m)
      clear == n < 2 \/ ~RNear(RAbs(p[near[1]] \ominus rho), RAbs(p[near[2]] \ominus rho), "1e-6", 0)
  IN IF ~clear THEN << "ambiguous" >>
     ELSE IF k = 1 \/ k = n THEN << "ok", r[o[k]] >>
     ELSE IF RLt(p[k], rho) /\ falls(k - 1, k) THEN << "ok", at(k - 1, k) >>
     ELSE IF RLt(rho, p[k]) /\ falls(k, k + 1) THEN << "ok", at(k, k + 1) >>
     ELSE << "ambiguous" >>

\* core radius: density-weighted mean radius, densities from k nearest neighbours (the star itself is the first)
LocalDensity(S, k, pro) ==
  [i \in 1..Len(S) |->
     LET d == TLCEval([j \in 1..Len(S) |-> RSqrt(Sep2(S[i].w, S[j].w, pro))])
         o == TLCEval(RArgSort(d))
     IN RSum([a \in 1..(k - 1) |-> S[o[a]].m]) \oslash RPow(d[o[k]], IF pro THEN 2 ELSE 3)]
CoreRadius(S, k, pro) ==
  LET rho == TLCEval(LocalDensity(S, k, pro))
      r == TLCEval(Rad(S, pro))
      w == TLCEval([i \in 1..Len(S) |-> RSq(rho[i])])
  IN RSqrt(RSum([i \in 1..Len(S) |-> w[i] \otimes RSq(r[i])]) \oslash RSum(w))

(* ---- relaxation times, in Myr, of stars in pc, km/s, Msun ---- *)
MyrPerPcKms == RDiv("3.086e13", "31536000000000.0")     \* pc/(km/s) in Myr, with years of 365 days
LnLambda(S, q) == RLn(q.coulomb \otimes Len(S))
MeanMass(S) == RSum(Masses(S)) \oslash Len(S)
\* Spitzer & Hart 1971
SpitzerHart(S, q, rad) ==
  LET r == TLCEval(Rad(S, q.pro))
      J == SelectSeq([i \in 1..Len(S) |-> i], LAMBDA i : RLe(r[i], rad \otimes "1.000000001"))
      mbar == RSum([k \in 1..Len(J) |-> S[J[k]].m]) \oslash Len(J)
      n == Len(J) \oslash (RMul(RDiv(4, 3), RPi) \otimes RCube(rad))
      v2 == RMean([i \in 1..Len(S) |-> 2 \otimes Kin(S, i, q.pro, TRUE)])
  IN MyrPerPcKms \otimes (RPow(v2, "1.5") \oslash (RMul("15.4", RSq(Grav0)) \otimes RSq(mbar) \otimes n \otimes LnLambda(S, q)))
\* Spitzer 1987
HalfMassTime(S, q) ==
  LET M == RSum(Masses(S))
      rm == MassRadius(S, q.pro, "0.5")
  IN MyrPerPcKms \otimes ((RMul("0.138", RSqrt(M)) \otimes RPow(rm, "1.5")) \oslash (MeanMass(S) \otimes RSqrt(Grav0) \otimes LnLambda(S, q)))
\* Stone & Ostriker 2015
CoreTime(S, q, rc) ==
  LET M == RSum(Masses(S))
      rh == MassRadius(S, q.pro, "0.5")
  IN MyrPerPcKms \otimes RDiv("0.39", LnLambda(S, q)) \otimes RSqrt(RCube(rc) \oslash (Grav0 \otimes M)) \otimes (M \oslash MeanMass(S))
     \otimes (RSqrt(rc \otimes rh) \oslash (rc \oplus rh))
=============================================================================
