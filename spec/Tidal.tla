------------------------------- MODULE Tidal --------------------------------
(* The reach of a cluster in the potential of its galaxy.  A potential is a   *)
(* sum of components in natural units (ro, vo, G = 1); forces and densities   *)
(* follow from it by differentiation, so that they need no formulas of their  *)
(* own: fourth-order differences, accurate to about 1e-7.                     *)
EXTENDS StarCluster, Bins
PhiOf(g, R, z) ==
  CASE g.kind = "log"     -> RMul("0.5", g.amp) \otimes RLn(RSq(R) \oplus RSq(z) \oplus RSq(g.a))
    [] g.kind = "kepler"  -> RNeg(g.amp \oslash RNorm2(<< R, z >>))
    [] g.kind = "plummer" -> RNeg(g.amp \oslash RSqrt(RSq(R) \oplus RSq(z) \oplus RSq(g.a)))
    [] g.kind = "nfw"     -> LET r == RNorm2(<< R, z >>) IN RNeg((g.amp \otimes RLn(1 \oplus (r \oslash g.a))) \oslash r)
    [] g.kind = "disc"    -> RNeg(g.amp \oslash RNorm2(<< R, g.a \oplus RNorm2(<< z, g.b >>) >>))
    [] OTHER -> "0.0"
Phi(G, R, z) == RSum([k \in 1..Len(G) |-> PhiOf(G[k], R, z)])
\* derivatives from the values of a function at -2h, -h, 0, h, 2h
D1(f, h) == ((f[1] \ominus f[5]) \oplus (8 \otimes (f[4] \ominus f[2]))) \oslash (12 \otimes h)
D2(f, h) == ((RNeg(f[1] \oplus f[5])) \oplus (16 \otimes (f[2] \oplus f[4])) \ominus (30 \otimes f[3])) \oslash (12 \otimes RSq(h))
\* along the line from the centre of the galaxy through (R, z)
Tide(G, R, z) ==
  LET r == RNorm2(<< R, z >>)
      h == RMul("0.01", r)
      f == TLCEval([k \in 1..5 |-> LET s == 1 \oplus RMul("0.01", k - 3) IN Phi(G, R \otimes s, z \otimes s)])
  IN (D1(f, h) \oslash r) \ominus D2(f, h)
\* Poisson: 4 pi rho = div grad Phi
Background(G, R, z) ==
  LET h == RMul("0.01", RNorm2(<< R, z >>))
      at(k) == (k - 3) \otimes h
      fR == TLCEval([k \in 1..5 |-> Phi(G, R \oplus at(k), z)])
      fz == TLCEval([k \in 1..5 |-> Phi(G, R, z \oplus at(k))])
  IN RSum(<< D2(fR, h), D1(fR, h) \oslash R, D2(fz, h) >>) \oslash (4 \otimes RPi)

\* everything in natural units; m, r: masses and distances of the stars counted
RtOf(T, M) == IF REq(M, 0) THEN "0.0" ELSE RPow(M \oslash T, RDiv(1, 3))
RECURSIVE Iterate(_, _, _, _, _, _)
\* rt is known; left more steps; each star that was once outside stays outside
Iterate(T, m, r, rt, left, conv) ==
  IF left = 0 THEN rt
  ELSE LET mm == TLCEval([k \in 1..Len(m) |-> IF RLt(r[k], rt) THEN m[k] ELSE "0.0"])
           new == RtOf(T, RSum(mm))
       IN IF REq(new, 0) THEN "0.0"
          ELSE IF RLe(conv \otimes rt, new) THEN rt
          ELSE Iterate(T, mm, r, new, left - 1, conv)
TidalRadius(T, m, r, n, conv) == Iterate(T, m, r, RtOf(T, RSum(m)), n, conv)

\* where the density profile over nrad bins of equal numbers meets the background, by linear interpolation
Shell(b, pro) == IF pro THEN RPi \otimes (RSq(b.hi) \ominus RSq(b.lo)) ELSE RMul(RDiv(4, 3), RPi) \otimes (RCube(b.hi) \ominus RCube(b.lo))
LimitingRadius(rho, m, r, nrad, pro) ==
  LET B == TLCEval(EqualBins(r, nrad))
      n == Len(B)
      p == TLCEval([i \in 1..n |-> RSum(PickOf(m, Members(B, r, i))) \oslash Shell(B[i], pro)])
      \* on the sky: the background seen through a sphere as large as the cluster
      bg == IF pro THEN rho \otimes ((4 \otimes B[n].mid) \oslash 3) ELSE rho
      K == SelectSeq([i \in 1..n |-> i], LAMBDA i : RLt(p[i], bg))
  IN IF RLt(bg, p[n]) THEN B[n].mid
     ELSE IF RLt(p[1], bg) THEN "0.0"
     ELSE LET i == K[1]
              s == (p[i] \ominus p[i - 1]) \oslash (B[i].mid \ominus B[i - 1].mid)
          IN B[i - 1].mid \oplus ((bg \ominus p[i - 1]) \oslash s)
=============================================================================
