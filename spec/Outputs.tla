------------------------------ MODULE Outputs ------------------------------
(* The outputs of N-body codes: what every object of a cluster read from     *)
(* them has.  An output is a list of singles and a list of pairs of stars    *)
(* (each star with everything the files say about it); a cluster lists the   *)
(* pairs first, each as one object, and then the singles.                    *)
EXTENDS Units

Known(x) == IF RFinite(x) THEN x ELSE "0.0"          \* "not a number" is written for stars without evolution
Log10Sum(a, b) == RLog10(RPow(10, a) \oplus RPow(10, b))
Mean2(a, b, wa, wb) == [j \in 1..3 |-> ((wa \otimes a[j]) \oplus (wb \otimes b[j])) \oslash (wa \oplus wb)]
MaxInt(a, b) == IF a > b THEN a ELSE b

\* a pair of stars a, b as one object; whole: the files list the pair itself (its mass, place and motion)
Pair(q, whole) ==
  [id |-> IF whole THEN q.id ELSE q.a.id,
   m  |-> IF whole THEN q.m ELSE q.a.m \oplus q.b.m,
   p  |-> IF whole THEN q.p ELSE Mean2(q.a.p, q.b.p, q.a.m, q.b.m),
   v  |-> IF whole THEN q.v ELSE Mean2(q.a.v, q.b.v, q.a.m, q.b.m),
   logl |-> Log10Sum(Known(q.a.logl), Known(q.b.logl)),
   logr |-> RMax(Known(q.a.logr), Known(q.b.logr)),
   rho |-> q.a.rho \oplus q.b.rho,
   pot |-> q.a.pot \oplus q.b.pot]
Single(s) == [id |-> s.id, m |-> s.m, p |-> s.p, v |-> s.v, logl |-> Known(s.logl), logr |-> Known(s.logr), rho |-> s.rho, pot |-> s.pot]
Objects(o, whole) == [i \in 1..(Len(o.pairs) + Len(o.singles)) |->
                        IF i <= Len(o.pairs) THEN Pair(o.pairs[i], whole) ELSE Single(o.singles[i - Len(o.pairs)])]
\* stellar types: a pair has its own (kwb), or the later of its components
TypeOf(o, i, how) == IF i > Len(o.pairs) THEN o.singles[i - Len(o.pairs)].kw
                     ELSE IF how = "pair" THEN o.pairs[i].kwb ELSE MaxInt(o.pairs[i].a.kw, o.pairs[i].b.kw)

\* scales of binary parameters: periods in days, semi-major axes in Solar radii or au, from the N-body scales
PcInSu == "44353565.926280975"          \* one pc in Solar radii of 6.957e10 cm
PcInAu == "206264.80624709636"
BinaryDays(P) == ("365.25" \otimes RPow(P.rb \otimes PcInAu, "1.5")) \oslash RSqrt(P.zm)
=============================================================================
