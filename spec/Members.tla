------------------------------ MODULE Members ------------------------------
(* What a cluster is made of: the per-star, per-binary and stellar-evolution *)
(* records, and how the add operations extend them.                          *)
(*   st   sequence of stars [id, m, m0, npop, w]; w = <<x,y,z,vx,vy,vz>>     *)
(*   bin  sequence of binaries [a, b, m1, m2] (members' coordinates, masses) *)
(*   sse  sequence of [kw, logl, logr, ep, ospin]                            *)
(*   bse  sequence of records of binary evolution data                       *)
(*   kin, pot, etot   energies last given                                    *)
EXTENDS RealNum, FiniteSets

\* an argument: [k |-> "none"], [k |-> "one", v |-> x] or [k |-> "many", v |-> << .. >>]
ArgLen(a) == CASE a.k = "none" -> 0 [] a.k = "one" -> 1 [] OTHER -> Len(a.v)
ArgAt(a, i, d) == CASE a.k = "none" -> d [] a.k = "one" -> a.v [] OTHER -> a.v[i]
MaxOf(s) == CHOOSE x \in { s[i] : i \in 1..Len(s) } : \A i \in 1..Len(s) : s[i] <= x

ComOfPair(a, b, m1, m2) ==
  [j \in 1..6 |-> ((a[j] \otimes m1) \oplus (b[j] \otimes m2)) \oslash (m1 \oplus m2)]

\* the stars described by the arguments of an addition; ids[i] is used when none are given
NewStars(q, ids) ==
  LET n == MaxOf(<< ArgLen(q.x), ArgLen(q.y), ArgLen(q.z), ArgLen(q.vx), ArgLen(q.vy), ArgLen(q.vz),
                    ArgLen(q.m), ArgLen(q.id), ArgLen(q.m0), ArgLen(q.npop) >>)
  IN [i \in 1..n |-> [ id |-> ArgAt(q.id, i, ids), m |-> ArgAt(q.m, i, "1.0"), m0 |-> ArgAt(q.m0, i, "0.0"),
                       npop |-> ArgAt(q.npop, i, 1),
                       w |-> << ArgAt(q.x, i, 0), ArgAt(q.y, i, 0), ArgAt(q.z, i, 0),
                                ArgAt(q.vx, i, 0), ArgAt(q.vy, i, 0), ArgAt(q.vz, i, 0) >> ]]
AnyId == -999999
PairStar(a, b) == [ id |-> a.id, m |-> a.m \oplus b.m, m0 |-> a.m0 \oplus b.m0, npop |-> a.npop,
                    w |-> ComOfPair(a.w, b.w, a.m, b.m) ]
AddStars(c, q, nb) ==
  LET new == NewStars(q, AnyId)
      coms == [k \in 1..nb |-> PairStar(new[2 * k - 1], new[2 * k])]
      bins == [k \in 1..nb |-> [a |-> new[2 * k - 1].w, b |-> new[2 * k].w, m1 |-> new[2 * k - 1].m, m2 |-> new[2 * k].m]]
  IN [c EXCEPT !.st = coms \o c.st \o SubSeq(new, 2 * nb + 1, Len(new)), !.bin = @ \o bins, !.nb = @ + nb]

\* q.a, q.b: sequences of coordinates; masses etc. arguments as above
Binaries(q) == [k \in 1..Len(q.a) |-> [a |-> q.a[k], b |-> q.b[k], m1 |-> ArgAt(q.m1, k, "1.0"), m2 |-> ArgAt(q.m2, k, "1.0")]]
BinStars(q) ==
  LET B == Binaries(q)
  IN [k \in 1..Len(B) |->
        [ id |-> ArgAt(q.id1, k, AnyId), m |-> B[k].m1 \oplus B[k].m2,
          m0 |-> IF q.m01.k = "none" \/ q.m02.k = "none" THEN "0.0" ELSE ArgAt(q.m01, k, 0) \oplus ArgAt(q.m02, k, 0),
          npop |-> MaxOf(<< ArgAt(q.npop1, k, 1), ArgAt(q.npop2, k, 1) >>),
          w |-> ComOfPair(B[k].a, B[k].b, B[k].m1, B[k].m2) ]]
AddBinaries(c, q) ==
  [c EXCEPT !.bin = @ \o Binaries(q), !.nb = @ + Len(q.a),
            !.st = IF q.mode = "set" THEN BinStars(q) \o @ ELSE @]

\* stellar evolution data; arg (0-based) says which of the new entries each value belongs to
SseAt(q, i) == [kw |-> q.kw[i], logl |-> q.logl[i], logr |-> q.logr[i], ep |-> ArgAt(q.ep, i, "0.0"), ospin |-> ArgAt(q.ospin, i, "0.0")]
AddSse(c, q) ==
  LET n == Len(q.kw)
      src(i) == IF q.arg.k = "none" THEN i ELSE CHOOSE j \in 1..n : q.arg.v[j] + 1 = i
  IN [c EXCEPT !.sse = @ \o [i \in 1..n |-> SseAt(q, src(i))]]
AddBse(c, q) == [c EXCEPT !.bse = @ \o q.rows, !.nb = Len(c.bse) + Len(q.rows)]
AddEnergies(c, q) ==
  [c EXCEPT !.kin = q.kin, !.pot = q.pot,
            !.etot = IF q.etot.k = "none" THEN [i \in 1..Len(q.kin) |-> q.kin[i] \oplus q.pot[i]] ELSE q.etot.v]

(* ------------------------- what the object shows ------------------------- *)
N(a, b) == RNear(a, b, "1e-11", "1e-13")
SameSeq(s, t) == Len(s) = Len(t) /\ \A i \in 1..Len(s) : N(s[i], t[i])
Same6(s, t) == \A j \in 1..6 : N(s[j], t[j])
Distinct(s) == Cardinality({ s[i] : i \in 1..Len(s) }) = Len(s)

StarsClauses(c, obs) ==
  LET n == Len(c.st)
      full == Len(obs.x) = n /\ Len(obs.m) = n /\ Len(obs.id) = n /\ Len(obs.m0) = n /\ Len(obs.npop) = n
  IN [ aligned |-> full,
       coords  |-> full => \A i \in 1..n : Same6(obs.x[i], c.st[i].w),
       masses  |-> full => \A i \in 1..n : N(obs.m[i], c.st[i].m),
       initial |-> full => \A i \in 1..n : N(obs.m0[i], c.st[i].m0),
       pops    |-> full => \A i \in 1..n : obs.npop[i] = c.st[i].npop,
       ids     |-> full => \A i \in 1..n : c.st[i].id # AnyId => obs.id[i] = c.st[i].id,
       \* generated ids belong to nobody else
       newids  |-> full => \A i \in 1..n : c.st[i].id = AnyId =>
                             /\ \A j \in 1..n : j # i => obs.id[j] # obs.id[i]
                             \* nor to the second star of a binary
                             /\ Len(c.bse) = 0 => \A j \in 1..Len(obs.id2) : obs.id2[j] # obs.id[i],
       total   |-> obs.ntot = n,
       binarycount |-> obs.nb = c.nb,
       members |-> /\ Len(obs.bin) = Len(c.bin)
                   /\ Len(obs.bin) = Len(c.bin) =>
                      \A k \in 1..Len(c.bin) : /\ Same6(obs.bin[k].a, c.bin[k].a) /\ Same6(obs.bin[k].b, c.bin[k].b)
                                               /\ N(obs.bin[k].m1, c.bin[k].m1) /\ N(obs.bin[k].m2, c.bin[k].m2) ]
SseClauses(c, obs) ==
  LET n == Len(c.sse)
      full == Len(obs.kw) = n /\ Len(obs.logl) = n /\ Len(obs.logr) = n /\ Len(obs.ep) = n /\ Len(obs.ospin) = n
  IN [ ssealigned |-> full,
       sse |-> full => \A i \in 1..n : /\ N(obs.kw[i], c.sse[i].kw) /\ N(obs.logl[i], c.sse[i].logl)
                                       /\ N(obs.logr[i], c.sse[i].logr) /\ N(obs.ep[i], c.sse[i].ep)
                                       /\ N(obs.ospin[i], c.sse[i].ospin),
       luminosity |-> /\ Len(obs.lum) = n
                      /\ full => \A i \in 1..n : N(obs.lum[i], RPow(10, c.sse[i].logl))
                      /\ (full /\ n > 0) => N(obs.ltot, RSum([i \in 1..n |-> RPow(10, c.sse[i].logl)])) ]
BseFields == {"id1", "id2", "kw1", "kw2", "kcm", "ecc", "pb", "semi", "m1", "m2", "logl1", "logl2", "logr1", "logr2",
              "ep1", "ep2", "ospin1", "ospin2"}
BseClauses(c, obs) ==
  LET n == Len(c.bse) IN
     [ bse |-> \A f \in BseFields : LET s == obs.bse[f] IN
                 /\ Len(s) = n /\ (Len(s) = n => \A i \in 1..n : N(s[i], c.bse[i][f])),
       binding |-> /\ Len(obs.eb) = n
                   /\ Len(obs.eb) = n => \A i \in 1..n : N(obs.eb[i], (RMul("0.5", c.bse[i].m1) \otimes c.bse[i].m2) \oslash c.bse[i].semi) ]
EnergyClauses(c, obs) ==
     [ energies |-> SameSeq(obs.kin, c.kin) /\ SameSeq(obs.pot, c.pot) /\ SameSeq(obs.etot, c.etot),
       totals |-> Len(c.kin) > 0 =>
                  /\ N(obs.ektot, RSum(c.kin)) /\ N(obs.ptot, RSum(c.pot) \oslash 2)
                  /\ RNear(obs.qvir, RSum(c.kin) \oslash (RSum(c.pot) \oslash 2), "1e-9", 0) ]
=============================================================================
